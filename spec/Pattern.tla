------------------------------ MODULE Pattern ------------------------------
(* How a pattern is read: an optional leading control verb, then one token   *)
(* per step. A pattern is a sequence of code points; offsets are in bytes of *)
(* its UTF-8 form.                                                           *)
(*                                                                           *)
(* The reader is a deterministic machine: Start, then Advance per character, *)
(* then Finish. MC_Pattern runs it as a state machine over every pattern of  *)
(* bounded length and compares it with the declarative definitions of        *)
(* Grammar; the trace specifications fold it over recorded patterns.         *)
EXTENDS Bytes, TLC

Open == 40
Close == 41
Bar == 124
Star == 42

Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
ByteLength(cs) == FoldLeft(LAMBDA n, c : n + Width(c), 0, cs)
IsAscii(c) == c < 128
IsLiteralChar(c) == IsAscii(c) /\ c \notin {Open, Close, Bar}

-----------------------------------------------------------------------------
(* Control verbs.                                                            *)

UCP == <<85, 67, 80>>
UTF8 == <<85, 84, 70, 56>>
UTF == <<85, 84, 70>>
(* Recognised, not supported.                                                *)
UnsupportedVerbs == {
    <<78, 79, 95, 65, 85, 84, 79, 95, 80, 79, 83, 83, 69, 83, 83>>,  \* NO_AUTO_POSSESS
    <<78, 79, 95, 83, 84, 65, 82, 84, 95, 79, 80, 84>>,              \* NO_START_OPT
    <<85, 84, 70, 49, 54>>,                                          \* UTF16
    <<85, 84, 70, 51, 50>>,                                          \* UTF32
    <<67, 82>>,                                                      \* CR
    <<76, 70>>,                                                      \* LF
    <<67, 82, 76, 70>>,                                              \* CRLF
    <<65, 78, 89, 67, 82, 76, 70>>,                                  \* ANYCRLF
    <<65, 78, 89>>,                                                  \* ANY
    <<66, 83, 82, 95, 65, 78, 89, 67, 82, 76, 70>>,                  \* BSR_ANYCRLF
    <<66, 83, 82, 95, 85, 78, 73, 67, 79, 68, 69>>                   \* BSR_UNICODE
}
UnsupportedPrefixes == {
    <<76, 73, 77, 73, 84, 95, 77, 65, 84, 67, 72, 61>>,                      \* LIMIT_MATCH=
    <<76, 73, 77, 73, 84, 95, 82, 69, 67, 85, 82, 83, 73, 79, 78, 61>>       \* LIMIT_RECURSION=
}

(* Position of the parenthesis that ends the verb, 0 if there is none. A     *)
(* verb has at least one character.                                          *)
VerbEnd(cs) ==
    IF Len(cs) < 4 \/ cs[1] # Open \/ cs[2] # Star \/ cs[3] = Close THEN 0
    ELSE SelectInSeq(cs, LAMBDA c : c = Close)

(* The verb of a pattern: what it is, its text and the position of the first *)
(* character after it.                                                       *)
ReadVerb(cs) == Let(VerbEnd(cs), LAMBDA e :
    IF e = 0 THEN [what |-> "none", text |-> <<>>, next |-> 1]
    ELSE LET t == SubSeq(cs, 3, e - 1) IN
         [what |-> CASE t = UCP -> "ucp"
                     [] t \in {UTF8, UTF} -> "utf8"
                     [] t \in UnsupportedVerbs \/ \E p \in UnsupportedPrefixes : IsPrefix(p, t) -> "unsupported"
                     [] OTHER -> "unknown",
          text |-> t, next |-> e + 1])

(* The verb text starts after the parenthesis and the star.                 *)
VerbOffset == 2

-----------------------------------------------------------------------------
(* Failures of one pattern. at = -1: no place; text: of the verb.            *)

NoFailure == [cause |-> "none", at |-> -1, text |-> <<>>]
Failure(c, at) == [cause |-> c, at |-> at, text |-> <<>>]
VerbFailure(v) ==
    IF v.what \in {"unsupported", "unknown"}
    THEN [cause |-> v.what, at |-> VerbOffset, text |-> v.text]
    ELSE NoFailure

-----------------------------------------------------------------------------
(* The reader. A frame is a group being read: its capture number, where it   *)
(* was opened, the branches completed so far and the items of the current    *)
(* one. An item is represented by its traversal, a sequence of numbers.      *)

EnterSeq(cap) == 1000 + cap
EnterBranch == 999
BetweenSeq == 1
LeaveSeq == 2
EnterAlt == 3
BetweenAlt == 4
LeaveAlt == 5
EnterClass == 6
DuringClass == 7
LeaveClass == 8

ClassItem == <<EnterClass, DuringClass, LeaveClass>>

Join(parts, sep) ==
    IF parts = <<>> THEN <<>>
    ELSE FoldLeft(LAMBDA acc, p : acc \o <<sep>> \o p, parts[1], Tail(parts))

FrameItem(f) ==
    IF f.done = <<>>
    THEN <<EnterSeq(f.cap)>> \o Join(f.items, BetweenSeq) \o <<LeaveSeq>>
    ELSE LET branch(items) == <<EnterBranch>> \o Join(items, BetweenSeq) \o <<LeaveSeq>>
             bs == [i \in 1..(Len(f.done) + 1) |->
                      branch(IF i <= Len(f.done) THEN f.done[i] ELSE f.items)]
         IN <<EnterSeq(f.cap), EnterAlt>> \o Join(bs, BetweenAlt) \o <<LeaveAlt, LeaveSeq>>

NewFrame(cap, at) == [cap |-> cap, at |-> at, done |-> <<>>, items |-> <<>>]

(* The machine when the first token after the verb is at byte offset off.    *)
Start(off) ==
    [off |-> off,             \* byte offset of the next token
     stack |-> <<>>,          \* enclosing groups, outermost first
     cur |-> NewFrame(0, 0),  \* group being read
     next |-> 1,              \* next capture number
     alts |-> 0,              \* number of alternation bars
     failure |-> NoFailure]

AddItem(f, it) == [f EXCEPT !.items = Append(@, it)]

OpenGroup(m) ==
    [m EXCEPT !.stack = Append(@, m.cur),
              !.cur = NewFrame(m.next, m.off),
              !.next = @ + 1,
              !.off = @ + 1]
CloseGroup(m) ==
    [m EXCEPT !.stack = Front(@),
              !.cur = AddItem(Last(m.stack), FrameItem(m.cur)),
              !.off = @ + 1]
NextBranch(m) ==
    [m EXCEPT !.cur.done = Append(@, m.cur.items),
              !.cur.items = <<>>,
              !.alts = @ + 1,
              !.off = @ + 1]
ReadLiteral(m) ==
    [m EXCEPT !.cur = AddItem(@, ClassItem), !.off = @ + 1]
Fail(m, cause) == [m EXCEPT !.failure = Failure(cause, m.off)]

Advance(m, c) ==
    CASE m.failure.cause # "none" -> m
      [] c = Open -> OpenGroup(m)
      [] c = Close /\ m.stack # <<>> -> CloseGroup(m)
      [] c = Close /\ m.stack = <<>> -> Fail(m, "unmatched")
      [] c = Bar -> NextBranch(m)
      [] ~IsAscii(c) -> Fail(m, "nonascii")
      [] OTHER -> ReadLiteral(m)

Finish(m) ==
    IF m.failure.cause = "none" /\ m.stack # <<>>
    THEN [m EXCEPT !.failure = Failure("unclosed", m.cur.at)]
    ELSE m

(* The same machine without the tree, for very long patterns.                *)
Skim(off) == [off |-> off, stack |-> <<>>, alts |-> 0, failure |-> NoFailure]
SkimAdvance(m, c) ==
    CASE m.failure.cause # "none" -> m
      [] c = Open -> [m EXCEPT !.stack = Append(@, m.off), !.off = @ + 1]
      [] c = Close /\ m.stack # <<>> -> [m EXCEPT !.stack = Front(@), !.off = @ + 1]
      [] c = Close /\ m.stack = <<>> -> Fail(m, "unmatched")
      [] c = Bar -> [m EXCEPT !.alts = @ + 1, !.off = @ + 1]
      [] ~IsAscii(c) -> Fail(m, "nonascii")
      [] OTHER -> [m EXCEPT !.off = @ + 1]
SkimFinish(m) ==
    IF m.failure.cause = "none" /\ m.stack # <<>>
    THEN [m EXCEPT !.failure = Failure("unclosed", Last(m.stack))]
    ELSE m

-----------------------------------------------------------------------------
(* The traversal of a well-formed pattern without its tree: whether visits   *)
(* are FrameItem of what ReadTree reads. It takes linear time.               *)

(* What may come directly after a visit.                                     *)
Follows(a, b) ==
    CASE a >= EnterSeq(0) -> b \in {EnterClass, EnterAlt, LeaveSeq} \/ b > EnterSeq(0)
      [] a = EnterBranch -> b \in {EnterClass, LeaveSeq} \/ b > EnterSeq(0)
      [] a = BetweenSeq -> b = EnterClass \/ b > EnterSeq(0)
      [] a = LeaveSeq -> b \in {BetweenSeq, LeaveSeq, BetweenAlt, LeaveAlt}
      [] a \in {EnterAlt, BetweenAlt} -> b = EnterBranch
      [] a = LeaveAlt -> b = LeaveSeq
      [] a = EnterClass -> b = DuringClass
      [] a = DuringClass -> b = LeaveClass
      [] a = LeaveClass -> b \in {BetweenSeq, LeaveSeq}
      [] OTHER -> FALSE

(* The character of the pattern at which a visit happens; 0 if at none. The  *)
(* end of a branch, unlike that of a group, is followed by the next branch   *)
(* or the end of the alternation.                                            *)
AnyLiteral == 97
TokenAt(a, b) ==
    CASE a > EnterSeq(0) -> Open
      [] a = EnterClass -> AnyLiteral
      [] a = BetweenAlt -> Bar
      [] a = LeaveSeq /\ b \notin {BetweenAlt, LeaveAlt} -> Close
      [] OTHER -> 0

(* What is entered and not left. What is left must have been entered.       *)
Nest(inside, v) ==
    LET top == IF inside = <<>> THEN 0 ELSE Last(inside) IN
    CASE inside = <<-1>> -> inside
      [] v = EnterAlt \/ v >= EnterBranch -> Append(inside, v)
      [] v = LeaveSeq /\ top >= EnterBranch -> Front(inside)
      [] v = LeaveAlt /\ top = EnterAlt -> Front(inside)
      [] v = BetweenAlt /\ top # EnterAlt -> <<-1>>
      [] v \in {LeaveSeq, LeaveAlt} -> <<-1>>
      [] OTHER -> inside

Traverses(visits, body) ==
    LET n == Len(visits)
        shape == [i \in 1..(n - 1) |-> TokenAt(visits[i], visits[i + 1])]
        groups == SelectSeq(visits, LAMBDA v : v > EnterSeq(0))
    IN
    /\ n >= 2
    /\ visits[1] = EnterSeq(0)
    /\ visits[n] = LeaveSeq
    /\ \A i \in 1..(n - 1) : Follows(visits[i], visits[i + 1])
    /\ \A i \in 2..(n - 1) : visits[i] # EnterSeq(0)
    /\ \A i \in DOMAIN groups : groups[i] = EnterSeq(i)
    /\ FoldLeft(Nest, <<>>, visits) = <<>>
    /\ SelectSeq(shape, LAMBDA c : c # 0) =
         [i \in DOMAIN body |-> IF IsLiteralChar(body[i]) THEN AnyLiteral ELSE body[i]]

-----------------------------------------------------------------------------
(* Flags of a pattern.                                                       *)

FlagBit == [caseless |-> 1, dotall |-> 2, multiline |-> 4, singlematch |-> 8,
            allowempty |-> 16, utf8 |-> 32, ucp |-> 64, prefilter |-> 128,
            som |-> 256, combination |-> 512, quiet |-> 1024]
HasFlag(fl, name) == (fl \div FlagBit[name]) % 2 = 1

(* Modes when the tokens are read: the flags', plus the verb's.              *)
Mode(fl, v) ==
    [caseless |-> HasFlag(fl, "caseless"),
     dotall |-> HasFlag(fl, "dotall"),
     ignorespace |-> FALSE,
     multiline |-> HasFlag(fl, "multiline"),
     ucp |-> HasFlag(fl, "ucp") \/ v.what = "ucp",
     utf8 |-> HasFlag(fl, "utf8") \/ v.what = "utf8"]

-----------------------------------------------------------------------------
(* The whole reading of a pattern with its flags. Independent of the tree:   *)
(* failure, literal characters in order, whether there is an alternation.    *)

QuietSom(fl) == HasFlag(fl, "quiet") /\ HasFlag(fl, "som")

(* What one literal character stands for.                                    *)
CharClass(c, caseless) == IF caseless THEN CaseVariants(c) ELSE {c}

LitElem(c, caseless) ==
    IF caseless /\ IsAlpha(c) THEN <<ToUpper(c), TRUE>> ELSE <<c, FALSE>>

Body(cs) == SubSeq(cs, ReadVerb(cs).next, Len(cs))
BodyOffset(cs) == ByteLength(SubSeq(cs, 1, ReadVerb(cs).next - 1))

ReadTree(cs) == Finish(FoldLeft(Advance, Start(BodyOffset(cs)), Body(cs)))
ReadSkim(cs) == SkimFinish(FoldLeft(SkimAdvance, Skim(BodyOffset(cs)), Body(cs)))

(* First failure of a pattern, not counting length.                          *)
PatternFailure(cs, fl) ==
    Let(ReadVerb(cs), LAMBDA v :
    IF QuietSom(fl) THEN Failure("quietsom", -1)
    ELSE IF VerbFailure(v).cause # "none" THEN VerbFailure(v)
    ELSE ReadSkim(cs).failure)

(* The literal characters of a well-formed pattern, in order.                *)
Literals(cs) == SelectSeq(Body(cs), IsLiteralChar)
HasAlternation(cs) == SelectInSeq(Body(cs), LAMBDA c : c = Bar) # 0

(* The string a well-formed pattern is handed on as, if it is one.           *)
IsPureLiteral(cs) == Literals(cs) # <<>> /\ ~HasAlternation(cs)
LiteralOf(cs, fl) ==
    Let(Literals(cs),
        LAMBDA ls : [i \in 1..Len(ls) |-> LitElem(ls[i], HasFlag(fl, "caseless"))])

=============================================================================
