----------------------------- MODULE MC_Pattern -----------------------------
(* Every pattern over a small alphabet up to a bounded length is read token  *)
(* by token, and the reader is compared with Grammar.                        *)
EXTENDS Grammar, Json

CONSTANTS Alphabet, MaxLen, Bases, Emit

VARIABLES cs, base, m, phase

vars == <<cs, base, m, phase>>

Init == cs = <<>> /\ base \in Bases /\ m = Start(base) /\ phase = "reading"

(* Each kind of token as its own action; after a failure nothing is read.    *)
Reading == phase = "reading" /\ m.failure.cause = "none"
Token(c) ==
    /\ Reading /\ Len(cs) < MaxLen
    /\ cs' = Append(cs, c) /\ m' = Advance(m, c)
    /\ UNCHANGED <<base, phase>>
DoOpen == Token(Open)
DoClose == Token(Close)
DoBar == Token(Bar)
DoLiteral == \E c \in Alphabet : IsLiteralChar(c) /\ Token(c)
DoForeign == \E c \in Alphabet : ~IsAscii(c) /\ Token(c)
DoEnd ==
    /\ phase = "reading"
    /\ phase' = "done" /\ m' = Finish(m)
    /\ UNCHANGED <<cs, base>>

Next == DoOpen \/ DoClose \/ DoBar \/ DoLiteral \/ DoForeign \/ DoEnd
Spec == Init /\ [][Next]_vars

Done == phase = "done"

(* Exactly the well-formed patterns are accepted, and a failure is the first *)
(* one, at its offset.                                                       *)
FailureOk == Done => m.failure = FirstFault(cs, base)
AcceptOk == Done => (m.failure.cause = "none") = WellFormed(cs)
SkimOk == Done => SkimFinish(FoldLeft(SkimAdvance, Skim(base), cs)).failure = m.failure

TreeOk ==
    (Done /\ m.failure.cause = "none") =>
        LET w == WalkTraversal(FrameItem(m.cur)) IN
        /\ w.out = LiteralAddresses(cs)
        /\ w.counts = BranchCounts(cs)
        /\ w.stack = <<>> /\ w.inalt = <<>>

(* The traversal of the tree, and only it, is taken for it.                  *)
Without(v, i) == SubSeq(v, 1, i - 1) \o SubSeq(v, i + 1, Len(v))
TraversesOk ==
    (Done /\ m.failure.cause = "none") =>
        Traverses(FrameItem(m.cur), cs)
OnlyItOk ==
    (Done /\ m.failure.cause = "none") =>
        LET v == FrameItem(m.cur) IN
        /\ \A i \in DOMAIN v : \A x \in {0} \cup 1..9 \cup 999..1006 :
               x # v[i] => ~Traverses([v EXCEPT ![i] = x], cs)
        /\ \A i \in DOMAIN v : ~Traverses(Without(v, i), cs)
        /\ \A i, j \in DOMAIN v :
               v[i] # v[j] => ~Traverses([v EXCEPT ![i] = v[j], ![j] = v[i]], cs)

(* An open group's frame keeps the offset of its parenthesis and groups are  *)
(* numbered in the order they are opened.                                    *)
StackOk ==
    m.failure.cause = "none" =>
        /\ Len(m.stack) = Level(cs, Len(cs))
        /\ m.next = 1 + Cardinality({i \in 1..Len(cs) : cs[i] = Open})
        /\ m.off = base + ByteLength(cs)

(* The patterns read, for replay into the code.                              *)
EmitOk == (Emit /\ Done) => PrintT(<<"PATTERN", ToJson(cs)>>)
=============================================================================
