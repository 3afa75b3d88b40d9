------------------------------ MODULE Grammar ------------------------------
(* What a pattern means, said by positions alone and independently of how it *)
(* is read: which parentheses match, which group and branch a character is   *)
(* in, what the first fault is. cs is the text after any control verb, with  *)
(* base the byte offset at which it starts.                                  *)
EXTENDS Pattern

(* Opening minus closing parentheses among the first n characters.           *)
Level(cs, n) ==
    Cardinality({i \in 1..n : cs[i] = Open}) - Cardinality({i \in 1..n : cs[i] = Close})

Offset(cs, base, i) == base + ByteLength(SubSeq(cs, 1, i - 1))

(* The opening parenthesis at o is matched by the closing one at c.          *)
Matches(cs, o, c) ==
    /\ o < c /\ cs[o] = Open /\ cs[c] = Close
    /\ Level(cs, c) = Level(cs, o - 1)
    /\ \A k \in o..(c - 1) : Level(cs, k) > Level(cs, o - 1)

(* Positions at fault on their own.                                          *)
Faults(cs) ==
    {i \in 1..Len(cs) : ~IsAscii(cs[i])}
    \cup {i \in 1..Len(cs) : cs[i] = Close /\ ~\E o \in 1..(i - 1) : Matches(cs, o, i)}
Unclosed(cs) == {o \in 1..Len(cs) : cs[o] = Open /\ ~\E c \in (o + 1)..Len(cs) : Matches(cs, o, c)}

WellFormed(cs) == Faults(cs) = {} /\ Unclosed(cs) = {}

FirstFault(cs, base) ==
    IF Faults(cs) # {}
    THEN LET i == Min(Faults(cs)) IN
         Failure(IF cs[i] = Close THEN "unmatched" ELSE "nonascii", Offset(cs, base, i))
    ELSE IF Unclosed(cs) # {}
    THEN Failure("unclosed", Offset(cs, base, Max(Unclosed(cs))))
    ELSE NoFailure

(* Groups (by the position of their parenthesis, 0 for the whole pattern)    *)
(* enclosing position i, outermost first.                                    *)
Enclosing(cs, i) ==
    <<0>> \o Ascending({o \in 1..(i - 1) : cs[o] = Open
                             /\ \A c \in (o + 1)..(i - 1) : ~Matches(cs, o, c)})
GroupNumber(cs, o) == IF o = 0 THEN 0 ELSE Cardinality({k \in 1..o : cs[k] = Open})
Innermost(cs, i) == Last(Enclosing(cs, i))

(* Bars that separate branches of group o, before position i.                *)
BarsOf(cs, o, i) == {k \in (o + 1)..(i - 1) : cs[k] = Bar /\ Innermost(cs, k) = o}
GroupEnd(cs, o) == IF o = 0 THEN Len(cs) + 1
                   ELSE CHOOSE c \in (o + 1)..Len(cs) : Matches(cs, o, c)

(* The address of position i: for each enclosing group its number and the    *)
(* branch i is in.                                                           *)
Address(cs, i) ==
    LET e == Enclosing(cs, i) IN
    [k \in 1..Len(e) |-> <<GroupNumber(cs, e[k]), Cardinality(BarsOf(cs, e[k], i))>>]

(* Addresses of the literal characters, in pattern order.                    *)
LiteralAddresses(cs) ==
    LET at == Ascending({i \in 1..Len(cs) : IsLiteralChar(cs[i])}) IN
    [k \in 1..Len(at) |-> Address(cs, at[k])]

(* Number of branches of each group (1 without a bar), by group number + 1.  *)
BranchCounts(cs) ==
    LET gs == <<0>> \o Ascending({o \in 1..Len(cs) : cs[o] = Open}) IN
    [k \in 1..Len(gs) |-> Cardinality(BarsOf(cs, gs[k], GroupEnd(cs, gs[k]))) + 1]

-----------------------------------------------------------------------------
(* The same facts read off a traversal.                                      *)

RECURSIVE Sum(_, _)
Sum(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + Sum(f, S \ {x})

(* Walks a traversal keeping a stack of <<group number, branch>>.            *)
WalkStep(w, v) ==
    CASE v >= 1000 -> [w EXCEPT !.stack = Append(@, <<v - 1000, 0>>),
                                !.counts = Append(@, 1)]
      [] v = EnterBranch -> w
      [] v = EnterAlt -> [w EXCEPT !.inalt = Append(@, Len(w.stack))]
      [] v = BetweenAlt ->
            LET g == w.stack[Len(w.stack)][1] IN
            [w EXCEPT !.stack[Len(w.stack)][2] = @ + 1,
                      !.counts[g + 1] = @ + 1]
      [] v = LeaveAlt -> [w EXCEPT !.inalt = Front(@)]
      [] v = EnterClass -> [w EXCEPT !.out = Append(@, w.stack)]
      (* A sequence ends: a group's, unless a branch of its alternation is open. *)
      [] v = LeaveSeq ->
            IF w.inalt # <<>> /\ Last(w.inalt) = Len(w.stack) THEN w
            ELSE [w EXCEPT !.stack = Front(@)]
      [] OTHER -> w

WalkTraversal(vs) ==
    FoldLeft(WalkStep, [stack |-> <<>>, inalt |-> <<>>, out |-> <<>>, counts |-> <<>>], vs)

=============================================================================
