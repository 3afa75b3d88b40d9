------------------------------- MODULE Store -------------------------------
(* What the graph store of a compile does with a literal or graph handed to  *)
(* it, including those that no pattern makes today: literals with case-      *)
(* sensitive and caseless letters mixed, patterns reporting the start of     *)
(* match, graphs offered to the small-buffer engine.                         *)
(* A store is a record [rm, sw, minw, som, handed]; lim as in Session.               *)
EXTENDS Reports, SmallWrite

LOCAL Lits == INSTANCE Literal
LOCAL Gr == INSTANCE Graph

NoWidth == 2147483647
NewStore(n, lim) == [rm |-> NewManager, sw |-> NewEngine(n, lim.sw), minw |-> NoWidth, som |-> FALSE,
                     handed |-> [n |-> 0, lit |-> <<>>, rep |-> -1]]

(* Not every literal is taken: the others are left for the graph.            *)
Takes(lit, lim) == lim.shortcut /\ ~Lits!Mixed(lit)

(* x: i, id, h, som, quiet *)
WithId(st, x) ==
    LET r == Register(st.rm, x.id, x.h, x.i) IN
    IF x.h THEN Exhaustible(r, x.id) ELSE r
ReportFor(rm, lit, x) ==
    IF x.som THEN SomReport(x.id, "0", ToString(Len(lit)))
    ELSE EndReport(x.id, "0", KeyOf(rm, x.id, x.h), x.quiet)

Verdict(st, lit, x, lim) ==
    IF ~Takes(lit, lim) THEN "left"
    ELSE IF Conflicts(st.rm, x.id, x.h) THEN "conflict"
    ELSE IF Refused(WithId(st, x), ReportFor(WithId(st, x), lit, x), lim.reports) THEN "refused"
    ELSE "taken"

(* The store after a literal was taken.                                      *)
Take(st, lit, x, lim) ==
    LET rm1 == WithId(st, x)
        r == ReportFor(rm1, lit, x)
        rm2 == Intern(rm1, r)
    IN [rm |-> rm2,
        sw |-> AddLiteral(st.sw, lit, InternalId(rm2, r), lim.sw),
        minw |-> IF Len(lit) < st.minw THEN Len(lit) ELSE st.minw,
        som |-> st.som \/ x.som,
        handed |-> [n |-> st.handed.n + 1, lit |-> lit, rep |-> InternalId(rm2, r)]]

(* A graph only registers its match id, and whether it wants the start.      *)
GraphVerdict(st, x) == IF Conflicts(st.rm, x.id, x.h) THEN "conflict" ELSE "taken"
TakeGraph(st, x) == [st EXCEPT !.rm = Register(@, x.id, x.h, x.i), !.som = @ \/ x.som]

(* The small-buffer engine knows no start of match, no matches of nothing,   *)
(* and no reports that ask for a least length: it gives up on such a graph.  *)
Unsuitable(st, g, som) ==
    \/ som
    \/ Gr!Vacuous(g)
    \/ \E r \in Gr!AllReports(g) : LeastLength(ReportAt(st.rm, r)) # "0"
OfferGraph(st, g, som) ==
    IF Unsuitable(st, g, som) THEN [st EXCEPT !.sw.poisoned = TRUE] ELSE st
(* It has no way yet to take another graph; it must not go on without it.    *)
Unable(st, g, som) == ~OfferGraph(st, g, som).sw.poisoned
=============================================================================
