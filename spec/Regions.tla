------------------------------ MODULE Regions ------------------------------
(* How the positions of an automaton are wired to each other, region by      *)
(* region: each last of a region to each first of the next one, with the     *)
(* exceptions that the starts and the start of a line make.                  *)
(* A position with flags is <<position, set of flags>>.                      *)
EXTENDS Integers, Sequences, FiniteSets

Start == 0
StartDs == 1
Accept == 2
AcceptEod == 3
Epsilon == -1
Flags == {"nofloat", "mustfloat", "line"}

Pos(p) == p[1]
With(p, f) == f \in p[2]

(* n: number of vertices; line: positions that assert the start of a line;   *)
(* wired: set of <<from, to>>, from a position, to a position with flags.    *)

(* The floating start may begin anywhere: what must not float is not wired   *)
(* to it. The anchored start is not wired to what has to float and must not, *)
(* nor to an epsilon that may float, to which the floating start is enough.  *)
(* A start of a line is not wired to the end of the data.                    *)
Allowed(w, from, to) ==
    /\ Pos(from) = StartDs => ~With(from, "nofloat") /\ ~With(to, "nofloat")
    /\ Pos(from) = Start =>
          /\ Pos(to) = Epsilon => With(to, "nofloat")
          /\ ~(With(to, "nofloat") /\ With(to, "mustfloat"))
    /\ Pos(from) \in w.line => Pos(to) # AcceptEod

(* A match is led to accept through a fresh position in its place.           *)
Reachable(w, from, firsts) == {to \in firsts : Allowed(w, from, to)}
Accepts(S) == {to \in S : Pos(to) = Accept}
Fresh(w) == <<w.n, {}>>
Connect(w, from, firsts) ==
    LET ok == Reachable(w, from, firsts)
        accepting == Accepts(ok) # {}
        tos == IF accepting THEN (ok \ Accepts(ok)) \cup {Fresh(w)} ELSE ok
    IN [w EXCEPT !.n = IF accepting THEN @ + 1 ELSE @,
                 !.wired = @ \cup {<<Pos(from), to>> : to \in tos}]

(* Lasts one after another.                                                  *)
RECURSIVE ConnectRegions(_, _, _)
ConnectRegions(w, lasts, firsts) ==
    IF lasts = <<>> THEN w ELSE ConnectRegions(Connect(w, lasts[1], firsts), Tail(lasts), firsts)

Nothing(n, line) == [n |-> n, line |-> line, wired |-> {}]
(* Both starts lead to the floating start to begin with.                     *)
NewWiring(n, line) == ConnectRegions(Nothing(n, line), << <<Start, {}>>, <<StartDs, {}>> >>, {<<StartDs, {}>>})
=============================================================================
