------------------------------- MODULE Graph -------------------------------
(* Automaton graphs: vertices 0.., the four distinguished ones first to be   *)
(* made, edges as a set of pairs, reports per vertex.                        *)
EXTENDS Integers, Sequences, FiniteSets

Start == 0
StartDs == 1
Accept == 2
AcceptEod == 3
Special == {Start, StartDs, Accept, AcceptEod}

NewGraph == [n |-> 4, edges |-> {<<Start, StartDs>>, <<StartDs, StartDs>>, <<Accept, AcceptEod>>},
             reports |-> [v \in 0..3 |-> {}]]
Vertices(g) == 0..(g.n - 1)
AddVertex(g) == [g EXCEPT !.n = @ + 1, !.reports = [v \in 0..g.n |-> IF v = g.n THEN {} ELSE g.reports[v]]]
AddEdge(g, u, v) == [g EXCEPT !.edges = @ \cup {<<u, v>>}]
AddReport(g, v, r) == [g EXCEPT !.reports[v] = @ \cup {r}]

(* Several vertices, edges and <<vertex, report>> at once.                    *)
Grown(g, n, es, rs) ==
    [n |-> g.n + n, edges |-> g.edges \cup es,
     reports |-> [v \in 0..(g.n + n - 1) |->
                     (IF v < g.n THEN g.reports[v] ELSE {}) \cup {r[2] : r \in {x \in rs : x[1] = v}}]]

(* A match of nothing is possible: a start is wired to an accept.            *)
Vacuous(g) == \E s \in {Start, StartDs}, a \in {Accept, AcceptEod} : <<s, a>> \in g.edges
AllReports(g) == UNION {g.reports[v] : v \in {u \in Vertices(g) : \E a \in {Accept, AcceptEod} : <<u, a>> \in g.edges}}
=============================================================================
