------------------------------ MODULE MC_Graph ------------------------------
EXTENDS Graph, TLC, Json
CONSTANTS MaxVertices, Reports, MaxEdges, Emit
VARIABLES g, ops

Init == g = NewGraph /\ ops = <<>>
Op(o) == ops' = IF Emit THEN Append(ops, o) ELSE ops
GrowVertex == g.n < MaxVertices /\ g' = AddVertex(g) /\ Op(<<"vertex", 0, 0>>)
GrowEdge == \E u, v \in Vertices(g) :
    /\ <<u, v>> \notin g.edges /\ Cardinality(g.edges) < MaxEdges
    /\ g' = AddEdge(g, u, v) /\ Op(<<"edge", u, v>>)
GrowReport == \E v \in Vertices(g), r \in Reports :
    r \notin g.reports[v] /\ g' = AddReport(g, v, r) /\ Op(<<"report", v, r>>)
Next == GrowVertex \/ GrowEdge \/ GrowReport
Spec == Init /\ [][Next]_<<g, ops>>
View == g

SpecialOk == Special \subseteq Vertices(g) /\ NewGraph.edges \subseteq g.edges
(* Reports are on vertices from which an accept is one step away.            *)
ReportsOk == \A r \in AllReports(g) : \E v \in Vertices(g) : r \in g.reports[v]
(* The plumbing alone makes no graph vacuous.                                *)
FreshOk == ~Vacuous(NewGraph) /\ AllReports(NewGraph) = {}
(* Growth never takes a report or vacuity away.                              *)
Grows == [][AllReports(g) \subseteq AllReports(g)' /\ (Vacuous(g) => Vacuous(g)')]_<<g, ops>>
EmitOk == (Emit /\ ENABLED Next) => TRUE
=============================================================================
