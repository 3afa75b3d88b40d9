----------------------------- MODULE TraceGraph -----------------------------
(* Recorded growth of automaton graphs against Graph.                        *)
EXTENDS TraceBase

VARIABLE g
G == INSTANCE Graph

TraceInit == l = 1 /\ g = G!NewGraph

RangesOf(rs) == UNION {(rs[i][1])..(rs[i][2]) : i \in DOMAIN rs}

(* Vertices are compared up to the numbering of the distinguished ones.      *)
SnapSame(s, x) ==
    LET rename(v) == IF v = s.special[1] THEN G!Start
                     ELSE IF v = s.special[2] THEN G!StartDs
                     ELSE IF v = s.special[3] THEN G!Accept
                     ELSE IF v = s.special[4] THEN G!AcceptEod ELSE v IN
    /\ Same("C12", "distinguished vertices", ToSetOf(s.special), G!Special)
    /\ Same("C12", "number of vertices", s.nv, x.n)
    /\ Same("C12", "edges", {<<rename(e[1]), rename(e[2])>> : e \in ToSetOf(s.edges)}, x.edges)
    /\ Same("C12", "reports of vertices",
            {<<rename(i - 1), ToSetOf(s.reports[i])>> : i \in DOMAIN s.reports},
            {<<v, x.reports[v]>> : v \in G!Vertices(x)})
    /\ Same("C12", "vacuous", s.vac, G!Vacuous(x))
    /\ Same("C12", "reports", ToSetOf(s.all), G!AllReports(x))
    /\ \A v \in G!Vertices(x) :
          Same("C12", <<"reach", v>>, RangesOf(s.reach[v + 1]),
               IF rename(v) \in {G!Start, G!StartDs} THEN 0..255 ELSE {})

TNew == IsEvent("new") /\ g' = G!NewGraph /\ SnapSame(Event.snap, g')
TVertex == IsEvent("vertex") /\ g' = G!AddVertex(g) /\ SnapSame(Event.snap, g')
TEdge == IsEvent("edge") /\ g' = G!AddEdge(g, Event.u, Event.v) /\ SnapSame(Event.snap, g')
TReport == IsEvent("report") /\ g' = G!AddReport(g, Event.u, Event.r) /\ SnapSame(Event.snap, g')
TLarge ==
    /\ IsEvent("large")
    /\ g' = G!Grown(G!NewGraph, Event.n, ToSetOf(Event.edges), ToSetOf(Event.reports))
    /\ SnapSame(Event.snap, g')
TPanic == IsEvent("panic") /\ Wrong({"C12"}, "panic", Event.msg, "an answer") /\ UNCHANGED g

TraceNext == TNew \/ TVertex \/ TEdge \/ TReport \/ TLarge \/ TPanic
TraceSpec == TraceInit /\ [][TraceNext]_<<l, g>>
=============================================================================
