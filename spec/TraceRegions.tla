---------------------------- MODULE TraceRegions ----------------------------
(* Recorded wiring of positions against Regions.                             *)
EXTENDS Regions, TraceBase

VARIABLE w

TraceInit == l = 1 /\ w = Nothing(4, {})

Info(x) == <<x[1], ToSetOf(x[2])>>
Infos(xs) == [i \in DOMAIN xs |-> Info(xs[i])]

SnapSame(s, x) ==
    /\ Same("C21", "number of vertices", s.n, x.n)
    /\ Holds("C21", <<"wired only where allowed, besides", x.wired>>,
             {<<e[1], Info(e[2])>> : e \in ToSetOf(s.wired)} \subseteq x.wired, s.wired)
    /\ Same("C21", "wired", {<<e[1], Info(e[2])>> : e \in ToSetOf(s.wired)}, x.wired)

TNew ==
    /\ IsEvent("new")
    /\ w' = NewWiring(4 + Event.n, ToSetOf(Event.line))
    /\ SnapSame(Event.snap, w')
TConnect ==
    /\ IsEvent("connect")
    /\ w' = ConnectRegions(w, Infos(Event.lasts), ToSetOf(Infos(Event.firsts)))
    /\ SnapSame(Event.snap, w')
TPanic == IsEvent("panic") /\ Wrong({"C21"}, "panic", Event.msg, "an answer") /\ UNCHANGED w

TraceNext == TNew \/ TConnect \/ TPanic
TraceSpec == TraceInit /\ [][TraceNext]_<<l, w>>
=============================================================================
