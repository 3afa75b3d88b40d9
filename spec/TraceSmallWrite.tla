--------------------------- MODULE TraceSmallWrite ---------------------------
(* Recorded literal insertions into a small-buffer engine against SmallWrite. *)
EXTENDS TraceState

VARIABLES sw, lim

TraceInit == l = 1 /\ lim = [enabled |-> FALSE, maxPatterns |-> 0, maxLiterals |-> 0, largest |-> 0, maxNodes |-> 0]
             /\ sw = NewEngine(0, lim)

Snap(s, x) == s.has => EngineSame(s.sw, x)

TNew ==
    /\ IsEvent("new")
    /\ lim' = LimitsOf(Event.lim).sw
    /\ sw' = NewEngine(Event.n, lim')
    /\ Snap(Event.snap, sw')

(* What a pushed literal is stored as.                                       *)
Stored(lit) == [i \in 1..Len(lit) |-> IF lit[i][2] THEN <<ToUpper(lit[i][1]), TRUE>> ELSE lit[i]]

TAdd ==
    /\ IsEvent("add")
    /\ sw' = AddLiteral(sw, Stored(Event.lit), Event.r, lim)
    /\ Snap(Event.snap, sw')
    /\ UNCHANGED lim

TPanic ==
    /\ IsEvent("panic")
    /\ Wrong({"C10"}, "panic", Event.msg, "an answer")
    /\ UNCHANGED <<sw, lim>>

TraceNext == TNew \/ TAdd \/ TPanic
TraceSpec == TraceInit /\ [][TraceNext]_<<l, sw, lim>>
=============================================================================
