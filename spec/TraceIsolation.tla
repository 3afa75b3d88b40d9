--------------------------- MODULE TraceIsolation ---------------------------
(* Recorded compiles and scans of several threads. Where a compile begins,   *)
(* gets on by a pattern and ends is known, what it compiles to is opaque:    *)
(* whatever it was the first time, in a process of its own if there was one, *)
(* it has to stay. This is OneOutcome and Halfway of Isolation, observed.    *)
EXTENDS TraceBase

VARIABLES
    running,  \* thread -> <<call, patterns taken>>, for those under way
    seen      \* call, or call and how far -> outcome or state

TraceInit == l = 1 /\ running = <<>> /\ seen = <<>>

Learn(k, sig) ==
    /\ k \in DOMAIN seen => Same("C20", <<"outcome of call", k>>, sig, seen[k])
    /\ seen' = IF k \in DOMAIN seen THEN seen ELSE (k :> sig) @@ seen
Busy(t) == t \in DOMAIN running
Call(t) == running[t][1]
Halfway(t) == Call(t) \o "/" \o ToString(running[t][2] + 1)

TNew ==
    /\ IsEvent("new")
    /\ running' = <<>> /\ UNCHANGED seen
TFresh ==
    /\ IsEvent("fresh")
    /\ Learn(Event.key, Event.sig)
    /\ UNCHANGED running
TBegin ==
    /\ IsEvent("begin")
    /\ ~Busy(Event.t)
    /\ running' = (Event.t :> <<Event.key, 0>>) @@ running
    /\ UNCHANGED seen
TStep ==
    /\ IsEvent("step")
    /\ Busy(Event.t)
    /\ Learn(Halfway(Event.t), Event.sig)
    /\ running' = [running EXCEPT ![Event.t][2] = @ + 1]
TEnd ==
    /\ IsEvent("end")
    /\ IF Busy(Event.t)
       THEN /\ Learn(Call(Event.t), Event.sig)
            /\ running' = [t \in DOMAIN running \ {Event.t} |-> running[t]]
       ELSE Wrong({"C20"}, "an outcome of nothing", Event.sig, "") /\ UNCHANGED <<running, seen>>
(* Many times the same call.                                                 *)
TMany ==
    /\ IsEvent("many")
    /\ Same("C20", <<"outcomes of call", Event.key>>, ToSetOf(Event.sigs), {seen[Event.key]})
    /\ UNCHANGED <<running, seen>>
TScan ==
    /\ IsEvent("scan")
    /\ Same("C20", "scan succeeds and leaves the database alone", Event.ok, TRUE)
    /\ UNCHANGED <<running, seen>>

TraceNext == TNew \/ TFresh \/ TBegin \/ TStep \/ TEnd \/ TMany \/ TScan
TraceSpec == TraceInit /\ [][TraceNext]_<<l, running, seen>>
=============================================================================
