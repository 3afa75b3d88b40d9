----------------------------- MODULE TraceBase -----------------------------
(* What all trace specifications share: the recorded trace, the position in  *)
(* it and the property whose observations are compared. A trace is a         *)
(* sequence of events recorded from the real code; it is accepted if every   *)
(* event can be consumed by an action of the specification.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLE l    \* the event to be consumed next

Event == Trace[l]
IsEvent(name) == l <= Len(Trace) /\ Event.e = name /\ l' = l + 1

On(p) == Focus \in {p, "all"}

(* An observation of property p: it has to equal what the specification      *)
(* says. Only the property in focus is compared.                             *)
Same(p, what, observed, expected) ==
    IF ~On(p) THEN TRUE
    ELSE IF observed = expected THEN TRUE
    ELSE PrintT("MISMATCH " \o ToString(<<p, l, what, "observed", observed, "expected", expected>>)) /\ FALSE
Holds(p, what, ok, observed) ==
    IF ~On(p) THEN TRUE
    ELSE IF ok THEN TRUE
    ELSE PrintT("MISMATCH " \o ToString(<<p, l, what, "observed", observed>>)) /\ FALSE
(* What was observed cannot be right as far as the properties ps go.         *)
Wrong(ps, what, observed, expected) ==
    IF \E p \in ps : On(p)
    THEN PrintT("MISMATCH " \o ToString(<<ps, l, what, "observed", observed, "expected", expected>>)) /\ FALSE
    ELSE TRUE

(* Every event has one outcome, so states need not be told apart any further. *)
Position == l

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)

ToSetOf(s) == {s[i] : i \in DOMAIN s}
=============================================================================
