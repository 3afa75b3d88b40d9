----------------------------- MODULE TraceEngine -----------------------------
EXTENDS Engine, TraceBase

TraceInit == l = 1

(* Names of the resources in use, by bit.                                    *)
UsedOf(mask) == {r \in DOMAIN Event.names : (mask \div (2 ^ (r - 1))) % 2 = 1}
TPick ==
    /\ IsEvent("pick")
    /\ \A i \in DOMAIN Event.masks :
          LET used == {Event.names[r] : r \in UsedOf(Event.masks[i])} IN
          Same("C13", <<"engine", used, Event.streaming>>, Event.engines[i], EngineFor(used, Event.streaming))

TMode ==
    /\ IsEvent("mode")
    /\ Same("C13", <<"streaming", Event.mode>>, Event.streaming, IsStreaming(Event.mode))
    /\ Same("C13", <<"vectored", Event.mode>>, Event.vectored, IsVectored(Event.mode))
    /\ Same("C13", <<"bytes of start-of-match precision", Event.mode>>, Event.som, SomBytes(Event.mode))

(* A database is scanned with several buffers.                               *)
TScan ==
    /\ IsEvent("scan")
    /\ Same("C13", <<"mode", Event.mode>>, Event.before[1], ModeOfDatabase(Event.mode))
    /\ Same("C13", "results", \A i \in DOMAIN Event.results : Event.results[i] = "ok", TRUE)
    /\ Same("C13", "database afterwards", Event.after, Event.before)

TPanic ==
    /\ IsEvent("panic")
    /\ Wrong({"C13"}, "panic", Event.msg, "an answer")

TraceNext == TPick \/ TMode \/ TScan \/ TPanic
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
