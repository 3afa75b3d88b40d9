----------------------------- MODULE MC_Engine -----------------------------
(* Life of a database: resources come into use, it is built, it is scanned.  *)
EXTENDS Engine
CONSTANT MaxScans
VARIABLES used, mode, phase, engine, dbmode, scans, history

vars == <<used, mode, phase, engine, dbmode, scans, history>>
Init == /\ used = {} /\ mode \in Modes /\ phase = "planning"
        /\ engine = "none" /\ dbmode = "none" /\ scans = 0 /\ history = {}
Use(r) == phase = "planning" /\ r \notin used /\ used' = used \cup {r}
          /\ UNCHANGED <<mode, phase, engine, dbmode, scans, history>>
BuildDb == /\ phase = "planning" /\ phase' = "built"
           /\ engine' = EngineFor(used, IsStreaming(mode)) /\ dbmode' = ModeOfDatabase(mode)
           /\ UNCHANGED <<used, mode, scans, history>>
ScanDb == /\ phase = "built" /\ scans < MaxScans /\ scans' = scans + 1
          /\ history' = history \cup {<<engine, dbmode>>}
          /\ UNCHANGED <<used, mode, phase, engine, dbmode>>
Next == (\E r \in Resources : Use(r)) \/ BuildDb \/ ScanDb
Spec == Init /\ [][Next]_vars

(* Adding work never turns the full engine into the literal-only one, except *)
(* by bringing in the floating literals it needs.                            *)
Monotone == \A r \in OtherWork : EngineFor(used, IsStreaming(mode)) = "full"
                                   => EngineFor(used \cup {r}, IsStreaming(mode)) = "full"
EngineOk == phase = "built" => (engine = "literal" <=> OnlyFloatingLiterals(used, IsStreaming(mode)))
ModeOk == phase = "built" =>
    /\ (dbmode = "block") = ~IsStreaming(mode)
    /\ (dbmode = "vectored") = IsVectored(mode)
    /\ IsVectored(mode) => IsStreaming(mode)
    /\ SomBytes(mode) > 0 => IsStreaming(mode)
(* Scanning leaves the database as it was built.                             *)
ScanOk == Cardinality(history) <= 1 /\ \A h \in history : h = <<engine, dbmode>>
=============================================================================
