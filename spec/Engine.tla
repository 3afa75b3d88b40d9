------------------------------- MODULE Engine -------------------------------
(* What a database is made of: its mode and the engine that will run it.     *)
EXTENDS Integers, Sequences, FiniteSets

Resources == {"outfixes", "suffixes", "leftfixes", "literals", "states", "groups", "lit_delay",
              "lit_check", "anchored", "anchored_multiple", "anchored_large", "floating", "eod"}

(* Anything else that has to run besides floating literals.                  *)
OtherWork == {"outfixes", "suffixes", "leftfixes", "states", "groups", "lit_delay", "anchored", "eod"}

OnlyFloatingLiterals(used, streaming) ==
    /\ "floating" \in used
    /\ used \cap OtherWork = {}
    (* A literal check needs state across writes.                            *)
    /\ ~(streaming /\ "lit_check" \in used)
EngineFor(used, streaming) == IF OnlyFloatingLiterals(used, streaming) THEN "literal" ELSE "full"

Modes == {"block", "stream", "streamS", "streamM", "streamL", "vectored"}
IsStreaming(mode) == mode # "block"
IsVectored(mode) == mode = "vectored"
SomBytes(mode) ==
    CASE mode = "streamL" -> 8 [] mode = "streamM" -> 4 [] mode = "streamS" -> 2
      [] mode = "vectored" -> 8 [] OTHER -> 0
ModeOfDatabase(mode) ==
    CASE mode = "block" -> "block" [] mode = "vectored" -> "vectored" [] OTHER -> "stream"
=============================================================================
