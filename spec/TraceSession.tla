---------------------------- MODULE TraceSession ----------------------------
(* Recorded compiles against Session: "begin" with the arguments, "added"    *)
(* with the state after each pattern taken, "end" with the outcome.          *)
EXTENDS Whole, TraceState

(* "no": the specification follows the code. Otherwise they parted in a way  *)
(* that the property in focus does not speak about, and the rest of this     *)
(* compile is skipped; "late" if the code went past a bad pattern.           *)
(* Before the outcome "err" the specification is taken to the first bad      *)
(* pattern of the call; if there is none the call should not have failed.    *)
VARIABLE lost

tvars == <<call, phase, pos, rm, sw, minw, handed, failure, db, l, lost>>

TraceInit == Idle /\ l = 1 /\ lost = "no"

(* The lists stay in the trace: states are smaller that way.                 *)
ArgsAt(k) == [pats |-> Trace[k].pats, flags |-> Trace[k].fl, ids |-> Trace[k].ids]
CallOf(e) ==
    [args |-> l, n |-> e.n, nflags |-> e.nf, nids |-> e.ni,
     mode |-> e.mode,
     lim |-> LimitsOf(e.lim)]

TBegin ==
    /\ IsEvent("begin")
    /\ Begin(CallOf(Event)) \/ RefuseCall(CallOf(Event))
    /\ lost' = "no"

-----------------------------------------------------------------------------
(* The recorded state.                                                       *)

(* Every string in a table is some pattern's, with that pattern's case.      *)
OwnCase(t, nocase, n) ==
    On("C05") =>
        \A i \in DOMAIN t.terms :
            Holds("C05", "string of no pattern",
                  \E j \in 1..n : LET s == LiteralOf(PatAt(j), FlagsAt(j)) IN
                      Caseless(s) = nocase /\ Spelling(s) = t.terms[i][1],
                  t.terms[i][1])

SnapSame(s, xrm, xsw, xminw, xhanded, n) ==
    s.has =>
        /\ ManagerSame(s, xrm)
        /\ EngineSame(s.sw, xsw)
        /\ Same("C07", "anything handed on", s.nrep # 0, Count(xrm.reports) # 0)
        /\ HandedSame(s.handed, xhanded)
        /\ OwnCase(s.sw.c, FALSE, n)
        /\ OwnCase(s.sw.n, TRUE, n)
        /\ Same("C11", "minimum width", s.minw, IF xminw = Infinity THEN -1 ELSE xminw)
        /\ Same("C13", "streaming", s.str, Streaming(call.mode))
        /\ Same("C13", "vectored", s.vec, call.mode = "vectored")

(* Properties that speak about whether a pattern with this failure gets in.  *)
Concerned(cause) ==
    {"C02"} \cup CASE cause = "conflict" -> {"C09"}
                   [] cause = "reports" -> {"C08"}
                   [] cause \in {"unsupported", "unknown"} -> {"C06"}
                   [] OTHER -> {}

TAdded ==
    /\ IsEvent("added")
    /\ lost = "no"
    /\ \E f \in {IF Adding THEN PatternError ELSE failure} :
       IF Adding /\ f = NoError
       THEN /\ IF AsString THEN TakeString ELSE TakeGraph
            /\ SnapSame(Event.snap, rm', sw', minw', handed', pos')
            /\ UNCHANGED lost
       ELSE /\ Wrong(Concerned(f.cause), "a pattern was accepted", pos, f)
            /\ lost' = "late" /\ UNCHANGED svars
(* Patterns that the code may have got to without its state being recorded:  *)
(* the specification goes on to the first one that is bad.                   *)
TMore ==
    /\ IsEvent("more")
    /\ IF lost = "no" /\ Adding
       THEN IF Good THEN (IF AsString THEN TakeString ELSE TakeGraph) ELSE UNCHANGED svars
       ELSE UNCHANGED svars
    /\ UNCHANGED lost
TAddedLost ==
    /\ IsEvent("added") /\ lost # "no"
    /\ UNCHANGED <<svars, lost>>

-----------------------------------------------------------------------------
(* The outcome.                                                              *)

KindOf(cause) ==
    CASE cause \in {"unsupported", "unknown", "unmatched", "nonascii"} -> "LocatedParse"
      [] cause = "unclosed" -> "Parse"
      [] cause = "reports" -> "ResourceLimit"
      [] OTHER -> "Other"

ErrorSame(e, f) ==
    /\ Same("C03", "index of the pattern", e.idx, f.index)
    /\ Same("C03", "index in the text", e.didx, f.index)
    /\ Same("C03", "cause", e.cause, f.cause)
    /\ Same("C03", "category", e.kind, KindOf(f.cause))
    /\ Same("C03", "offset", e.at, f.at)
    /\ f.cause \in {"unsupported", "unknown"} =>
          /\ Same("C03", "verb", e.verb, f.text)
          /\ Same("C06", "verb", <<e.cause, e.verb, e.at>>, <<f.cause, f.text, f.at>>)
    /\ f.cause = "conflict" =>
          /\ Same("C09", "cause", e.cause, f.cause)
          /\ Same("C09", "patterns, id and who asked", e.conflict,
                  <<ToString(f.index), f.id, ToString(f.first),
                    IF HasFlag(FlagsAt(f.index + 1), "singlematch") THEN "later" ELSE "first">>)
    /\ f.cause = "reports" => Same("C08", "cause", e.cause, f.cause)

Leave == phase' = "rejected" /\ UNCHANGED <<call, pos, rm, sw, minw, handed, failure, db>>

EndOk ==
    /\ IsEvent("end") /\ Event.out = "ok" /\ lost = "no"
    /\ IF phase = "adding" /\ pos = call.n
       THEN /\ Build
            /\ SnapSame(Event.snap, rm, sw, minw, handed, pos)
            (* "?" where the database does not show it.                      *)
            /\ Event.dbmode # "?" => /\ Same("C13", "mode", Event.dbmode, db'.mode)
                                     /\ Same("C13", "engine", Event.engine, db'.engine)
            /\ Same("C13", "scans", Event.scan, TRUE)
            /\ Same("C13", "database after scans", Event.after, <<Event.dbmode, Event.engine>>)
       ELSE /\ IF phase = "rejected"
               THEN Wrong({"C02"}, "the call was accepted", "ok", failure)
               ELSE \E f \in {PatternError} :
                        IF f = NoError THEN Wrong({"C02"}, "patterns were skipped", pos, call.n)
                        ELSE Wrong(Concerned(f.cause), "a bad pattern was skipped", pos, f)
            /\ Leave
    /\ lost' = "no"

EndError ==
    /\ IsEvent("end") /\ Event.out = "err" /\ lost = "no"
    /\ \E f \in {IF Adding THEN PatternError ELSE failure} :
       IF phase = "rejected"
       THEN ErrorSame(Event, failure) /\ UNCHANGED svars
       ELSE IF Adding /\ f # NoError
       THEN Refuse(f) /\ ErrorSame(Event, f)
       ELSE Wrong(Concerned(Event.cause), "a good pattern was rejected", Event.msg, pos) /\ Leave
    /\ lost' = "no"

(* The compile did not answer.                                               *)
EndPanic ==
    /\ IsEvent("end") /\ Event.out = "panic" /\ lost = "no"
    /\ \E f \in {IF Adding THEN PatternError ELSE failure} :
          Wrong({"C01"} \cup IF f = NoError THEN {"C02"} ELSE {"C03"} \cup (Concerned(f.cause) \ {"C02"}),
                "panic", Event.msg, f)
    /\ Leave /\ lost' = "no"

EndLost ==
    /\ IsEvent("end") /\ lost # "no"
    /\ Event.out = "panic" => Wrong({"C01"}, "panic", Event.msg, "an answer")
    /\ (Event.out = "err" /\ lost = "late") =>
           Wrong({"C03"}, "an earlier pattern is bad", Event.idx, pos)
    /\ Leave /\ lost' = "no"

(* A compile taken as a whole.                                               *)
WholeSame(s, w) ==
    s.has =>
        /\ Same("C08", "number of reports", s.nrep, Len(RepList(w)))
        /\ Same("C08", "reports and numbers are inverse", s.inv, TRUE)
        /\ Same("C08", "reports by number", s.reps, WholeReports(w))
        /\ Same("C09", "match ids", ToSetOf(s.ext), WholeEntries(w))
        /\ Same("C09", "exhaustion keys", ToSetOf(s.ek), WholeKeys(w))
        /\ Same("C09", "globally exhaustible", s.gex, WholeExhaustible)
        /\ EngineSame(s.sw, NewEngine(call.n, call.lim.sw))
        /\ HandedSame(s.handed, WholeHanded(w))
        /\ \E m \in {WholeMinWidth} : Same("C11", "minimum width", s.minw, IF m = Infinity THEN -1 ELSE m)
        /\ Same("C13", "streaming", s.str, Streaming(call.mode))
        /\ Same("C13", "vectored", s.vec, call.mode = "vectored")
TWhole ==
    /\ IsEvent("whole") /\ phase = "adding" /\ pos = 0 /\ lost = "no"
    /\ Assert(Trustworthy(Event.w), "who was first was recorded wrongly")
    /\ Assert(NewEngine(call.n, call.lim.sw).poisoned, "such compiles have to be taken pattern by pattern")
    /\ \E f \in {WholeFailure(Event.w)} :
       CASE Event.out = "panic" -> Wrong({"C01"} \cup IF f = NoError THEN {"C02"} ELSE {"C03"}, "panic", Event.msg, f)
         [] Event.out = "err" /\ f = NoError -> Wrong(Concerned(Event.cause), "a good pattern was rejected", Event.msg, f)
         [] Event.out = "err" /\ f # NoError -> ErrorSame(Event, f)
         [] Event.out = "ok" /\ f # NoError -> Wrong(Concerned(f.cause), "a bad pattern was accepted", "ok", f)
         [] OTHER ->
              /\ WholeSame(Event.snap, Event.w)
              /\ Event.dbmode # "?" => /\ Same("C13", "mode", Event.dbmode, DatabaseMode(call.mode))
                                       /\ Same("C13", "engine", Event.engine, "full")
              /\ Same("C13", "scans", Event.scan, TRUE)
    /\ Leave /\ UNCHANGED lost

TraceNext == TWhole \/ TBegin \/ TAdded \/ TAddedLost \/ TMore \/ EndOk \/ EndError \/ EndPanic \/ EndLost
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
