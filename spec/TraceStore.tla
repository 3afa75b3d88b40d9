----------------------------- MODULE TraceStore -----------------------------
(* Recorded literals handed to a compile's graph store against Store.        *)
EXTENDS Store, TraceState

(* over: a literal was rejected, or the code and the specification parted    *)
(* over something that the property in focus does not speak about; the rest  *)
(* of the history is skipped.                                                *)
VARIABLES st, lim, over

LOCAL Gr == INSTANCE Graph

TraceInit ==
    /\ l = 1 /\ over = TRUE
    /\ lim = [sw |-> [enabled |-> FALSE, maxPatterns |-> 0]]
    /\ st = NewStore(0, lim)

Snap(s, x) ==
    /\ ManagerSame(s, x.rm)
    /\ EngineSame(s.sw, x.sw)
    /\ HandedSame(s.handed, x.handed)
    /\ Same("C22", "start of match wanted", s.som, x.som)
    /\ Same("C22", "small-buffer engine given up", s.sw.poison, x.sw.poisoned)
    /\ Same("C11", "minimum width", s.minw, IF x.minw = NoWidth THEN -1 ELSE x.minw)

TNew ==
    /\ IsEvent("new")
    /\ lim' = LimitsOf(Event.lim)
    /\ st' = NewStore(Event.n, lim')
    /\ Snap(Event.snap, st')
    /\ over' = FALSE

Stored(pushed) == [i \in 1..Len(pushed) |-> IF pushed[i][2] THEN <<ToUpper(pushed[i][1]), TRUE>> ELSE pushed[i]]

AboutVerdict(v) ==
    CASE v = "left" -> {"C07"} [] v = "conflict" -> {"C09"} [] v = "refused" -> {"C08"} [] OTHER -> {"C07"}
OutOf(v) == CASE v = "conflict" -> "Other" [] v = "refused" -> "ResourceLimit" [] OTHER -> v

TAdd ==
    /\ IsEvent("add") /\ ~over
    /\ LET e == Event
           lit == Stored(e.lit)
           v == Verdict(st, lit, e, lim)
       IN IF e.out # OutOf(v)
          THEN /\ Wrong(AboutVerdict(v) \cup CASE e.out = "Other" -> {"C09"} [] e.out = "ResourceLimit" -> {"C08"} [] OTHER -> {},
                        "literal", e.out, v)
               /\ over' = TRUE /\ UNCHANGED st
          ELSE IF v = "taken"
          THEN /\ st' = Take(st, lit, e, lim)
               /\ Snap(e.snap, st')
               /\ UNCHANGED over
          ELSE IF v = "left"
          THEN /\ Snap(e.snap, st)
               /\ UNCHANGED <<st, over>>
          ELSE /\ over' = TRUE /\ UNCHANGED st
               /\ v = "conflict" =>
                      Same("C09", "patterns, id and who asked", e.conflict,
                           <<ToString(e.i), e.id, ToString(Entry(st.rm, e.id)[3]),
                             IF e.h THEN "later" ELSE "first">>)
    /\ UNCHANGED lim
TAddOver == IsEvent("add") /\ over /\ UNCHANGED <<st, lim, over>>

(* Nothing but what graphs are about has changed.                            *)
Kept(s, before) ==
    /\ Same("C22", "tables", <<s.sw.c, s.sw.n, s.sw.num>>, <<before.sw.c, before.sw.n, before.sw.num>>)
    /\ Same("C22", "reports and keys", <<s.reps, s.ek>>, <<before.reps, before.ek>>)
    /\ Same("C22", "minimum width", s.minw, before.minw)

TGraph ==
    /\ IsEvent("graph") /\ ~over
    /\ LET e == Event
           v == GraphVerdict(st, e)
       IN /\ Same("C22", "graph", e.out, OutOf(v))
          /\ Same("C09", "graph", e.out, OutOf(v))
          /\ IF e.out # OutOf(v) THEN over' = TRUE /\ UNCHANGED st
             ELSE IF v = "taken"
             THEN /\ st' = TakeGraph(st, e)
                  /\ Snap(e.snap, st')
                  /\ Kept(e.snap, Trace[l - 1].snap)
                  /\ Same("C22", "match ids", ToSetOf(e.snap.ext), Entries(st'.rm))
                  /\ UNCHANGED over
             ELSE /\ over' = TRUE /\ UNCHANGED st
                  /\ Same("C09", "patterns, id and who asked", e.conflict,
                          <<ToString(e.i), e.id, ToString(Entry(st.rm, e.id)[3]), IF e.h THEN "later" ELSE "first">>)
    /\ UNCHANGED lim

GraphOf(e) == Gr!Grown(Gr!NewGraph, e.n, ToSetOf(e.edges), ToSetOf(e.reports))
TOffer ==
    /\ IsEvent("offer") /\ ~over
    /\ \E g \in {GraphOf(Event)} :
          /\ IF Unable(st, g, Event.som)
             THEN Same("C22", "a graph the engine has no way to take", Event.out, "unable")
             ELSE Same("C22", "a graph", Event.out, "ok")
          /\ st' = OfferGraph(st, g, Event.som)
    /\ Same("C22", "given up", Event.snap.sw.poison, st'.sw.poisoned)
    /\ Kept(Event.snap, Trace[l - 1].snap)
    /\ Snap(Event.snap, st')
    /\ UNCHANGED <<lim, over>>

(* A report with a least length, such as no pattern asks for today.          *)
TIntern ==
    /\ IsEvent("intern") /\ ~over
    /\ LET e == Event
           r == WithLeastLength(IF e.som THEN SomReport(e.id, e.adjust, e.distance)
                                ELSE EndReport(e.id, e.adjust, e.key, e.quiet), e.least)
       IN IF Refused(st.rm, r, lim.reports)
          THEN /\ Same("C08", "refused", e.out, "ResourceLimit")
               /\ UNCHANGED st
          ELSE /\ st' = [st EXCEPT !.rm = Intern(@, r)]
               /\ Same("C08", "number", <<e.out, e.n>>, <<"ok", InternalId(st'.rm, r)>>)
    /\ Snap(Event.snap, st')
    /\ UNCHANGED <<lim, over>>
TOver == (IsEvent("graph") \/ IsEvent("offer") \/ IsEvent("intern")) /\ over /\ UNCHANGED <<st, lim, over>>

TPanic ==
    /\ IsEvent("panic")
    /\ over \/ Wrong({"C07", "C08", "C09", "C10", "C11", "C22"}, "panic", Event.msg, "an answer")
    /\ over' = TRUE /\ UNCHANGED <<st, lim>>

TraceNext == TNew \/ TAdd \/ TAddOver \/ TGraph \/ TOffer \/ TIntern \/ TOver \/ TPanic
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st, lim, over>>
=============================================================================
