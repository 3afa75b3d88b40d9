---------------------------- MODULE TraceReports ----------------------------
(* Recorded operations on a report manager against Reports.                  *)
EXTENDS TraceState

VARIABLES rm, limit

TraceInit == l = 1 /\ rm = NewManager /\ limit = 0

ReportOfEvent(e) ==
    IF e.som THEN SomReport(e.id, e.adjust, e.distance)
    ELSE EndReport(e.id, e.adjust, e.key, e.quiet)

TNew ==
    /\ IsEvent("new")
    /\ rm' = NewManager /\ limit' = Event.limit

(* A report is interned: known or fresh.                                     *)
TIntern ==
    /\ IsEvent("intern")
    /\ LET r == ReportOfEvent(Event) IN
       IF Refused(rm, r, limit)
       THEN /\ Same("C08", "refused", Event.out, "ResourceLimit")
            /\ rm' = rm
       ELSE /\ rm' = Intern(rm, r)
            /\ Same("C08", "accepted", Event.out, "ok")
            /\ Same("C08", "number", Event.n, InternalId(rm', r))
            (* The number leads back to this report, every earlier number    *)
            (* still to its own, and to no other.                            *)
            /\ Same("C08", "numbers that lead to it", ToSetOf(Event.leads), {InternalId(rm', r)})
    /\ ManagerSame(Event.snap, rm')
    /\ UNCHANGED limit

TRegister ==
    /\ IsEvent("register")
    /\ IF Conflicts(rm, Event.id, Event.h)
       THEN /\ Same("C09", "conflict", Event.out, "Other")
            /\ Same("C09", "patterns, id and who asked", Event.conflict,
                    <<ToString(Event.i), Event.id, ToString(Entry(rm, Event.id)[3]),
                      IF Event.h THEN "later" ELSE "first">>)
            /\ rm' = rm
       ELSE /\ Same("C09", "no conflict", Event.out, "ok")
            /\ rm' = Register(rm, Event.id, Event.h, Event.i)
            /\ ManagerSame(Event.snap, rm')
    /\ UNCHANGED limit

TKey ==
    /\ IsEvent("key")
    /\ rm' = Exhaustible(rm, Event.id)
    /\ Same("C09", "key", Event.n, ExhaustionKey(rm', Event.id))
    /\ ManagerSame(Event.snap, rm')
    /\ UNCHANGED limit

(* As many different reports as there may be, in a new manager, of which     *)
(* some are asked for again; then one too many.                              *)
TBulk ==
    /\ IsEvent("bulk")
    /\ Same("C08", "numbers", Event.ns, [i \in 1..Event.n |-> i - 1])
    /\ \A k \in DOMAIN Event.again :
          Same("C08", "number asked again, and where it leads", Event.again[k], <<Event.again[k][1], Event.again[k][1], TRUE>>)
    /\ Same("C08", "refused", Event.full, TRUE)
    /\ Same("C08", "number of reports", Event.count, Event.n)
    /\ Same("C08", "reports and numbers are inverse", Event.inv, TRUE)
    /\ UNCHANGED <<rm, limit>>

(* Many different match ids, the i-th with the i-th pattern, of which some   *)
(* are used again; and a key for each.                                       *)
TBulkIds ==
    /\ IsEvent("bulkids")
    /\ Same("C09", "conflicts", Event.bad, 0)
    /\ Same("C09", "keys", Event.keys, [i \in 1..Event.n |-> i - 1])
    /\ Same("C09", "match ids", Event.ids, Event.n)
    /\ Same("C09", "globally exhaustible", Event.gex, FALSE)
    /\ \A k \in DOMAIN Event.again :
          Let(Event.again[k],
              LAMBDA x :
                  /\ Same("C09", <<"agreement", x>>, x.ok, x.h = x.first)
                  /\ Same("C09", <<"key", x>>, x.key, x.i)
                  /\ x.h # x.first =>
                        Same("C09", "patterns, id and who asked", x.conflict,
                             <<ToString(x.later), x.id, ToString(x.i), IF x.h THEN "later" ELSE "first">>))
    /\ UNCHANGED <<rm, limit>>

TPanic ==
    /\ IsEvent("panic")
    /\ Wrong({"C08", "C09"}, "panic", Event.msg, "an answer")
    /\ UNCHANGED <<rm, limit>>

TraceNext == TNew \/ TIntern \/ TRegister \/ TKey \/ TBulk \/ TBulkIds \/ TPanic
TraceSpec == TraceInit /\ [][TraceNext]_<<l, rm, limit>>
=============================================================================
