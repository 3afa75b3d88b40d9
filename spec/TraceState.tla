----------------------------- MODULE TraceState -----------------------------
(* Recorded states of a compile's report manager and small-buffer engine,    *)
(* compared with the specification's.                                        *)
EXTENDS Reports, SmallWrite, TraceBase

ObsTerms(t) == {<<t.terms[i][1], ToSetOf(t.terms[i][2])>> : i \in DOMAIN t.terms}
ExpTerms(tab) == {<<s, tab.lits[s]>> : s \in DOMAIN tab.lits}
ObsStrings(t) == {t.terms[i][1] : i \in DOMAIN t.terms}

TableSame(name, t, tab) ==
    /\ Same("C10", <<name, "literals and reports">>, ObsTerms(t), ExpTerms(tab))
    /\ Same("C10", <<name, "duplicate literals">>, Len(t.terms), Cardinality(ObsTerms(t)))
    /\ Same("C10", <<name, "vertices">>, t.nodes, Nodes(tab))
    /\ Same("C10", <<name, "distinct prefixes">>, t.distinct, Nodes(tab) - 1)
    /\ Same("C10", <<name, "reachable prefixes">>, t.paths, Nodes(tab) - 1)
    /\ Same("C10", <<name, "reports on the root">>, t.root, <<>>)
    /\ Same("C10", <<name, "is empty">>, t.empty, Nodes(tab) = 1)
    /\ Same("C10", <<name, "all reports">>, ToSetOf(t.all), UNION {tab.lits[s] : s \in DOMAIN tab.lits})
    /\ Same("C07", <<name, "strings">>, ObsStrings(t), DOMAIN tab.lits)
    /\ \A i \in DOMAIN t.terms :
          t.terms[i][1] \in DOMAIN tab.lits =>
              Same("C08", <<name, "reports of", t.terms[i][1]>>, ToSetOf(t.terms[i][2]), tab.lits[t.terms[i][1]])

EngineSame(s, x) ==
    /\ Same("C10", "given up", s.poison, x.poisoned)
    (* Once given up, how many literals were seen does not matter.           *)
    /\ ~x.poisoned => Same("C10", "literals counted", s.num, x.num)
    /\ TableSame("case-sensitive", s.c, x.cased)
    /\ TableSame("caseless", s.n, x.nocase)

ManagerSame(s, x) ==
    /\ Same("C08", "number of reports", s.nrep, Count(x.reports))
    /\ Same("C08", "reports and numbers are inverse", s.inv, TRUE)
    /\ Same("C08", "reports by number", s.reps, ByNumber(x))
    /\ Same("C09", "match ids", ToSetOf(s.ext), Entries(x))
    /\ Same("C09", "exhaustion keys", ToSetOf(s.ek), {<<id, x.exhaust[id]>> : id \in DOMAIN x.exhaust})
    /\ Same("C09", "globally exhaustible", s.gex, x.gex)

(* Strings handed to the engine: how many, and the last one.                 *)
HandedSame(s, x) ==
    /\ Same("C07", "strings handed on", s.n, x.n)
    /\ x.n > 0 =>
          /\ Same("C07", "string handed on", s.lit, x.lit)
          /\ Same("C08", "report of the string handed on", s.reps, <<x.rep>>)
          (* It may match anywhere.                                          *)
          /\ Same("C07", "anchored or at the end of data", <<s.anch, s.eod>>, <<FALSE, FALSE>>)

LimitsOf(r) ==
    [allowLiteral |-> r.al, shortcut |-> r.sl, patterns |-> r.pc, length |-> r.pl, reports |-> r.rc,
     sw |-> [enabled |-> r.sw, maxPatterns |-> r.mp, maxLiterals |-> r.ml, largest |-> r.lb, maxNodes |-> 8000]]
=============================================================================
