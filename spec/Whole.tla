------------------------------- MODULE Whole -------------------------------
(* A compile as a whole: its outcome and final state from the lists alone,   *)
(* not pattern by pattern. Which pattern was the first with the same match   *)
(* id, report or key is taken from outside (w) and verified, so that all of  *)
(* it takes time linear in the length of the lists: for very long ones.      *)
EXTENDS Session

SingleAt(i) == HasFlag(FlagsAt(i), "singlematch")
QuietAt(i) == HasFlag(FlagsAt(i), "quiet")
IsStringAt(i) == call.lim.allowLiteral /\ call.lim.shortcut /\ IsPureLiteral(PatAt(i))
StringAt(i) == LiteralOf(PatAt(i), FlagsAt(i))
IsKeyedAt(i) == IsStringAt(i) /\ SingleAt(i)

Indices == 1..call.n
InOrder == [i \in Indices |-> i]
Where(P(_)) == SelectSeq(InOrder, P)

(* f[i] is the first of those in S like i; rank[i] the number of its kind.   *)
Certified(f, rank, S(_), Like(_)) ==
    LET firsts == Where(LAMBDA i : S(i) /\ f[i] = i) IN
    /\ \A i \in Indices : S(i) => /\ f[i] \in 1..i /\ S(f[i]) /\ f[f[i]] = f[i]
                              /\ Like(f[i]) = Like(i) /\ rank[i] = rank[f[i]]
    /\ Cardinality({Like(firsts[k]) : k \in DOMAIN firsts}) = Len(firsts)
    /\ \A k \in DOMAIN firsts : rank[firsts[k]] = k - 1

(* w: ids and idno, reps and repno, keys and keyno.                          *)
WhatAt(i) == <<IdAt(i), QuietAt(i)>>
Trustworthy(w) ==
    /\ Certified(w.ids, w.idno, LAMBDA i : TRUE, IdAt)
    /\ Certified(w.reps, w.repno, IsStringAt, WhatAt)
    /\ Certified(w.keys, w.keyno, IsKeyedAt, IdAt)
IdList(w) == Where(LAMBDA i : w.ids[i] = i)
RepList(w) == Where(LAMBDA i : IsStringAt(i) /\ w.reps[i] = i)
KeyList(w) == Where(LAMBDA i : IsKeyedAt(i) /\ w.keys[i] = i)

(* The first pattern that is bad and why.                                    *)
BadAt(w, tooMany, i) ==
    \/ OwnFailureOf(PatAt(i), FlagsAt(i)).cause # "none"
    \/ SingleAt(w.ids[i]) # SingleAt(i)
    \/ i = tooMany
WholeFailure(w) ==
    Let(RepList(w), LAMBDA reps :
    Let(IF Len(reps) > call.lim.reports THEN reps[call.lim.reports + 1] ELSE 0, LAMBDA tooMany :
    Let(SelectInSeq(InOrder, LAMBDA i : BadAt(w, tooMany, i)), LAMBDA i :
        IF i = 0 THEN NoError
        ELSE LET own == OwnFailureOf(PatAt(i), FlagsAt(i)) IN
             IF own.cause # "none"
             THEN [NoError EXCEPT !.cause = own.cause, !.index = i - 1, !.at = own.at, !.text = own.text]
             ELSE IF SingleAt(w.ids[i]) # SingleAt(i)
             THEN [NoError EXCEPT !.cause = "conflict", !.index = i - 1, !.first = w.ids[i] - 1, !.id = IdAt(i)]
             ELSE [NoError EXCEPT !.cause = "reports", !.index = i - 1])))

(* The state when nothing is bad.                                            *)
WholeEntries(w) == LET f == IdList(w) IN {<<IdAt(f[k]), SingleAt(f[k]), f[k] - 1>> : k \in DOMAIN f}
WholeKeys(w) == LET f == KeyList(w) IN {<<IdAt(f[k]), k - 1>> : k \in DOMAIN f}
WholeReports(w) ==
    LET f == RepList(w)
        key(i) == IF SingleAt(i) THEN ToString(w.keyno[i]) ELSE NoKey
    IN [k \in DOMAIN f |-> EndReport(IdAt(f[k]), "0", key(f[k]), QuietAt(f[k]))]
WholeExhaustible == \A i \in Indices : SingleAt(i)
WholeStrings == Where(IsStringAt)
WholeMinWidth ==
    FoldLeft(LAMBDA m, i : IF Len(StringAt(i)) < m THEN Len(StringAt(i)) ELSE m, Infinity, WholeStrings)
WholeHanded(w) ==
    Let(WholeStrings, LAMBDA f :
        IF f = <<>> THEN NoneHanded
        ELSE [n |-> Len(f), lit |-> StringAt(Last(f)), rep |-> w.repno[Last(f)]])
=============================================================================
