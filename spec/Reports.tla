------------------------------ MODULE Reports ------------------------------
(* The report manager of a compile: external match ids and who first used    *)
(* them, exhaustion keys, internal reports, and global exhaustion.           *)
(* A manager is a record; every operation returns the manager afterwards.    *)
EXTENDS Bytes, TLC

(* ext: match id -> <<single-match, first pattern>>; exhaust: match id ->    *)
(* exhaustion key; reports: report -> internal number.                       *)
NewManager == [ext |-> <<>>, exhaust |-> <<>>, reports |-> <<>>, gex |-> TRUE]

Count(f) == Cardinality(DOMAIN f)
(* What x is known as: what it was known as before, or v.                    *)
Put(f, x, v) == IF x \in DOMAIN f THEN f ELSE (x :> v) @@ f
Extends(f, g) == \A x \in DOMAIN f : x \in DOMAIN g /\ g[x] = f[x]

Known(rm, id) == id \in DOMAIN rm.ext
Entry(rm, id) == <<id>> \o rm.ext[id]
Entries(rm) == {Entry(rm, id) : id \in DOMAIN rm.ext}

(* Two patterns with the same match id must agree on single-match.           *)
Conflicts(rm, id, h) == Known(rm, id) /\ rm.ext[id][1] # h

Register(rm, id, h, i) ==
    [rm EXCEPT !.ext = Put(@, id, <<h, i>>), !.gex = @ /\ h]

(* Keys and numbers are given in order of first use, from 0.                 *)
Exhaustible(rm, id) == [rm EXCEPT !.exhaust = Put(@, id, Count(@))]
ExhaustionKey(rm, id) == rm.exhaust[id]

(* A report is a tuple of all its attributes, numbers among them as text.    *)
Interned(rm, r) == r \in DOMAIN rm.reports
Refused(rm, r, limit) == ~Interned(rm, r) /\ Count(rm.reports) >= limit
Intern(rm, r) == [rm EXCEPT !.reports = Put(@, r, Count(@))]
InternalId(rm, r) == rm.reports[r]
(* The report a number stands for.                                           *)
ReportAt(rm, n) == CHOOSE r \in DOMAIN rm.reports : rm.reports[r] = n

ByNumber(rm) == [k \in 1..Count(rm.reports) |-> ReportAt(rm, k - 1)]

(* The two kinds of reports that compiling creates.                          *)
(* Neither asks for a least length, the last attribute.                      *)
NoKey == "-1"
EndReport(id, adjust, key, quiet) == <<FALSE, id, adjust, key, quiet, "0", "0">>
SomReport(id, adjust, distance) == <<TRUE, id, adjust, NoKey, FALSE, distance, "0">>
WithLeastLength(r, n) == [r EXCEPT ![7] = n]
LeastLength(r) == r[7]
KeyOf(rm, id, single) == IF single THEN ToString(ExhaustionKey(rm, id)) ELSE NoKey
=============================================================================
