----------------------------- MODULE MC_Session -----------------------------
(* Every compile of up to MaxPats patterns taken from a catalogue, under     *)
(* every limit configuration in Limits, checked against what the state must  *)
(* be by looking at the whole call at once.                                  *)
EXTENDS Whole, Grammar, Json

CONSTANTS MaxPats, Catalogue, Modes, LimitSet, Emit

a == 97
b == 98

(* <<pattern, flags, id>>                                                    *)
Wide ==
    {<<a>>, <<b>>, <<a, b>>, <<Open, a, Close, b>>, <<a, Bar, b>>, <<Open, Close>>, <<>>,
     <<Open>>, <<a, Close>>, <<233>>, <<Open, Star, 85, 67, 80, Close, a>>, <<Open, Star, b, Close, a>>}
    \X {0, 1, 8, 9, 1024, 1032, 1280} \X {"1", "2"}
Narrow ==
    {<<a>>, <<a, b>>, <<b, a, a>>, <<a, Bar, b>>, <<Close>>} \X {0, 8, 1024} \X {"1", "2"}
Literal ==
    {<<a>>, <<a, a>>, <<b, a>>} \X {0, 9} \X {"1", "2"}

Exprs == CASE Catalogue = "wide" -> Wide [] Catalogue = "narrow" -> Narrow [] OTHER -> Literal

Lim(al, sl, np, len, nr, en, mp, ml, lb, mn) ==
    [allowLiteral |-> al, shortcut |-> sl, patterns |-> np, length |-> len, reports |-> nr,
     sw |-> [enabled |-> en, maxPatterns |-> mp, maxLiterals |-> ml, largest |-> lb, maxNodes |-> mn]]
Roomy == Lim(TRUE, TRUE, 9, 9, 9, TRUE, 9, 9, 9, 9)
Tight ==
    {Roomy,
     [Roomy EXCEPT !.allowLiteral = FALSE], [Roomy EXCEPT !.shortcut = FALSE],
     [Roomy EXCEPT !.patterns = 1], [Roomy EXCEPT !.length = 1], [Roomy EXCEPT !.reports = 1],
     [Roomy EXCEPT !.sw.enabled = FALSE], [Roomy EXCEPT !.sw.maxPatterns = 1],
     [Roomy EXCEPT !.sw.maxLiterals = 1], [Roomy EXCEPT !.sw.largest = 1],
     [Roomy EXCEPT !.sw.maxNodes = 2], [Roomy EXCEPT !.sw.maxNodes = 3]}
Lims == CASE LimitSet = "tight" -> Tight [] OTHER -> {Roomy}

Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
CallOf(es, mode, lim, df) ==
    [args |-> [pats |-> [i \in DOMAIN es |-> es[i][1]],
               flags |-> [i \in DOMAIN es |-> es[i][2]],
               ids |-> [i \in DOMAIN es |-> es[i][3]]],
     n |-> Len(es), nflags |-> Len(es) - df, nids |-> Len(es), mode |-> mode, lim |-> lim]

Itself(x) == x
Init == Idle
Next ==
    \/ phase = "idle" /\ \E es \in Lists(Exprs, MaxPats), m \in Modes, lim \in Lims :
           LET c == CallOf(es, m, lim, 0) IN Begin(c) \/ RefuseCall(c)
    \/ phase = "idle" /\ \E e \in Exprs : RefuseCall(CallOf(<<e>>, "block", Roomy, 1))
    \/ AddString \/ AddGraph \/ Reject \/ Build
Spec == Init /\ [][Next]_svars /\ WF_svars(Step)

-----------------------------------------------------------------------------
(* The call, looked at as a whole.                                           *)

All == 1..call.n
Sofar == 1..pos
P(i) == PatAt(i)
F(i) == FlagsAt(i)
I(i) == IdAt(i)
H(i) == HasFlag(F(i), "singlematch")
Q(i) == HasFlag(F(i), "quiet")
VerbOf(i) == ReadVerb(P(i))
Rest(i) == Body(P(i))
HasVerb(i) == VerbOf(i).what # "none"
Str(i) == /\ call.lim.allowLiteral /\ call.lim.shortcut
          /\ \E k \in DOMAIN Rest(i) : IsLiteralChar(Rest(i)[k])
          /\ \A k \in DOMAIN Rest(i) : Rest(i)[k] # Bar
Lit(i) == [k \in DOMAIN Literals(P(i)) |->
              IF HasFlag(F(i), "caseless") THEN <<ToUpper(Literals(P(i))[k]), IsAlpha(Literals(P(i))[k])>>
              ELSE <<Literals(P(i))[k], FALSE>>]
Nocase(i) == \E k \in DOMAIN Lit(i) : Lit(i)[k][2]
Firsts(S, key(_)) == {i \in S : \A j \in S : key(j) = key(i) => j >= i}
What(i) == <<I(i), H(i), Q(i)>>

(* Pattern i is bad given the patterns before it.                            *)
OwnBad(i) ==
    \/ ByteLength(P(i)) > call.lim.length
    \/ HasFlag(F(i), "quiet") /\ HasFlag(F(i), "som")
    \/ VerbOf(i).what \in {"unsupported", "unknown"}
    \/ ~WellFormed(Rest(i))
SetBad(i) ==
    \/ \E j \in 1..(i - 1) : I(j) = I(i) /\ H(j) # H(i)
    \/ Str(i) /\ Cardinality({What(j) : j \in {k \in 1..i : Str(k)}}) > call.lim.reports
Bad == {i \in All : OwnBad(i) \/ SetBad(i)}

Listed == call.n > 0 /\ call.nflags = call.n /\ call.n <= call.lim.patterns

AcceptedOk ==
    /\ phase = "built" => Listed /\ Bad = {}
    /\ phase = "rejected" => ~Listed \/ Bad # {}
BlameOk ==
    /\ phase = "rejected" /\ Listed => failure.index + 1 = Min(Bad)
    /\ phase = "rejected" /\ ~Listed => failure.index = -1 /\ pos = 0
    /\ \A i \in Sofar : i \notin Bad
CauseOk ==
    phase = "rejected" /\ Listed =>
        LET i == failure.index + 1 IN
        /\ ~OwnBad(i) => failure.cause \in {"conflict", "reports"}
        /\ failure.cause = "conflict" =>
               /\ I(failure.first + 1) = I(i) /\ H(failure.first + 1) # H(i)
               /\ \A j \in 1..failure.first : I(j) # I(i)
        /\ failure.cause \in {"unmatched", "unclosed", "nonascii"} =>
               LET d == FirstFault(Rest(i), BodyOffset(P(i)))
               IN d.cause = failure.cause /\ d.at = failure.at

ExtOk ==
    /\ Entries(rm) = {<<I(i), H(i), i - 1>> : i \in Firsts(Sofar, I)}
    /\ Count(rm.ext) = Cardinality({I(i) : i \in Sofar})
    /\ \A i, j \in Sofar : I(i) = I(j) => H(i) = H(j)
    /\ rm.gex = (\A i \in Sofar : H(i))

Keyed == {i \in Sofar : Str(i) /\ H(i)}
KeysOk ==
    LET order == Ascending(Firsts(Keyed, I)) IN
    /\ Count(rm.exhaust) = Len(order)
    /\ \A k \in DOMAIN order : ExhaustionKey(rm, I(order[k])) = k - 1

Strings == {i \in Sofar : Str(i)}
ReportsOk ==
    LET order == Ascending(Firsts(Strings, What)) IN
    /\ Count(rm.reports) = Len(order)
    /\ \A k \in DOMAIN order :
          LET r == ReportAt(rm, k - 1) IN
          /\ r[2] = I(order[k]) /\ r[5] = Q(order[k])
          /\ r[4] = KeyOf(rm, I(order[k]), H(order[k]))
    /\ phase # "idle" => Count(rm.reports) <= call.lim.reports
ReportNo(i) == rm.reports[CHOOSE r \in DOMAIN rm.reports : r[2] = I(i) /\ r[5] = Q(i)]

MinWidthOk ==
    minw = IF Strings = {} THEN Infinity ELSE Min({Len(Lit(i)) : i \in Strings})

(* What is handed on can be told apart by its report, and a match of it is a *)
(* match of the pattern.                                                     *)
HandedOk ==
    /\ handed.n = Cardinality(Strings)
    /\ Strings # {} =>
          LET i == Max(Strings) IN
          /\ handed.lit = Lit(i)
          /\ LET r == ReportAt(rm, handed.rep) IN r[2] = I(i) /\ r[5] = Q(i)
    /\ Strings = {} => handed = NoneHanded

Eligible(n) == {i \in 1..n : Str(i) /\ Len(Lit(i)) <= call.lim.sw.largest}
TableOf(n, nc) == {i \in Eligible(n) : Nocase(i) = nc}
StoredPrefixes(n, nc) == UNION {NonEmptyPrefixes(Spelling(Lit(i))) : i \in TableOf(n, nc)}
Exceeded(n) ==
    \/ ~call.lim.sw.enabled
    \/ call.n > call.lim.sw.maxPatterns
    \/ Cardinality(Eligible(n)) > call.lim.sw.maxLiterals
    \/ \E nc \in BOOLEAN : Cardinality(StoredPrefixes(n, nc)) + 1 > call.lim.sw.maxNodes
Holds(tab, n, nc) ==
    /\ DOMAIN tab.lits = {Spelling(Lit(i)) : i \in TableOf(n, nc)}
    /\ \A s \in DOMAIN tab.lits :
          tab.lits[s] = {ReportNo(i) : i \in {j \in TableOf(n, nc) : Spelling(Lit(j)) = s}}
    /\ Nodes(tab) = 1 + Cardinality(StoredPrefixes(n, nc))
SmallWriteOk ==
    phase # "idle" /\ Listed =>
        /\ sw.poisoned = (\E n \in 0..pos : Exceeded(n))
        /\ ~sw.poisoned =>
              /\ Holds(sw.cased, pos, FALSE) /\ Holds(sw.nocase, pos, TRUE)
              /\ sw.num = Cardinality(Eligible(pos))

DbOk == phase = "built" => db.mode = DatabaseMode(call.mode)

(* The compile as a whole says the same, whatever is taken from outside.     *)
FirstLike(S, key(_)) == [i \in 1..call.n |-> IF i \in S THEN Min({j \in S : key(j) = key(i)}) ELSE 0]
RankOf(f) == [i \in DOMAIN f |-> Cardinality({j \in DOMAIN f : f[j] = j /\ j < f[i]})]
StringsOfCall == {i \in 1..call.n : Str(i)}
KeyedOfCall == {i \in StringsOfCall : H(i)}
Seen ==
    LET ids == FirstLike(1..call.n, I)
        reps == FirstLike(StringsOfCall, LAMBDA i : <<I(i), Q(i)>>)
        keys == FirstLike(KeyedOfCall, I)
    IN [ids |-> ids, idno |-> RankOf(ids), reps |-> reps, repno |-> RankOf(reps),
        keys |-> keys, keyno |-> RankOf(keys)]
Lies(w, x) ==
    {[w EXCEPT !.ids[i] = x] : i \in 1..call.n} \cup {[w EXCEPT !.reps[i] = x] : i \in StringsOfCall}
    \cup {[w EXCEPT !.keys[i] = x] : i \in KeyedOfCall} \cup {[w EXCEPT !.idno[i] = x] : i \in 1..call.n}
    \cup {[w EXCEPT !.repno[i] = x] : i \in StringsOfCall} \cup {[w EXCEPT !.keyno[i] = x] : i \in KeyedOfCall}
WholeOk ==
    phase \in {"built", "rejected"} /\ Listed =>
        LET w == Seen IN
        /\ Trustworthy(w)
        /\ \A x \in 0..(MaxPats + 1) : \A v \in Lies(w, x) \ {w} : ~Trustworthy(v)
        /\ WholeFailure(w) = failure
        /\ phase = "built" =>
              /\ WholeEntries(w) = Entries(rm)
              /\ WholeKeys(w) = {<<id, rm.exhaust[id]>> : id \in DOMAIN rm.exhaust}
              /\ WholeReports(w) = ByNumber(rm)
              /\ WholeExhaustible = rm.gex
              /\ WholeMinWidth = minw
              /\ WholeHanded(w) = handed

TypeOk ==
    /\ phase \in {"idle", "adding", "built", "rejected"}
    /\ pos \in 0..MaxPats
    /\ failure.index \in -1..MaxPats

(* Once given up, the tables stay; the width never grows; reports and keys   *)
(* are only ever appended; nothing is un-registered.                         *)
Frozen == [][phase = "adding" /\ sw.poisoned => sw' = sw]_svars
Shrinks == [][phase = "adding" => minw' <= minw]_svars
Appends == [][phase = "adding" => /\ Extends(rm.reports, rm'.reports)
                                  /\ Extends(rm.exhaust, rm'.exhaust)
                                  /\ Extends(rm.ext, rm'.ext)
                                  /\ (rm'.gex => rm.gex)]_svars
(* Every compile comes to an end.                                            *)
Ends == (phase = "adding") ~> (phase \in {"built", "rejected"})

(* Calls for replay into the code.                                           *)
EmitOk == (Emit /\ phase \in {"built", "rejected"}) =>
    PrintT(<<"CALL", ToJson([pats |-> call.args.pats, flags |-> call.args.flags, ids |-> call.args.ids,
                             mode |-> call.mode, lim |-> call.lim, nf |-> call.nflags])>>)
=============================================================================
