----------------------------- MODULE SmallWrite -----------------------------
(* The small-buffer engine's literal tables. A literal is a sequence of      *)
(* <<character, caseless>>; a table maps the spelling of each literal in it  *)
(* to its reports and counts the vertices of the trie that stores them, the  *)
(* root included.                                                            *)
EXTENDS Bytes, TLC

EmptyTable == [lits |-> <<>>, inner |-> {}]
Nodes(tab) == 1 + Cardinality(tab.inner)

Spelling(lit) == Let(lit, LAMBDA s : [i \in 1..Len(s) |-> s[i][1]])
Caseless(lit) == SelectInSeq(lit, LAMBDA c : c[2]) # 0

(* Insertion shares the longest prefix already there.                        *)
Insert(tab, s, report) ==
    IF s \in DOMAIN tab.lits THEN [tab EXCEPT !.lits[s] = @ \cup {report}]
    ELSE [lits |-> (s :> {report}) @@ tab.lits, inner |-> tab.inner \cup NonEmptyPrefixes(s)]

(* lim: enabled, maxPatterns, maxLiterals, largest, maxNodes                 *)
NewEngine(numPatterns, lim) ==
    [poisoned |-> ~lim.enabled \/ numPatterns > lim.maxPatterns,
     num |-> 0, cased |-> EmptyTable, nocase |-> EmptyTable]

TooLong(lit, lim) == Len(lit) > lim.largest

AddToTable(sw, lit, report) ==
    Let(Spelling(lit),
        LAMBDA s : IF Caseless(lit) THEN [sw EXCEPT !.nocase = Insert(@, s, report)]
                   ELSE [sw EXCEPT !.cased = Insert(@, s, report)])

AddLiteral(sw, lit, report, lim) ==
    IF sw.poisoned \/ TooLong(lit, lim) THEN sw
    ELSE IF sw.num + 1 > lim.maxLiterals
    THEN [sw EXCEPT !.num = @ + 1, !.poisoned = TRUE]
    ELSE Let([AddToTable(sw, lit, report) EXCEPT !.num = @ + 1],
             LAMBDA added :
                 LET size == IF Caseless(lit) THEN Nodes(added.nocase) ELSE Nodes(added.cased)
                 IN [added EXCEPT !.poisoned = size > lim.maxNodes])
=============================================================================
