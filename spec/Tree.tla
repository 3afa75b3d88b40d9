-------------------------------- MODULE Tree --------------------------------
(* Parse trees whose classes hold any characters, also those that no pattern *)
(* makes today. A class is what it was made of: the characters added to it   *)
(* one after the other, and whether caselessly.                              *)
EXTENDS Pattern

(* A class is one of bytes; characters above them are refused.               *)
InClass(c) == c < 256
Refuses(x) == \E i \in DOMAIN x.chars : ~InClass(x.chars[i])
Holding(x) == UNION {CharClass(x.chars[i], x.nocase) : i \in DOMAIN x.chars}

IsOne(S) == Cardinality(S) = 1
IsPair(S) == \E c \in S : IsAlpha(c) /\ S = CaseVariants(c)
Plain(S) == IsOne(S) \/ IsPair(S)
Elem(S) == IF IsOne(S) THEN <<CHOOSE c \in S : TRUE, FALSE>> ELSE <<Min(S), TRUE>>

(* sets: the classes in order; bars: whether there is an alternation.        *)
IsString(sets, bars) == sets # <<>> /\ ~bars /\ \A i \in DOMAIN sets : Plain(sets[i])
StringOf(sets) == [i \in DOMAIN sets |-> Elem(sets[i])]

(* What an element of a string matches.                                      *)
Matched(el) == IF el[2] THEN CaseVariants(el[1]) ELSE {el[1]}
=============================================================================
