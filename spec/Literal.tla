------------------------------ MODULE Literal ------------------------------
(* Literals: sequences of <<character, caseless>>, caseless characters in    *)
(* upper case.                                                               *)
EXTENDS Bytes

Push(lit, c, nc) == Append(lit, <<IF nc THEN ToUpper(c) ELSE c, nc>>)
Of(pushes) == [i \in DOMAIN pushes |-> <<IF pushes[i][2] THEN ToUpper(pushes[i][1]) ELSE pushes[i][1], pushes[i][2]>>]

AnyCaseless(lit) == \E i \in DOMAIN lit : lit[i][2]
Mixed(lit) ==
    /\ \E i \in DOMAIN lit : IsAlpha(lit[i][1]) /\ lit[i][2]
    /\ \E i \in DOMAIN lit : IsAlpha(lit[i][1]) /\ ~lit[i][2]

(* A comparison of literals with results -1, 0 and 1, as a matrix over a     *)
(* list of them, is a total order that agrees with equality.                 *)
TotalOrder(lits, m) ==
    LET D == DOMAIN lits IN
    /\ \A i, j \in D : (m[i][j] = 0) = (lits[i] = lits[j])
    /\ \A i, j \in D : m[i][j] = -m[j][i]
    /\ \A i, j, k \in D : m[i][j] <= 0 /\ m[j][k] <= 0 => m[i][k] <= 0

(* The order the code uses: characters first, then case sensitivity.         *)
LexCompare(s, t, Less(_, _)) ==
    LET n == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
        d == SelectInSeq([i \in 1..n |-> i], LAMBDA i : s[i] # t[i])
    IN IF d # 0 THEN IF Less(s[d], t[d]) THEN -1 ELSE 1
       ELSE IF Len(s) = Len(t) THEN 0 ELSE IF Len(s) < Len(t) THEN -1 ELSE 1
Chars(lit) == [i \in DOMAIN lit |-> lit[i][1]]
Cases(lit) == [i \in DOMAIN lit |-> lit[i][2]]
CompareAsCode(s, t) ==
    LET c == LexCompare(Chars(s), Chars(t), LAMBDA x, y : x < y) IN
    IF c # 0 THEN c ELSE LexCompare(Cases(s), Cases(t), LAMBDA x, y : ~x /\ y)
=============================================================================
