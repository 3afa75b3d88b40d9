----------------------------- MODULE MC_Literal -----------------------------
(* The ordering of literals, over all literals built by bounded pushes.      *)
EXTENDS Literal
CONSTANTS Alphabet, MaxLen
VARIABLES x, y, z

Elems == Alphabet \X BOOLEAN
Init == x = <<>> /\ y = <<>> /\ z = <<>>
PushOn(s) == {Push(s, e[1], e[2]) : e \in Elems}
Next ==
    \/ Len(x) < MaxLen /\ x' \in PushOn(x) /\ UNCHANGED <<y, z>>
    \/ Len(y) < MaxLen /\ y' \in PushOn(y) /\ UNCHANGED <<x, z>>
    \/ Len(z) < MaxLen /\ z' \in PushOn(z) /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y, z>>

Matrix == LET ls == <<x, y, z>> IN [i \in 1..3 |-> [j \in 1..3 |-> CompareAsCode(ls[i], ls[j])]]
OrderOk == TotalOrder(<<x, y, z>>, Matrix)
(* Characters are stored upper-case exactly where caseless.                  *)
StoredOk == \A i \in DOMAIN x : x[i][2] => x[i][1] \notin LowerCase
MixedOk == Mixed(x) => AnyCaseless(x) /\ \E i \in DOMAIN x : ~x[i][2]
=============================================================================
