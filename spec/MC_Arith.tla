------------------------------ MODULE MC_Arith ------------------------------
(* Counts through every value of a small word, comparing the masking         *)
(* arithmetic of the code and the limb arithmetic with the nearest multiple. *)
EXTENDS Arith
CONSTANTS Bits, Alignments
VARIABLE a

Top == 2 ^ Bits - 1
Init == a = 0
Next == a < Top /\ a' = a + 1
Spec == Init /\ [][Next]_a

(* a AND NOT (n - 1) on words of Bits bits.                                  *)
AndNot(x, n) == LET f[i \in 0..(Bits - 1)] ==
                      (IF (x \div 2^i) % 2 = 1 /\ ((n - 1) \div 2^i) % 2 = 0 THEN 2^i ELSE 0)
                      + (IF i = 0 THEN 0 ELSE f[i - 1]) IN f[Bits - 1]
MaskDown(x, n) == AndNot(x, n)
MaskUp(x, n) == AndNot(x + n - 1, n)
Room(x, n) == x + n - 1 <= Top

DownOk == \A n \in Alignments : MaskDown(a, n) = NearestDown(a, n)
UpOk == \A n \in Alignments : Room(a, n) => MaskUp(a, n) = NearestUp(a, n, Top)

(* Limb arithmetic around a carry: the value a below LimbBase.               *)
LimbOk == \A n \in Alignments :
    LET x == <<LimbBase - Top + a - 1, 65535, 7, 0>>
        low == x[1]
        up == ((low + n - 1) \div n) * n
    IN /\ DownLimbs(x, n) = <<(low \div n) * n, 65535, 7, 0>>
       /\ UpLimbs(x, n) = IF up = LimbBase THEN <<0, 0, 8, 0>> ELSE <<up, 65535, 7, 0>>
=============================================================================
