------------------------------- MODULE Arith -------------------------------
(* Alignment and depths. Numbers of up to 64 bits are given as limbs of 16   *)
(* bits, least significant first.                                            *)
EXTENDS Integers, Sequences, FiniteSets

LimbBase == 65536

(* Largest multiple of n not above, smallest not below; n divides LimbBase.  *)
DownLimbs(a, n) == [a EXCEPT ![1] = @ - (@ % n)]
RECURSIVE Carry(_, _)
Carry(a, i) ==
    IF i > Len(a) THEN a
    ELSE IF a[i] < LimbBase THEN a
    ELSE IF i = Len(a) THEN a      \* no room
    ELSE Carry([a EXCEPT ![i] = 0, ![i + 1] = @ + 1], i + 1)
UpLimbs(a, n) ==
    IF a[1] % n = 0 THEN a ELSE Carry([a EXCEPT ![1] = @ - (@ % n) + n], 1)

Multiple(op, n) == CASE op \in {"up16", "down16"} -> 16 [] op = "upcl" -> 64 [] OTHER -> n
Aligned(op, a, n) ==
    IF op \in {"down16", "downn"} THEN DownLimbs(a, Multiple(op, n)) ELSE UpLimbs(a, Multiple(op, n))

(* Comparison of limbs of the same number: -1, 0, 1.                         *)
RECURSIVE CompareFrom(_, _, _)
CompareFrom(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] # b[i] THEN IF a[i] < b[i] THEN -1 ELSE 1
    ELSE CompareFrom(a, b, i - 1)
Compare(a, b) == CompareFrom(a, b, Len(a))

(* The infinity marker, 2^31 - 1, in four limbs.                             *)
Marker == <<65535, 32767, 0, 0>>
IsDepth(a) == Compare(a, Marker) < 0

-----------------------------------------------------------------------------
(* The same on plain numbers, declaratively, to check the limb versions and  *)
(* the masking arithmetic of the code.                                       *)
NearestDown(a, n) == CHOOSE m \in 0..a : m % n = 0 /\ \A k \in 0..a : k % n = 0 => k <= m
NearestUp(a, n, top) == CHOOSE m \in a..top : m % n = 0 /\ \A k \in a..top : k % n = 0 => k >= m
=============================================================================
