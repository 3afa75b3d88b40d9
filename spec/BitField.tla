------------------------------ MODULE BitField ------------------------------
(* The word-level algorithms of a byte class (src/util/bitfield.rs), with    *)
(* the number of words and the word size as parameters, transcribed step by  *)
(* step. ByteClass is the refinement mapping's target: TLC checks on a       *)
(* scaled-down alphabet that every operation on words is the set operation   *)
(* (property Refines) and that every query gives the set-theoretic answer    *)
(* (invariants).                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NW, W, UpperFirst, UpperLast, CaseBit
CONSTANTS NReg

VARIABLE words          \* [Reg -> [0..NW-1 -> 0..2^W-1]]

Reg == 1..NReg
NB == NW * W
Val == 0..(NB - 1)

Set(ws) == {c \in Val : (ws[c \div W] \div (2 ^ (c % W))) % 2 = 1}

A == INSTANCE ByteClass WITH reg <- [r \in Reg |-> Set(words[r])]

AllOnes == 2 ^ W - 1
WordAnd(a, b) == LET f[i \in 0..(W - 1)] ==
                       (IF (a \div 2^i) % 2 = 1 /\ (b \div 2^i) % 2 = 1 THEN 2^i ELSE 0)
                       + (IF i = 0 THEN 0 ELSE f[i - 1]) IN f[W - 1]
WordOr(a, b) == a + b - WordAnd(a, b)
WordXor(a, b) == a + b - 2 * WordAnd(a, b)
WordNot(a) == AllOnes - a
Shl(a, n) == (a * 2 ^ n) % (2 ^ W)
MaskBit(c) == 2 ^ (c % W)
TrailingZeros(a) == CHOOSE i \in 0..(W - 1) : (a \div 2^i) % 2 = 1 /\ \A j \in 0..(i - 1) : (a \div 2^j) % 2 = 0
LeadingZeros(a) == CHOOSE n \in 0..(W - 1) : (a \div 2^(W - 1 - n)) = 1
Ones(a) == Cardinality({i \in 0..(W - 1) : (a \div 2^i) % 2 = 1})

-----------------------------------------------------------------------------
(* Updates                                                                   *)

Upd(r, i, v) == [words EXCEPT ![r][i] = v]

ISet(r, c) == words' = Upd(r, c \div W, WordOr(words[r][c \div W], MaskBit(c)))
IReset(r, c) == words' = Upd(r, c \div W, WordAnd(words[r][c \div W], WordNot(MaskBit(c))))
IFlip(r, c) == words' = Upd(r, c \div W, WordXor(words[r][c \div W], MaskBit(c)))
ISetAll(r) == words' = [words EXCEPT ![r] = [i \in 0..(NW - 1) |-> AllOnes]]
IResetAll(r) == words' = [words EXCEPT ![r] = [i \in 0..(NW - 1) |-> 0]]
IFlipAll(r) == words' = [words EXCEPT ![r] = [i \in 0..(NW - 1) |-> WordNot(words[r][i])]]
INot(d, a) == words' = [words EXCEPT ![d] = [i \in 0..(NW - 1) |-> WordNot(words[a][i])]]
IBin(d, a, b, Op(_, _)) ==
    words' = [words EXCEPT ![d] = [i \in 0..(NW - 1) |-> Op(words[b][i], words[a][i])]]

RoundUp(a) == ((a + W - 1) \div W) * W

RECURSIVE FillBlocks(_, _, _)
FillBlocks(ws, i, t) ==
    IF i + W <= t + 1 THEN FillBlocks([ws EXCEPT ![i \div W] = AllOnes], i + W, t)
    ELSE [ws |-> ws, i |-> i]

(* Small case: same block. Large case: partial mask, whole blocks, partial.  *)
RangeResult(ws, f, t) ==
    IF f \div W = t \div W
    THEN LET b1 == Shl(AllOnes, f % W)
             b2 == IF t % W # W - 1 THEN WordAnd(b1, MaskBit(t + 1) - 1) ELSE b1
         IN [ws EXCEPT ![f \div W] = WordOr(ws[f \div W], b2)]
    ELSE LET part == f % W # 0
             w1 == IF part THEN [ws EXCEPT ![f \div W] = WordOr(ws[f \div W], Shl(AllOnes, f % W))] ELSE ws
             i1 == IF part THEN RoundUp(f) ELSE f
             fb == FillBlocks(w1, i1, t)
         IN IF fb.i <= t
            THEN [fb.ws EXCEPT ![fb.i \div W] = WordOr(fb.ws[fb.i \div W], MaskBit((t + 1) % NB) - 1)]
            ELSE fb.ws

ISetRange(r, f, t) == f <= t /\ words' = [words EXCEPT ![r] = RangeResult(words[r], f, t)]

RECURSIVE SetEach(_, _)
SetEach(ws, cs) ==
    IF cs = {} THEN ws
    ELSE LET c == CHOOSE x \in cs : TRUE
         IN SetEach([ws EXCEPT ![c \div W] = WordOr(ws[c \div W], MaskBit(c))], cs \ {c})

ICaseless(r) ==
    words' = [words EXCEPT ![r] =
        SetEach(words[r], {x \in Val : \E c \in UpperFirst..UpperLast :
                               /\ c \in Set(words[r]) \/ c + CaseBit \in Set(words[r])
                               /\ x \in {c, c + CaseBit}})]

-----------------------------------------------------------------------------
(* Queries                                                                   *)

NonZero(ws, from) == {i \in from..(NW - 1) : ws[i] # 0}
IFirst(ws) == LET s == NonZero(ws, 0) IN
    IF s = {} THEN -1 ELSE LET i == CHOOSE i \in s : \A j \in s : i <= j IN i * W + TrailingZeros(ws[i])
ILast(ws) == LET s == NonZero(ws, 0) IN
    IF s = {} THEN -1 ELSE LET i == CHOOSE i \in s : \A j \in s : i >= j IN i * W + (W - 1) - LeadingZeros(ws[i])
INext(ws, c) ==
    LET i0 == c \div W
        rest == WordAnd(ws[i0], Shl(AllOnes, (c % W) + 1))
        s == NonZero(ws, i0 + 1)
    IN IF c % W # W - 1 /\ rest # 0 THEN i0 * W + TrailingZeros(rest)
       ELSE IF s = {} THEN -1
       ELSE LET i == CHOOSE i \in s : \A j \in s : i <= j IN i * W + TrailingZeros(ws[i])
ICount(ws) == LET f[i \in 0..(NW - 1)] == Ones(ws[i]) + (IF i = 0 THEN 0 ELSE f[i - 1]) IN f[NW - 1]

RECURSIVE ClearLowest(_, _)
ClearLowest(b, n) == IF n = 0 THEN b ELSE ClearLowest(WordAnd(b, b - 1), n - 1)
RECURSIVE NthFrom(_, _, _, _)
NthFrom(ws, n, i, sum) ==
    IF i = NW THEN -1
    ELSE LET after == sum + Ones(ws[i]) IN
         IF after > n THEN i * W + TrailingZeros(ClearLowest(ws[i], n - sum))
         ELSE NthFrom(ws, n, i + 1, after)
INth(ws, n) == NthFrom(ws, n, 0, 0)
INone(ws) == \A i \in 0..(NW - 1) : ws[i] = 0
IAll(ws) == \A i \in 0..(NW - 1) : ws[i] = AllOnes

(* The mask loop of make_and_cmp_mask over the members in order.             *)
RECURSIVE MaskLoop(_, _, _, _)
CWidth == CHOOSE b \in 0..8 : 2 ^ b >= NB /\ \A d \in 0..(b - 1) : 2 ^ d < NB
CAnd(a, b) == LET f[i \in 0..CWidth] ==
                       (IF (a \div 2^i) % 2 = 1 /\ (b \div 2^i) % 2 = 1 THEN 2^i ELSE 0)
                       + (IF i = 0 THEN 0 ELSE f[i - 1]) IN f[CWidth]
MaskLoop(ws, p, lo, hi) ==
    IF p = -1 THEN <<(2 ^ CWidth - 1) - (lo + hi - 2 * CAnd(lo, hi)), lo>>
    ELSE MaskLoop(ws, INext(ws, p), CAnd(lo, p), hi + p - CAnd(hi, p))
IMask(ws) == MaskLoop(ws, IFirst(ws), 2 ^ CWidth - 1, 0)

-----------------------------------------------------------------------------
Init == words = [r \in Reg |-> [i \in 0..(NW - 1) |-> 0]]

One == \E r \in Reg, c \in Val : ISet(r, c) \/ IReset(r, c) \/ IFlip(r, c)
Whole == \E r \in Reg : ISetAll(r) \/ IResetAll(r) \/ IFlipAll(r) \/ ICaseless(r)
Ranges == \E r \in Reg, f, t \in Val : ISetRange(r, f, t)
Binary == \E d, a, b \in Reg : IBin(d, a, b, WordAnd) \/ IBin(d, a, b, WordOr) \/ IBin(d, a, b, WordXor)
Complement == \E d, a \in Reg : INot(d, a)
Next == One \/ Whole \/ Ranges \/ Binary \/ Complement

Spec == Init /\ [][Next]_words

(* What each word-level step has to be, as a set-level step.                 *)
OneOk == [][\A r \in Reg, c \in Val :
                /\ ISet(r, c) => A!SetOne(r, c)
                /\ IReset(r, c) => A!ResetOne(r, c)
                /\ IFlip(r, c) => A!FlipOne(r, c)]_words
WholeOk == [][\A r \in Reg :
                /\ ISetAll(r) => A!SetAll(r)
                /\ IResetAll(r) => A!ResetAll(r)
                /\ IFlipAll(r) => A!FlipAll(r)
                /\ ICaseless(r) => A!MakeCaseless(r)]_words
RangeOk == [][\A r \in Reg, f, t \in Val : ISetRange(r, f, t) => A!SetRange(r, f, t)]_words
BinaryOk == [][\A d, a, b \in Reg :
                /\ IBin(d, a, b, WordAnd) => A!And(d, a, b)
                /\ IBin(d, a, b, WordOr) => A!Or(d, a, b)
                /\ IBin(d, a, b, WordXor) => A!Xor(d, a, b)]_words
NotOk == [][\A d, a \in Reg : INot(d, a) => A!Not(d, a)]_words

QueriesOk == \A r \in Reg :
    LET ws == words[r]
        S == Set(ws) IN
    /\ IFirst(ws) = A!Least(S)
    /\ ILast(ws) = A!Greatest(S)
    /\ \A c \in Val : INext(ws, c) = A!NextAfter(S, c)
    /\ \A n \in Val : INth(ws, n) = A!Nth(S, n)
    /\ ICount(ws) = Cardinality(S)
    /\ INone(ws) = (S = {})
    /\ IAll(ws) = (S = Val)

TablesAgree == \A r \in Reg :
    LET S == Set(words[r]) IN
    /\ \A c \in Val : A!NextTable(S)[c + 1] = A!NextAfter(S, c)
    /\ \A n \in Val : A!NthTable(S)[n + 1] = A!Nth(S, n)

(* Stepping with next from the first member lists every member once.         *)
RECURSIVE Walk(_, _)
Walk(ws, c) == IF c = -1 THEN <<>> ELSE <<c>> \o Walk(ws, INext(ws, c))
WalkOk == \A r \in Reg : Walk(words[r], IFirst(words[r])) = A!Members(Set(words[r]))

MaskOk == \A r \in Reg :
    LET m == IMask(words[r]) IN A!TightestMask(Set(words[r]), m[1], m[2], CWidth)

=============================================================================
