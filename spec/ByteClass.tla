----------------------------- MODULE ByteClass -----------------------------
(* Byte classes as sets: the abstract machine that every implementation of   *)
(* a byte class has to refine (C14), and the meaning of every question about *)
(* a class (C15) and of its encodings (C16).                                 *)
(*                                                                           *)
(* The alphabet is a parameter so that the word-level algorithms of BitField *)
(* can be checked against this module exhaustively on a scaled-down          *)
(* alphabet; the traces of the real code use NB = 256 and the ASCII letters. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS
    NB,         \* number of byte values
    Reg,        \* names of the classes
    UpperFirst, UpperLast,   \* the upper-case letters
    CaseBit     \* distance of a lower-case letter from its upper case; a power of two

VARIABLE reg    \* [Reg -> SUBSET Val]

Val == 0..(NB - 1)
Up == UpperFirst..UpperLast
Lo == {c + CaseBit : c \in Up}
Alpha == Up \cup Lo

XorCase(c) == IF (c \div CaseBit) % 2 = 0 THEN c + CaseBit ELSE c - CaseBit
CaseClosure(S) == S \cup {c + CaseBit : c \in S \cap Up} \cup {c - CaseBit : c \in S \cap Lo}

XorSet(A, B) == (A \ B) \cup (B \ A)

-----------------------------------------------------------------------------
(* Updates. One action per operation; Write(d, S) is their common shape:     *)
(* nothing but the class written to changes.                                 *)

Write(d, S) == reg' = [reg EXCEPT ![d] = S]

SetOne(d, c) == Write(d, reg[d] \cup {c})
ResetOne(d, c) == Write(d, reg[d] \ {c})
FlipOne(d, c) == Write(d, XorSet(reg[d], {c}))
SetAll(d) == Write(d, Val)
ResetAll(d) == Write(d, {})
FlipAll(d) == Write(d, Val \ reg[d])
SetBytes(d, bs) == Write(d, reg[d] \cup {bs[i] : i \in DOMAIN bs})
SetRange(d, f, t) == f <= t /\ Write(d, reg[d] \cup f..t)
(* A reversed range is refused: the class is left alone.                     *)
RefuseRange(d, f, t) == f > t /\ UNCHANGED reg
And(d, a, b) == Write(d, reg[a] \cap reg[b])
Or(d, a, b) == Write(d, reg[a] \cup reg[b])
Xor(d, a, b) == Write(d, XorSet(reg[a], reg[b]))
Not(d, a) == Write(d, Val \ reg[a])
Copy(d, a) == Write(d, reg[a])
MakeCaseless(d) == Write(d, CaseClosure(reg[d]))
FromChar(d, c) == Write(d, {c})
FromRange(d, f, t) == f <= t /\ Write(d, f..t)
FromBytes(d, bs) == Write(d, {bs[i] : i \in DOMAIN bs})
Dot(d) == Write(d, Val)
Empty(d) == Write(d, {})

-----------------------------------------------------------------------------
(* Questions. -1 stands for "no such member".                                *)

Least(S) == IF S = {} THEN -1 ELSE Min(S)
Greatest(S) == IF S = {} THEN -1 ELSE Max(S)
NextAfter(S, c) == Least({x \in S : x > c})
Nth(S, n) == LET T == {x \in S : Cardinality({y \in S : y < x}) = n} IN Least(T)

(* The answers to "next after c" for all c, and to "n-th member" for all n,  *)
(* in one pass; equal to NextAfter and Nth point-wise (see BitField's        *)
(* invariant TablesAgree).                                                   *)
NextTable(S) ==
    LET step(acc, c) == [tab |-> <<acc.cur>> \o acc.tab,
                         cur |-> IF c \in S THEN c ELSE acc.cur]
        down == [i \in 1..NB |-> NB - i]
    IN FoldLeft(step, [tab |-> <<>>, cur |-> -1], down).tab
NthTable(S) ==
    LET s == SetToSortSeq(S, LAMBDA a, b : a < b)
    IN [i \in 1..NB |-> IF i <= Len(s) THEN s[i] ELSE -1]
Members(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

Alphabetic(S) == S # {} /\ S \subseteq Alpha
CasePair(S) == \E c \in Up : S = {c, c + CaseBit}
Bit5Insensitive(S) == \A c \in S : XorCase(c) \in S
Ascii(S, bound) == \A c \in S : c < bound
Utf8Lead(S, bound) == \A c \in S : c >= bound

-----------------------------------------------------------------------------
(* Encodings.                                                                *)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(* Element i (from 0) of the bit vector with W bits per element.             *)
BitVectorWord(S, i, W) ==
    FoldSet(LAMBDA c, acc : acc + Pow2(c % W), 0, {c \in S : c \div W = i})

Bit(v, b) == (v \div Pow2(b)) % 2
(* (c AND a) = m                                                             *)
Passes(c, a, m, W) == \A b \in 0..(W - 1) : Bit(c, b) * Bit(a, b) = Bit(m, b)
(* The bits on which all members agree.                                      *)
CommonBits(S, W) == {b \in 0..(W - 1) : Cardinality({Bit(c, b) : c \in S}) <= 1}
(* The mask pair is sound and its and-mask tests every bit that is common,   *)
(* so that no sound pair rejects more.                                       *)
TightestMask(S, a, m, W) ==
    /\ \A c \in S : Passes(c, a, m, W)
    /\ S # {} => \A b \in CommonBits(S, W) : Bit(a, b) = 1
    (* The tightest pair for no member at all rejects everything.            *)
    /\ S = {} => \E b \in 0..(W - 1) : Bit(a, b) = 0 /\ Bit(m, b) = 1
=============================================================================
