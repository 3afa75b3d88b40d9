------------------------------- MODULE Bytes -------------------------------
(* Byte values, case folding and small sequence utilities shared by all     *)
(* modules.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

AllBytes == 0..255
UpperCase == 65..90
LowerCase == 97..122
Letters == UpperCase \cup LowerCase

ToUpper(c) == IF c \in LowerCase THEN c - 32 ELSE c
ToLower(c) == IF c \in UpperCase THEN c + 32 ELSE c
IsAlpha(c) == c \in Letters

(* The case variants of a character: both for a letter, itself otherwise.    *)
CaseVariants(c) == {ToLower(c), ToUpper(c)}

(* f(e). TLC evaluates e once, not at every use f makes of it.               *)
Let(e, f(_)) == CHOOSE r \in {f(v) : v \in {e}} : TRUE

(* The elements of a set of integers in ascending order.                     *)
Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

(* The set denoted by a sequence of inclusive ranges <<lo, hi>>.             *)
UnionOfRanges(rs) == UNION {(rs[i][1])..(rs[i][2]) : i \in DOMAIN rs}

(* All non-empty prefixes of a sequence.                                      *)
NonEmptyPrefixes(s) == {SubSeq(s, 1, n) : n \in 1..Len(s)}

=============================================================================
