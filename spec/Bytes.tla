------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings as sequences of 0..255.  TLC's integers have 32 bits, so   *)
(* numbers read from input saturate at Huge (2^30): every valid size in    *)
(* the explored space is far below it.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

Huge == 1073741824
RECURSIVE LEn(_, _)
LEn(n, w) == IF w = 0 THEN <<>> ELSE <<n % 256>> \o LEn(n \div 256, w - 1)
Reverse8(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
BEn(n, w) == Reverse8(LEn(n, w))
RECURSIVE RdFrom(_, _, _)
RdFrom(b, i, n) == IF n = 0 THEN 0
                   ELSE LET hi == RdFrom(b, i + 1, n - 1) IN IF hi >= 4194304 THEN Huge ELSE b[i] + 256 * hi
\* little endian number of n bytes at position i (1-based)
RdLE(b, i, n) == RdFrom(b, i, n)
RdBE(b, i, n) == RdFrom(Reverse8(SubSeq(b, i, i + n - 1)), 1, n)
Rep(x, n) == [i \in 1..n |-> x]
At(b, i, n) == SubSeq(b, i, i + n - 1)
From(b, i) == SubSeq(b, i, Len(b))
RECURSIVE CatFrom(_, _)
CatFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o CatFrom(ss, i + 1)
Cat(ss) == CatFrom(ss, 1)
RECURSIVE Sum8(_, _)
Sum8(b, i) == IF i > Len(b) THEN 0 ELSE (b[i] + Sum8(b, i + 1)) % 256
\* lexicographic order of byte strings, as Python's
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i > Len(b) THEN FALSE
                     ELSE IF i > Len(a) THEN TRUE
                     ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i + 1)
LessB(a, b) == LessFrom(a, b, 1)
=============================================================================
