-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text helpers shared by the specifications.  A text is either a TLA+     *)
(* string (rendered results) or a sequence of one-character strings        *)
(* (scanned inputs); Chars and Str convert.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

RECURSIVE StrFrom(_, _)
StrFrom(cs, i) == IF i > Len(cs) THEN "" ELSE cs[i] \o StrFrom(cs, i + 1)
Str(cs) == StrFrom(cs, 1)

LowerSeq == Chars("abcdefghijklmnopqrstuvwxyz")
UpperSeq == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LowerSet == {LowerSeq[i] : i \in 1..26}
UpperSet == {UpperSeq[i] : i \in 1..26}
UpOf == [c \in LowerSet |-> UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c]]
LowOf == [c \in UpperSet |-> LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]]
UpChar(c) == IF c \in LowerSet THEN UpOf[c] ELSE c
LowChar(c) == IF c \in UpperSet THEN LowOf[c] ELSE c
UpChars(cs) == [i \in 1..Len(cs) |-> UpChar(cs[i])]
LowChars(cs) == [i \in 1..Len(cs) |-> LowChar(cs[i])]
Upper(s) == Str(UpChars(Chars(s)))
Lower(s) == Str(LowChars(Chars(s)))

DecSeq == Chars("0123456789")
HexSeq == Chars("0123456789abcdef")
DecSet == {DecSeq[i] : i \in 1..10}
HexSet == {HexSeq[i] : i \in 1..16}
HexVal == [c \in HexSet |-> (CHOOSE i \in 1..16 : HexSeq[i] = c) - 1]

RECURSIVE ParseBase(_, _, _, _)
ParseBase(cs, i, base, acc) == IF i > Len(cs) THEN acc ELSE ParseBase(cs, i + 1, base, acc * base + HexVal[LowChar(cs[i])])

IsDec(cs) == Len(cs) > 0 /\ \A i \in 1..Len(cs) : cs[i] \in DecSet
IsHexBody(cs) == Len(cs) > 0 /\ \A i \in 1..Len(cs) : LowChar(cs[i]) \in HexSet

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Contains(s, p) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p

Blank == {" ", "\t", "\n", "\r"}
RECURSIVE LStrip(_)
LStrip(cs) == IF Len(cs) > 0 /\ cs[1] \in Blank THEN LStrip(Tail(cs)) ELSE cs
RECURSIVE RStrip(_)
RStrip(cs) == IF Len(cs) > 0 /\ cs[Len(cs)] \in Blank THEN RStrip(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs
Strip(cs) == LStrip(RStrip(cs))

\* first position >= i holding character c, or 0
RECURSIVE Find(_, _, _)
Find(cs, c, i) == IF i > Len(cs) THEN 0 ELSE IF cs[i] = c THEN i ELSE Find(cs, c, i + 1)

RECURSIVE SplitBy(_, _)
SplitBy(cs, c) == LET k == Find(cs, c, 1) IN
  IF k = 0 THEN <<cs>> ELSE <<SubSeq(cs, 1, k - 1)>> \o SplitBy(SubSeq(cs, k + 1, Len(cs)), c)

RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                    ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)

RECURSIVE Concat(_)
Concat(ss) == IF Len(ss) = 0 THEN <<>> ELSE ss[1] \o Concat(Tail(ss))

RECURSIVE SumSeq(_)
SumSeq(s) == IF Len(s) = 0 THEN 0 ELSE s[1] + SumSeq(Tail(s))

Range(f) == {f[x] : x \in DOMAIN f}
Has(r, f) == f \in DOMAIN r
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
=============================================================================
