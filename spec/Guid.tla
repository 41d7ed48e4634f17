-------------------------------- MODULE Guid --------------------------------
(***************************************************************************)
(* GUID spellings.  A GUID is 32 lower case hex digits.                     *)
(***************************************************************************)
EXTENDS Text, TLC
Dashes == {9, 14, 19, 24}
RECURSIVE TrimSet(_, _)
TrimSet(cs, S) == IF Len(cs) > 0 /\ cs[1] \in S THEN TrimSet(Tail(cs), S)
                  ELSE IF Len(cs) > 0 /\ cs[Len(cs)] \in S THEN TrimSet(SubSeq(cs, 1, Len(cs) - 1), S) ELSE cs
IsHexC(c) == LowChar(c) \in HexSet
RegBody(cs) == TrimSet(Strip(cs), {" ", "{", "}"})
IsReg(cs) == LET b == RegBody(cs) IN Len(b) = 36 /\ \A i \in 1..36 : IF i \in Dashes THEN b[i] = "-" ELSE IsHexC(b[i])
RegValue(cs) == LET b == RegBody(cs) IN SelectSeq(LowChars(b), LAMBDA c : c # "-")

\* C structure: braces, commas, and 0x numbers of bounded width
Shape == <<"{", 8, ",", 4, ",", 4, ",", "{">> \o Concat([i \in 1..8 |-> IF i = 1 THEN <<2>> ELSE <<",", 2>>]) \o <<"}", "}">>
ShapeNum == [i \in 1..Len(Shape) |-> i \in ({2, 4, 6} \cup {9 + 2 * j : j \in 0..7})]
SkipBlank(cs, i) == CHOOSE j \in i..(Len(cs) + 1) : (j = Len(cs) + 1 \/ cs[j] \notin Blank) /\ \A k \in i..(j - 1) : cs[k] \in Blank
HexEnd(cs, i) == CHOOSE j \in i..(Len(cs) + 1) : (j = Len(cs) + 1 \/ ~IsHexC(cs[j])) /\ \A k \in i..(j - 1) : IsHexC(cs[k])
Pad0(cs, w) == [i \in 1..(w - Len(cs)) |-> "0"] \o cs
\* returns <<TRUE, digits>> or <<FALSE>>
RECURSIVE ScanC(_, _, _, _)
ScanC(cs, i0, e, acc) ==
  LET i == IF e = 1 THEN i0 ELSE SkipBlank(cs, i0) IN
  IF e > Len(Shape) THEN IF i = Len(cs) + 1 THEN <<TRUE, acc>> ELSE <<FALSE>>
  ELSE IF i > Len(cs) THEN <<FALSE>>
  ELSE IF ~ShapeNum[e] THEN IF cs[i] = Shape[e] THEN ScanC(cs, i + 1, e + 1, acc) ELSE <<FALSE>>
  ELSE IF ~(cs[i] = "0" /\ i < Len(cs) /\ cs[i + 1] \in {"x", "X"}) THEN <<FALSE>>
  ELSE LET j == HexEnd(cs, i + 2) n == j - (i + 2) IN
       IF n < 1 \/ n > Shape[e] THEN <<FALSE>>
       ELSE ScanC(cs, j, e + 1, acc \o Pad0(LowChars(SubSeq(cs, i + 2, j - 1)), Shape[e]))
CScan(cs) == ScanC(cs, 1, 1, <<>>)
IsC(cs) == CScan(Strip(cs))[1]
CValue(cs) == CScan(Strip(cs))[2]

Sub(v, a, b) == SubSeq(v, a, b)
RegText(v) == Sub(v, 1, 8) \o <<"-">> \o Sub(v, 9, 12) \o <<"-">> \o Sub(v, 13, 16) \o <<"-">> \o Sub(v, 17, 20) \o <<"-">> \o Sub(v, 21, 32)
CText(v) == Chars("{0x") \o Sub(v, 1, 8) \o Chars(", 0x") \o Sub(v, 9, 12) \o Chars(", 0x") \o Sub(v, 13, 16) \o Chars(", {")
            \o Concat([k \in 1..8 |-> (IF k = 1 THEN Chars("0x") ELSE Chars(", 0x")) \o Sub(v, 15 + 2 * k, 16 + 2 * k)]) \o Chars("}}")
\* the value of any accepted spelling
GuidOf(cs) == IF IsC(cs) THEN CValue(cs) ELSE IF IsReg(cs) THEN RegValue(cs) ELSE <<>>
=============================================================================
