------------------------------- MODULE GuidMC -------------------------------
(* Spelling a GUID field by field, with every choice of prefix case, digit  *)
(* case, leading zeros and spacing per field class.                         *)
EXTENDS Guid, Json
CONSTANT Vals, Points
VARIABLES val, pos, txt, style
vars == <<val, pos, txt, style>>
Values == <<Chars("d3b36f2cd55111d49a460090273fc14d"), Chars("00000001000000020000000a0b000c0f"), Chars("00000000000000000000000000000000"),
            Chars("0a0000b00c000d00ffff000102030405")>>
Styles == [up : BOOLEAN, big : BOOLEAN, short : BOOLEAN, sp : {"", " ", "  "}]
RECURSIVE DropZeros(_)
DropZeros(cs) == IF Len(cs) > 1 /\ cs[1] = "0" THEN DropZeros(Tail(cs)) ELSE cs
FieldStart(e) == CASE e = 2 -> 1 [] e = 4 -> 9 [] e = 6 -> 13 [] OTHER -> 17 + (e - 9)
FieldText(v, e, st) ==
  LET raw == Sub(v, FieldStart(e), FieldStart(e) + Shape[e] - 1)
      d == IF st.short THEN DropZeros(raw) ELSE raw IN
  <<"0", IF st.up THEN "X" ELSE "x">> \o (IF st.big THEN UpChars(d) ELSE d)
Init == val \in {Values[i] : i \in Vals} /\ pos = 1 /\ txt = <<>> /\ style \in Styles
\* the style may change once, so mixed spellings occur
Next == /\ pos <= Len(Shape)
        /\ pos' = pos + 1
        /\ txt' = txt \o (IF pos > 1 /\ style.sp # "" THEN Chars(style.sp) ELSE <<>>)
                     \o (IF ShapeNum[pos] THEN FieldText(val, pos, style) ELSE <<Shape[pos]>>)
        /\ style' \in (IF pos \in Points THEN Styles ELSE {style})
        /\ UNCHANGED val
Spec == Init /\ [][Next]_vars
Done == pos = Len(Shape) + 1
ReadsBack == Done => /\ IsC(txt) /\ CValue(txt) = val /\ ~IsReg(txt)
RegReadsBack == /\ IsReg(RegText(val)) /\ RegValue(RegText(val)) = val /\ ~IsC(RegText(val))
                /\ IsC(CText(val)) /\ CValue(CText(val)) = val
Prefixes == ~Done => ~IsC(txt) /\ ~IsReg(txt)
Emit == (Done /\ style.sp # "  ") => PrintT("@@" \o ToJson(txt))
=============================================================================
