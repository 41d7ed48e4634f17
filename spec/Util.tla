-------------------------------- MODULE Util --------------------------------
(***************************************************************************)
(* Helpers that turn data into text and choose: hex dumps, C arrays,       *)
(* versions, classes of a module, the host.  Bytes are 0..255.             *)
(***************************************************************************)
EXTENDS Text, TLC

HexDigit(n) == HexSeq[n + 1]
RECURSIVE HexOf(_)
HexOf(n) == IF n < 16 THEN HexDigit(n) ELSE HexOf(n \div 16) \o HexDigit(n % 16)
Hex2(n) == "0x" \o (IF n < 16 THEN "0" \o HexOf(n) ELSE HexOf(n))
Printable == Chars(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~")
Ascii(b) == IF b >= 32 /\ b <= 126 THEN Printable[b - 31] ELSE "."
RECURSIVE AsciiOf(_)
AsciiOf(bs) == IF Len(bs) = 0 THEN "" ELSE Ascii(bs[1]) \o AsciiOf(Tail(bs))
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)

\* rows of a byte string
Rows(bs, w) == [r \in 1..((Len(bs) + w - 1) \div w) |-> SubSeq(bs, (r - 1) * w + 1, Min2(r * w, Len(bs)))]

\* ---- hex dump: o = [start, ascii, offset, sep] ---------------------------------
RECURSIVE HexCells(_, _, _)
HexCells(row, i, sep) == IF i > Len(row) THEN "" ELSE (IF i = 9 /\ sep THEN " -" ELSE "") \o " " \o Hex2(row[i]) \o HexCells(row, i + 1, sep)
DumpRow(row, r, o) ==
  LET cells == HexCells(row, 1, o.sep) IN
  (IF o.offset THEN Hex2((r - 1) * 16 + o.start) \o " -" ELSE "") \o cells
  \o (IF o.ascii THEN Spaces((IF o.sep THEN 82 ELSE 80) - Len(cells)) \o " " \o AsciiOf(row) \o " " ELSE "")
Dump(bs, o) == LET rs == Rows(bs, 16) IN [r \in 1..Len(rs) |-> DumpRow(rs[r], r, o)]

\* ---- C arrays ------------------------------------------------------------------
\* [type, name, len, rows, comments, tail]: what the declaration says
CArray(bs, o) ==
  LET rs == Rows(bs, o.row) IN
  [type |-> o.type, name |-> o.name, len |-> IF o.len THEN ToString(Len(bs)) ELSE "", bytes |-> bs, widths |-> [i \in 1..Len(rs) |-> Len(rs[i])],
   indents |-> [i \in 1..Len(rs) |-> o.indent],
   comments |-> IF o.ascii THEN [i \in 1..Len(rs) |-> AsciiOf(rs[i])] ELSE <<>>,
   tail |-> IF o.lname = "" THEN "" ELSE o.ltype \o " " \o o.lname \o " = sizeof " \o o.name \o ";"]

\* ---- versions: sequences of numbers, missing parts are zero ------------------------
Part(v, i) == IF i <= Len(v) THEN v[i] ELSE 0
Cmp(a, b) == LET n == Max2(Len(a), Len(b)) D == {i \in 1..n : Part(a, i) # Part(b, i)} IN
  IF D = {} THEN 0 ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN IF Part(a, i) > Part(b, i) THEN 1 ELSE -1

\* ---- classes: cs is a sequence of [n name, b bases]; the wanted base is "Base" ------
RECURSIVE Above(_, _)
Above(cs, n) == IF n = "Base" THEN {"Base"}
                ELSE LET H == {i \in 1..Len(cs) : cs[i].n = n} IN
                     IF H = {} THEN {n} ELSE {n} \cup UNION {Above(cs, b) : b \in Range(cs[CHOOSE i \in H : TRUE].b)}
Derived(cs) == {cs[i].n : i \in {i \in 1..Len(cs) : "Base" \in Above(cs, cs[i].n)}}
Located(cs) == LET S == Derived(cs) M == {x \in S : S \subseteq Above(cs, x)} IN
  IF S = {} THEN "none" ELSE IF M = {} THEN "raise" ELSE CHOOSE x \in M : TRUE

\* ---- host ------------------------------------------------------------------------
Host(sys, mach) ==
  LET m == Upper(mach)
      arch == IF Contains(m, "X86") \/ Contains(m, "AMD") \/ Contains(m, "INTEL") THEN "x86"
              ELSE IF Contains(m, "ARM") \/ Contains(m, "AARCH") THEN "ARM" ELSE IF Contains(m, "LOONGARCH") THEN "LOONGARCH" ELSE ""
      bit == IF Contains(m, "32") THEN "32" ELSE IF Contains(m, "64") THEN "64" ELSE "" IN
  IF arch = "" \/ bit = "" THEN <<>> ELSE <<IF sys = "Darwin" THEN "MacOs" ELSE sys, arch, bit>>
=============================================================================
