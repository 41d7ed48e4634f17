------------------------------ MODULE EfiVars ------------------------------
(***************************************************************************)
(* UEFI variables (os/uefivariablesupport): the library on top of efivarfs *)
(* or of the firmware calls of Windows (win).  The file system f: there,   *)
(* whether it is mounted (the host has UEFI variables); sudo, whether the  *)
(* immutable flag can be cleared; prot, whether new variables get the      *)
(* flag; vars, a set of [n, g, a, d, imm]: name as UTF-16 units, GUID in   *)
(* lower case, attributes, data, flag.                                     *)
(* One write to a file is one SetVariable: attributes and data; no data or *)
(* no attributes delete; other attributes than the variable has are an     *)
(* error; the append attribute appends.                                    *)
(***************************************************************************)
EXTENDS Text, Bytes

Append64 == 64
Of(f, n, g) == {v \in f.vars : v.n = n /\ v.g = Lower(g)}
The(S) == CHOOSE v \in S : TRUE
NonVolatileBsRt == 7
NotFound == 203

\* ---- what the file system does with a write ---------------------------------------------------
Base(a) == IF a >= Append64 THEN a - Append64 ELSE a
Written(f, n, g, a, d) ==
  LET E == Of(f, n, g)  rest == f.vars \ E
      new(x, imm) == rest \cup {[n |-> n, g |-> Lower(g), a |-> Base(a), d |-> x, imm |-> imm]} IN
  IF d = <<>> \/ a = 0 THEN [ok |-> E # {}, f |-> [f EXCEPT !.vars = rest]]
  ELSE IF E = {} THEN [ok |-> TRUE, f |-> [f EXCEPT !.vars = new(d, f.prot)]]
  ELSE IF Base(a) # The(E).a THEN [ok |-> FALSE, f |-> f]
  ELSE [ok |-> TRUE, f |-> [f EXCEPT !.vars = new(IF a >= Append64 THEN The(E).d \o d ELSE d, FALSE)]]

\* ---- the library ---------------------------------------------------------------------------------
\* r: <<"ok", data>>, <<"missing">>; a warning is logged for unusual attributes
Get(f, n, g) == IF f.win /\ ~f.there THEN <<"error">> ELSE IF ~f.there \/ Of(f, n, g) = {} THEN <<"missing">> ELSE <<"ok", The(Of(f, n, g)).d>>
Unusual(f, n, g) == IF f.win THEN ~f.there ELSE f.there /\ Of(f, n, g) # {} /\ The(Of(f, n, g)).a # NonVolatileBsRt
\* a: <<>> when no attributes are given; valid: the attributes fit 32 bits and the data are bytes
Protected(f, n, g) == Of(f, n, g) # {} /\ The(Of(f, n, g)).imm /\ ~f.sudo
\* Windows: one call, whose answer is handed on; nothing is raised
WinSet(f, n, g, a, d) == LET w == Written(f, n, g, IF a = <<>> THEN NonVolatileBsRt ELSE a[1], d) IN
                         IF f.there /\ w.ok THEN [r |-> <<"set">>, f |-> w.f] ELSE [r |-> <<"not set">>, f |-> f]
Set(f, n, g, a, d, valid) ==
  IF f.win THEN WinSet(f, n, g, a, d)
  ELSE IF ~valid \/ ~f.there \/ Protected(f, n, g) THEN [r |-> <<"raise">>, f |-> f]
  ELSE LET w == Written(f, n, g, IF a = <<>> THEN NonVolatileBsRt ELSE a[1], d) IN
       IF w.ok THEN [r |-> <<"set">>, f |-> w.f] ELSE [r |-> <<"raise">>, f |-> f]
Delete(f, n, g) ==
  IF f.win THEN WinSet(f, n, g, <<>>, <<>>)
  ELSE IF ~f.there \/ Of(f, n, g) = {} THEN [r |-> <<"not set">>, f |-> f]
  ELSE IF Protected(f, n, g) THEN [r |-> <<"raise">>, f |-> f]
  ELSE [r |-> <<"set">>, f |-> [f EXCEPT !.vars = @ \ Of(f, n, g)]]

\* ---- the list of all names ---------------------------------------------------------------------
HexAt(cs, i) == 16 * HexVal[LowChar(cs[i])] + HexVal[LowChar(cs[i + 1])]
GuidBytes(g) == LET c == Chars(g) IN [i \in 1..16 |-> HexAt(c, <<7, 5, 3, 1, 12, 10, 17, 15, 20, 22, 25, 27, 29, 31, 33, 35>>[i])]
Units(n) == Cat([i \in 1..Len(n) |-> LEn(n[i], 2)])
Entry(v) == LEn(20 + 2 * Len(v.n), 4) \o GuidBytes(v.g) \o Units(v.n)
\* what Windows packs: the name ends with NUL, entries are padded to four bytes
Zeros(n) == [i \in 1..n |-> 0]
WinEntry(v) == LET n == 22 + (2 * Len(v.n))  p == (4 - (n % 4)) % 4 IN LEn(n + p, 4) \o GuidBytes(v.g) \o Units(v.n) \o Zeros(2 + p)
RECURSIVE Split(_)
\* the entries of the packed list, <<>> entry for what is no entry
Split(b) == IF b = <<>> THEN <<>>
            ELSE IF Len(b) < 20 THEN <<<<>>>>
            ELSE LET n == RdLE(b, 1, 4) IN IF n < 20 \/ n > Len(b) THEN <<<<>>>> ELSE <<SubSeq(b, 1, n)>> \o Split(From(b, n + 1))
\* strange: whether there are files that are no variables
NamesRight(f, strange, r, b) ==
  IF ~f.there THEN r = IF f.win THEN "error" ELSE "missing"
  ELSE IF strange THEN r = "raise"
  ELSE r = "ok" /\ LET e == Split(b) IN Len(e) = Cardinality(f.vars) /\ {e[i] : i \in 1..Len(e)} = {IF f.win THEN WinEntry(v) ELSE Entry(v) : v \in f.vars}
=============================================================================
