------------------------------- MODULE Policy ------------------------------
(***************************************************************************)
(* Firmware policies (rules of a key and a value, serialized into a rule   *)
(* list and a value table) and variable policy entries.                    *)
(* A rule: [root 4 bytes, sub UTF-16 units, name UTF-16 units, t, v]; t is *)
(* the value's type: 0 string (v UTF-16 units), 2 DWORD, 5 QWORD (v bytes),*)
(* any other type is shown without a value.                                *)
(* A policy: [fmt, pv (4), pub (16), r1, opt (4), r2, rules].              *)
(***************************************************************************)
EXTENDS Bytes, TLC
AV == INSTANCE AuthVar
HeadSize == 32
RuleSize == 16
Publisher == <<8, 248, 230, 90, 132, 131, 185, 78, 162, 58, 12, 204, 16, 147, 227, 221>>
Fresh == [fmt |-> 2, pv |-> <<1, 0, 0, 0>>, pub |-> Publisher, r1 |-> <<>>, opt |-> <<0, 0, 0, 0>>, r2 |-> <<>>, rules |-> <<>>]

\* adding a rule that is there already changes nothing
Has(p, r) == \E i \in 1..Len(p.rules) : p.rules[i] = r
AddRule(p, r) == IF Has(p, r) THEN p ELSE [p EXCEPT !.rules = Append(@, r)]
RootKey == <<0, 0, 16, 239>>
Ascii == [UEFI |-> <<85, 69, 70, 73>>, Policy |-> <<80, 111, 108, 105, 99, 121>>, Target |-> <<84, 97, 114, 103, 101, 116>>, Nonce |-> <<78, 111, 110, 99, 101>>]
DeviceRule(v) == [root |-> RootKey, sub |-> Ascii.UEFI, name |-> Ascii.Policy, t |-> 5, v |-> v]
TargetRule(n, v) == [root |-> RootKey, sub |-> Ascii.Target, name |-> n, t |-> IF n = Ascii.Nonce THEN 5 ELSE 0, v |-> v]
RECURSIVE AddTarget(_, _)
AddTarget(p, kv) == IF kv = <<>> THEN p ELSE AddTarget(AddRule(p, TargetRule(kv[1].n, kv[1].v)), Tail(kv))

Units(u) == Cat([i \in 1..Len(u) |-> LEn(u[i], 2)])
EncStr(u) == LEn(2 * Len(u), 2) \o Units(u)
EncVal(r) == LEn(r.t, 2) \o (IF r.t = 0 THEN EncStr(r.v) \o <<0, 0>> ELSE r.v)
EncTable(r) == EncStr(r.sub) \o EncStr(r.name) \o EncVal(r)
RECURSIVE EncRules(_, _)
EncRules(rs, o) == IF rs = <<>> THEN <<>>
  ELSE LET a == o + Len(EncStr(rs[1].sub)) b == a + Len(EncStr(rs[1].name)) IN
       rs[1].root \o LEn(o, 4) \o LEn(a, 4) \o LEn(b, 4) \o EncRules(Tail(rs), b + Len(EncVal(rs[1])))
EncHead(p) == LEn(p.fmt, 2) \o p.pv \o p.pub \o LEn(Len(p.r1), 2) \o p.opt \o LEn(Len(p.r2), 2) \o LEn(Len(p.rules), 2)
Enc(p) == EncHead(p) \o EncRules(p.rules, 0) \o Cat([i \in 1..Len(p.rules) |-> EncTable(p.rules[i])])
Known(t) == t \in {0, 2, 5}
\* the reserved arrays and unknown values are not kept when serializing
CanEnc(p) == p.r1 = <<>> /\ p.r2 = <<>> /\ \A i \in 1..Len(p.rules) : Known(p.rules[i].t)

High(u) == u >= 55296 /\ u < 56320
Low(u) == u >= 56320 /\ u < 57344
WellFormed(u) == \A i \in 1..Len(u) : /\ High(u[i]) => (i < Len(u) /\ Low(u[i + 1]))
                                      /\ Low(u[i]) => (i > 1 /\ High(u[i - 1]))
AsUnits(b) == [i \in 1..(Len(b) \div 2) |-> b[2 * i - 1] + 256 * b[2 * i]]
\* a string at offset o of b
Str(b, o) ==
  IF o + 2 > Len(b) THEN [ok |-> FALSE, u |-> <<>>]
  ELSE LET n == RdLE(b, o + 1, 2) u == AsUnits(At(b, o + 3, n)) IN
       IF n % 2 # 0 \/ o + 2 + n > Len(b) THEN [ok |-> FALSE, u |-> <<>>] ELSE [ok |-> WellFormed(u), u |-> u]
Val(b, o) ==
  IF o + 2 > Len(b) THEN [ok |-> FALSE]
  ELSE LET t == RdLE(b, o + 1, 2) IN
       CASE t = 0 -> LET s == Str(b, o + 2) IN IF ~s.ok THEN [ok |-> FALSE] ELSE [ok |-> s.ok, t |-> 0, v |-> s.u]
         [] t = 2 -> IF o + 6 > Len(b) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, t |-> 2, v |-> At(b, o + 3, 4)]
         [] t = 5 -> IF o + 10 > Len(b) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, t |-> 5, v |-> At(b, o + 3, 8)]
         [] OTHER -> [ok |-> TRUE, t |-> t, v |-> <<>>]
No == [ok |-> FALSE]
Dec(b) ==
  IF Len(b) < HeadSize \/ RdLE(b, 1, 2) > 2 THEN No
  ELSE LET n1 == RdLE(b, 23, 2) h == HeadSize + 16 * n1 IN
       IF h > Len(b) THEN No
       ELSE LET n2 == RdLE(b, h - 3, 2) n == RdLE(b, h - 1, 2) at == h + 12 * n2 vt == at + RuleSize * n IN
            IF vt > Len(b) THEN No
            ELSE LET tab == From(b, vt + 1)
                     O(i, k) == RdLE(b, at + RuleSize * (i - 1) + 4 * k + 1, 4)
                     R == [i \in 1..n |-> [s |-> Str(tab, O(i, 1)), m |-> Str(tab, O(i, 2)), v |-> Val(tab, O(i, 3))]] IN
                 IF \E i \in 1..n : ~R[i].s.ok \/ ~R[i].m.ok \/ ~R[i].v.ok THEN No
                 ELSE [ok |-> TRUE, p |-> [fmt |-> RdLE(b, 1, 2), pv |-> At(b, 3, 4), pub |-> At(b, 7, 16), r1 |-> [i \in 1..n1 |-> At(b, 25 + 16 * (i - 1), 16)],
                        opt |-> At(b, h - 7, 4), r2 |-> [i \in 1..n2 |-> At(b, h + 12 * (i - 1) + 1, 12)],
                        rules |-> [i \in 1..n |-> [root |-> At(b, at + RuleSize * (i - 1) + 1, 4), sub |-> R[i].s.u, name |-> R[i].m.u, t |-> R[i].v.t, v |-> R[i].v.v]]]]

----------------------------------------------------------------------------
\* variable policies: a lock on the state of another variable
LockHead == 18
EntryHead == 44
Ends(u) == {i \in 1..Len(u) : u[i] = 0}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
DecLock(b) ==
  IF Len(b) < LockHead + 4 THEN No
  ELSE LET u == AsUnits(From(b, LockHead + 1)) IN
       IF Ends(u) = {} THEN No
       ELSE LET n == First(Ends(u)) name == SubSeq(u, 1, n - 1) IN
            IF ~WellFormed(name) THEN No
            ELSE [ok |-> TRUE, l |-> [ns |-> At(b, 1, 16), val |-> b[17], name |-> name], rest |-> From(b, LockHead + 2 * n + 1)]
\* names are padded with NULs at the end
RECURSIVE Trim(_)
Trim(u) == IF u # <<>> /\ u[Len(u)] = 0 THEN Trim(SubSeq(u, 1, Len(u) - 1)) ELSE u
DecEntry(b) ==
  IF Len(b) < EntryHead THEN No
  ELSE LET size == RdLE(b, 5, 2) off == RdLE(b, 7, 2) type == b[41] IN
       IF At(b, 1, 4) # <<0, 0, 1, 0>> \/ type > 3 \/ off < EntryHead \/ off > size \/ size > Len(b) \/ (size - off) % 2 # 0 THEN No
       ELSE LET name == AsUnits(At(b, off + 1, size - off)) lock == IF type = 3 THEN DecLock(At(b, EntryHead + 1, off - EntryHead)) ELSE [ok |-> TRUE] IN
            IF ~lock.ok \/ ~WellFormed(name) THEN No
            ELSE [ok |-> TRUE, rest |-> From(b, size + 1),
                  e |-> [ns |-> At(b, 9, 16), min |-> At(b, 25, 4), max |-> At(b, 29, 4), must |-> At(b, 33, 4), cant |-> At(b, 37, 4), type |-> type,
                         lock |-> IF type = 3 THEN <<lock.l>> ELSE <<>>, named |-> off # size, name |-> Trim(name)]]
\* names that begin with NUL or a byte order mark are not decided
Odd(u) == u # <<>> /\ u[1] \in {0, 65279, 65534}
Decided(b) == LET r == DecEntry(b) IN ~r.ok \/ (~Odd(r.e.name) /\ (r.e.type = 3 => ~Odd(r.e.lock[1].name)))
EncLock(l) == l.ns \o <<l.val, 0>> \o Units(l.name) \o <<0, 0>>
EncEntry(e) ==
  LET lock == IF e.type = 3 THEN EncLock(e.lock[1]) ELSE <<>>
      name == IF e.named THEN Units(e.name) \o <<0, 0>> ELSE <<>>
      off == EntryHead + Len(lock) IN
  <<0, 0, 1, 0>> \o LEn(off + Len(name), 2) \o LEn(off, 2) \o e.ns \o e.min \o e.max \o e.must \o e.cant \o <<e.type, 0, 0, 0>> \o lock \o name
\* the row of a table
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Hex2(x) == Digit[(x \div 16) + 1] \o Digit[(x % 16) + 1]
Hex8(b) == "0x" \o Hex2(b[4]) \o Hex2(b[3]) \o Hex2(b[2]) \o Hex2(b[1])
LockName == <<"NONE", "NOW", "ON_CREATE", "ON_VAR_STATE">>
Row(e) == [ns |-> e.ns, name |-> e.name, type |-> LockName[e.type + 1],
           lns |-> IF e.type = 3 THEN e.lock[1].ns ELSE <<>>, lname |-> IF e.type = 3 THEN e.lock[1].name ELSE <<>>, lval |-> IF e.type = 3 THEN e.lock[1].val ELSE -1,
           min |-> Hex8(e.min), max |-> Hex8(e.max), must |-> AV!AttrShown(e.must[1], AV!AttrLong), cant |-> AV!AttrShown(e.cant[1], AV!AttrLong)]
=============================================================================
