----------------------------- MODULE FirmwareMC -----------------------------
(* Short histories of loads and changes of every structure, variables of every small shape, images around their limits, every attribute set and status code. *)
EXTENDS Firmware, Json, TLC
CONSTANTS MaxOps, MaxVarOps, Deep
VARIABLES doc, obj
vars == <<doc, obj>>
Lost == [none |-> TRUE]
\* patterns
Fill(n, s) == [i \in 1..n |-> (i * 7 + s) % 256]
SigOf(t, k) == CASE t = "fv" -> FvSignature [] t = "ftwhead" -> FtwGuid [] t = "vsh" -> IF k = 1 THEN VarGuid ELSE AuthVarGuid [] OTHER -> <<>>
Sample(t, k) ==
  LET l == Layout(t) IN
  Cat([i \in 1..Len(l) |-> IF l[i][1] = "Signature" THEN SigOf(t, k) ELSE IF k = 1 THEN Fill(l[i][2], i) ELSE Rep(255 - i, l[i][2])])
Bad(t) == [Sample(t, 1) EXCEPT ![IF t = "fv" THEN 44 ELSE 16] = (@ + 1) % 256]
Loads(t) == {<<Sample(t, 1), 0>>, <<Fill(3, 9) \o Sample(t, 2) \o <<1, 2>>, 3>>, <<Bad(t), 0>>, <<SubSeq(Sample(t, 2), 1, Width(t) - 1), 0>>}
Vals(w) == {Rep(255, w), [i \in 1..w |-> IF i = 1 THEN 1 ELSE 0]}
Sets(t) == UNION {{[op |-> "set", f |-> Layout(t)[i][1], v |-> v] : v \in Vals(Layout(t)[i][2])} : i \in {i \in 1..Len(Layout(t)) : Layout(t)[i][1] # "Signature" \/ t = "vsh"}}
Guid == Fill(16, 100)
Names == {<<>>, <<65>>, <<97, 98, 99>>, <<233, 55357, 56832>>}
Datas == {<<>>, <<0>>, <<1, 2>>, <<255, 254, 253, 252, 251>>}
VarImages(t) ==
  LET v == SetData(SetName(NewVar(t, Guid), <<86, 97>>), <<9, 8, 7>>) b == VarBytes(v) w == Width(t) IN
  {<<b, 0>>, <<Fill(5, 1) \o b \o <<255>>, 5>>, <<[b EXCEPT ![1] = 255], 0>>, <<SubSeq(b, 1, Width(t) - 1), 0>>, <<[b EXCEPT ![4] = 77], 0>>, <<[b EXCEPT ![w - 23] = 7], 0>>}
Image(depth, n, slack, data, hs, ds, do) ==
  LET off == 54 + 4 * (IF depth \in DOMAIN Depths THEN (IF n > 0 THEN n ELSE Depths[depth]) ELSE 0) + slack IN
  LET o == IF off + do < 0 THEN 0 ELSE off + do IN
  <<66, 77>> \o LEn(Max2(off + data + ds, 0), 4) \o <<1, 2, 3, 4>> \o LEn(o, 4) \o LEn(hs, 4) \o Fill(4, 50) \o Fill(4, 60) \o <<1, 0>> \o LEn(depth, 2) \o Rep(0, 4) \o Fill(4, 70) \o Fill(4, 80) \o Fill(4, 90)
  \o LEn(n, 4) \o LEn(n, 4) \o Fill(Max2(off + data - 54, 0), 3)
Images == {Image(d, n, s, x, hs, ds, do) : d \in {1, 4, 24} \cup (IF Deep THEN {8} ELSE {}), n \in {0, 1, 3}, s \in {0, 2}, x \in {0, 5}, hs \in {39, 40, 41}, ds \in {-1, 0, 1}, do \in {-1, 0, 1}}
SomeImages == {Image(1, 0, 0, 4, 40, 0, 0), Image(24, 0, 0, 6, 40, 0, 0), Image(24, 3, 5, 0, 40, 0, 0), Image(4, 3, 1, 2, 40, 0, 0), Image(1, 0, 0, 4, 40, 0, -5), Image(1, 0, 0, 4, 40, 1, 0)}
AttrWords == {"AP", "nv", "BS", "EFI_VARIABLE_RUNTIME_ACCESS", "efi_variable_hardware_error_record", "XX", "", " AW ", "EFI_VARIABLE"}
Init == \/ obj = Lost /\ \E t \in Plain : doc = [kind |-> "plain", t |-> t, ops |-> <<>>]
        \/ \E t \in {"var", "authvar"} : obj = NewVar(t, Guid) /\ doc = [kind |-> "var", t |-> t, ops |-> <<[op |-> "newvar", g |-> Guid]>>]
        \/ obj = NewBmp /\ doc = [kind |-> "bmp", t |-> "bmp", ops |-> <<[op |-> "newbmp"]>>]
        \/ obj = Lost /\ \E b \in Images : doc = [kind |-> "one", t |-> "bmp", ops |-> <<[op |-> "loadbmp", b |-> b, off |-> 0]>>]
        \/ obj = Lost /\ \E n \in 0..255 : doc = [kind |-> "one", t |-> "attrs", ops |-> <<[op |-> "attrn", n |-> <<n, IF n % 3 = 0 THEN 1 ELSE 0, 0, IF n % 5 = 0 THEN 128 ELSE 0>>]>>]
        \/ obj = Lost /\ \E a, b, c \in AttrWords : doc = [kind |-> "one", t |-> "attrs", ops |-> <<[op |-> "attrs", s |-> a \o "," \o b \o "," \o c], [op |-> "attrs", s |-> a \o "," \o b], [op |-> "attrs", s |-> a]>>]
        \/ obj = Lost /\ \E w \in {4, 8}, e \in {0, 128}, n \in 0..40, z \in {0, 1} : doc = [kind |-> "one", t |-> "status", ops |-> <<[op |-> "status", b |-> [i \in 1..w |-> IF i = 1 THEN n ELSE IF i = w THEN e + z ELSE 0]]>>]
Do(o, x) == doc' = [doc EXCEPT !.ops = Append(@, o)] /\ obj' = x
Next ==
  \/ /\ doc.kind = "plain" /\ Len(doc.ops) < MaxOps
     /\ \/ \E l \in Loads(doc.t) : LET r == Load(doc.t, From(l[1], l[2] + 1)) IN Do([op |-> "load", b |-> l[1], off |-> l[2]], IF r.ok THEN [fs |-> r.fs] ELSE Lost)
        \/ ~Has(obj, "none") /\ \E s \in Sets(doc.t) : Do(s, [fs |-> [obj.fs EXCEPT ![Index(doc.t, s.f)] = s.v]])
  \/ /\ doc.kind = "var" /\ Len(doc.ops) < MaxVarOps
     /\ \/ \E l \in VarImages(doc.t) : LET r == LoadVar(doc.t, From(l[1], l[2] + 1)) IN Do([op |-> "loadvar", b |-> l[1], off |-> l[2]], IF r.r = "ok" THEN r.v ELSE Lost)
        \/ ~Has(obj, "none") /\ \E us \in Names : Do([op |-> "name", us |-> us], SetName(obj, us))
        \/ ~Has(obj, "none") /\ \E d \in Datas : Do([op |-> "data", d |-> d], SetData(obj, d))
  \/ /\ doc.kind = "bmp" /\ Len(doc.ops) < MaxVarOps
     /\ \E b \in SomeImages : LET r == Bmp(b) IN Do([op |-> "loadbmp", b |-> b, off |-> 0], IF r.ok THEN r.v ELSE Lost)
Spec == Init /\ [][Next]_vars
Known == ~Has(obj, "none")
PlainRound == (doc.kind = "plain" /\ Known /\ Signed(doc.t, obj.fs)) => LET r == Load(doc.t, Cat(obj.fs) \o <<7>>) IN r.ok /\ r.fs = obj.fs
VarRound == (doc.kind = "var" /\ Known /\ obj.named /\ obj.full) => LET r == LoadVar(doc.t, VarPadded(obj)) IN r.r = "ok" /\ r.v = obj
VarAligned == (doc.kind = "var" /\ Known /\ obj.named /\ obj.full) => /\ Len(VarPadded(obj)) % 4 = 0 /\ Len(VarPadded(obj)) = VarSize(obj) + VarPad(obj) /\ VarPad(obj) < 4
BmpRound == (doc.t = "bmp") => LET o == doc.ops[Len(doc.ops)] IN o.op = "loadbmp" => LET r == Bmp(o.b) IN r.ok => BmpBytes(r.v) = o.b
NewRound == (doc.kind = "bmp" /\ Len(doc.ops) = 1) => LET r == Bmp(BmpBytes(NewBmp)) IN r.ok /\ r.v = NewBmp
AttrRound == (doc.t = "attrs" /\ doc.ops[1].op = "attrn") => LET n == doc.ops[1].n[1] % 128 IN n > 0 => \A k \in {2, 3} : AttrOk(AttrText(n, k)) /\ AttrValue(AttrText(n, k)) = n
Ready == CASE doc.kind = "one" -> TRUE [] doc.kind = "plain" -> Len(doc.ops) = MaxOps \/ (Len(doc.ops) > 0 /\ ~Known) [] OTHER -> Len(doc.ops) = MaxVarOps
Emit == Ready => PrintT("@@" \o ToJson(doc))
=============================================================================
