----------------------------- MODULE CapsuleMC -----------------------------
(* Capsules put together from parts, and then every cut of them and every damaged byte outside of plain data. *)
EXTENDS Capsule, Json
CONSTANT Deep
VARIABLES doc
P(e, d) == [fw |-> <<1, 0, 0, 0>>, low |-> <<2, 0, 0, 128>>, ext |-> Rep(5, e), data |-> Rep(9, d)]
A(c, in) == [mc |-> <<1, 2, 3, 4, 5, 6, 7, 8>>, cert |-> Rep(48, c), in |-> in, raw |-> <<>>]
I(in, v) == [ver |-> <<2, 0, 0, 0>>, type |-> [k \in 1..16 |-> k], idx |-> 1, hw |-> Rep(17, 8), in |-> in, raw |-> <<>>, vendor |-> Rep(6, v)]
F(ds, is) == [ver |-> <<1, 0, 0, 0>>, drivers |-> ds, images |-> is]
C(e, in) == [guid |-> FmpGuid, oem |-> 258, fl |-> 5, ext |-> Rep(4, e), in |-> in, raw |-> <<>>]
Pays == {P(e, d) : e \in {0, 4}, d \in {0, 1}}
Auths == {A(c, in) : c \in {0, 3}, in \in {<<>>} \cup {<<p>> : p \in Pays}}
Imgs == {I(in, v) : in \in {<<>>} \cup {<<a>> : a \in {A(0, <<>>), A(1, <<P(0, 1)>>), A(2, <<P(4, 0)>>)}}, v \in {0, 3}}
SomeImgs == {I(<<A(1, <<P(0, 1)>>)>>, 3), I(<<>>, 0)}
DriverLists == {<<>>, <<<<1>>>>, <<<<1, 2>>, <<3>>>>}
Fmps == {F(ds, is) : ds \in DriverLists, is \in {<<>>} \cup {<<i>> : i \in Imgs} \cup {<<i, j>> : i, j \in SomeImgs}}
Caps == {C(e, in) : e \in {0, 8}, in \in {<<>>} \cup {<<f>> : f \in {g \in Fmps : Len(g.images) < 2}}} \cup {[C(4, <<>>) EXCEPT !.guid = Rep(1, 16), !.raw = <<7, 7>>]}
FullAuth == A(2, <<P(4, 1)>>)
FullImg == I(<<A(1, <<P(0, 1)>>)>>, 2)
FullFmp == F(<<<<1, 2>>, <<3>>>>, <<FullImg, I(<<>>, 1)>>)
FullCap == C(4, <<F(<<<<1>>>>, <<FullImg>>)>>)
Full == <<[lvl |-> "pay", t |-> P(4, 2)], [lvl |-> "auth", t |-> FullAuth], [lvl |-> "img", t |-> FullImg], [lvl |-> "fmp", t |-> FullFmp], [lvl |-> "cap", t |-> FullCap]>>
Vals(x) == (IF Deep THEN {0, 1, 2, 15, 16, 17, 31, 32, 33, 40, 255, (x + 1) % 256, (x + 255) % 256, (x + 128) % 256} ELSE {0, 255, (x + 1) % 256, (x + 255) % 256}) \ {x}
Built == {[k |-> "build", lvl |-> "pay", t |-> t] : t \in Pays} \cup {[k |-> "build", lvl |-> "auth", t |-> t] : t \in Auths} \cup {[k |-> "build", lvl |-> "img", t |-> t] : t \in Imgs}
         \cup {[k |-> "build", lvl |-> "fmp", t |-> t] : t \in Fmps} \cup {[k |-> "build", lvl |-> "cap", t |-> t] : t \in Caps}
VARIABLE n
Init == \/ doc \in Built /\ n = 0
        \/ n \in 1..5 /\ doc = [k |-> "decode", lvl |-> Full[n].lvl, b |-> Enc(Full[n].lvl, Full[n].t)]
\* one cut or one damaged byte
Next == /\ n > 0 /\ n' = 0
        /\ \/ \E i \in 0..Len(doc.b) - 1 : doc' = [doc EXCEPT !.b = SubSeq(doc.b, 1, i)]
           \/ \E i \in 1..Len(doc.b) : \E x \in Vals(doc.b[i]) : doc' = [doc EXCEPT !.b[i] = x]
Spec == Init /\ [][Next]_<<doc, n>>
RoundTrip == doc.k = "build" => LET r == Dec(doc.lvl, Enc(doc.lvl, doc.t)) IN r.ok /\ r.t = doc.t
\* whatever is accepted encodes to as many bytes and is accepted again
Stable == doc.k = "decode" => LET r == Dec(doc.lvl, doc.b) IN r.ok => LET q == Enc(doc.lvl, r.t) IN Dec(doc.lvl, q).ok /\ Dec(doc.lvl, q).t = r.t /\ Len(q) <= Len(doc.b)
\* a cut capsule or image is never accepted
Cuts == (doc.k = "decode" /\ doc.lvl \in {"cap", "img"} /\ Len(doc.b) < Len(Enc(doc.lvl, IF doc.lvl = "cap" THEN FullCap ELSE FullImg))) => ~Dec(doc.lvl, doc.b).ok
Emit == PrintT("@@" \o ToJson(IF doc.k = "build" THEN [k |-> "build", lvl |-> doc.lvl, t |-> doc.t, b |-> Enc(doc.lvl, doc.t)] ELSE doc))
=============================================================================
