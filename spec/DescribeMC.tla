----------------------------- MODULE DescribeMC ----------------------------
(* One of every structure, then every cut of it and every damaged byte: what its description states, and that nothing is left out. *)
EXTENDS Describe, Json
CONSTANT Deep
VARIABLES doc, n
A(i) == AV!TypeGuid[i]
\* the smallest signed data, alone or wrapped
Sd(v) == <<48, 20, 2, 1, v, 49, 0, 48, 11, 6, 9, 42, 134, 72, 134, 247, 13, 1, 7, 1, 49, 0>>
Ci(v) == <<48, 35, 6, 9, 42, 134, 72, 134, 247, 13, 1, 7, 2, 160, 22>> \o Sd(v)
Own == [k \in 1..16 |-> k]
Dig(x) == Rep(x, 32)
List(t, sz, es) == A(t) \o LEn(28 + (sz * Len(es)), 4) \o Rep(0, 4) \o LEn(sz, 4) \o Cat(es)
Lists == {List("x509", 19, <<Own \o <<7, 8, 9>>>>), List("sha256", 48, <<Own \o Dig(200)>>), List("sha256", 48, <<Own \o Dig(1), Rep(0, 16) \o Dig(255)>>), List("x509", 0, <<>>), List("x509", 36, <<Own \o [k \in 1..20 |-> k + 60]>>)}
Time(y, mo, d, h, mi) == AV!EncTime(<<y, mo, d, h, mi, 7>>)
Times == {Time(2024, 2, 29, 0, 0), Time(1999, 12, 31, 23, 59), Time(1, 1, 1, 12, 1), Time(2000, 3, 1, 11, 30), Time(1900, 2, 28, 13, 5)}
G(d) == AV!EncGuidCert(d)
P1(d) == AV!EncPkcs1(Own, d)
Vars == {AV!EncVar(<<2023, 5, 17, 9, 8, 7>>, c, p) : c \in {G(Sd(1)), G(Ci(2)), P1(<<1, 2, 3>>)}, p \in {<<>>, <<65, 66, 67>>, List("sha256", 48, <<Own \o Dig(200)>>)}}
Pays == {CP!EncPay([fw |-> <<1, 0, 0, 0>>, low |-> <<2, 0, 0, 128>>, ext |-> Rep(5, e), data |-> Rep(9, 3)]) : e \in {0, 4}}
Pay == [fw |-> <<1, 0, 0, 0>>, low |-> <<2, 0, 0, 128>>, ext |-> <<>>, data |-> Rep(9, 3)]
Auth(c, in) == [mc |-> <<1, 2, 3, 4, 5, 6, 7, 8>>, cert |-> c, in |-> in, raw |-> <<>>]
Img(in, v) == [ver |-> <<2, 0, 0, 0>>, type |-> Own, idx |-> 1, hw |-> Rep(17, 8), in |-> in, raw |-> <<>>, vendor |-> Rep(6, v)]
Fmp == [ver |-> <<1, 0, 0, 0>>, drivers |-> <<<<1, 2>>, <<3>>>>, images |-> <<Img(<<Auth(Ci(1), <<Pay>>)>>, 2), Img(<<>>, 1)>>]
Cap == [guid |-> CP!FmpGuid, oem |-> 258, fl |-> 5, ext |-> Rep(4, 4), in |-> <<Fmp>>, raw |-> <<>>]
Rule(s, m, t, v) == [root |-> PO!RootKey, sub |-> s, name |-> m, t |-> t, v |-> v]
Dev(v) == PO!DeviceRule(v)
Pol(rs) == PO!Enc([PO!Fresh EXCEPT !.rules = rs])
Pols == {Pol(<<>>), Pol(<<Dev(<<1, 0, 0, 0, 0, 0, 0, 0>>)>>), Pol(<<Dev(<<3, 0, 0, 0, 0, 0, 0, 128>>), Rule(PO!Ascii.Target, PO!Ascii.Nonce, 0, <<65, 66>>)>>), Pol(<<Rule(PO!Ascii.UEFI, PO!Ascii.Policy, 0, <<89>>)>>),
         Pol(<<Rule(PO!Ascii.UEFI, PO!Ascii.Policy, 2, <<2, 0, 0, 0>>), Rule(<<>>, <<65>>, 5, <<2, 0, 0, 0, 9, 9, 9, 9>>)>>)}
Lock == [ns |-> Own, val |-> 3, name |-> <<76, 107>>]
Entry(t, named) == PO!EncEntry([ns |-> Own, min |-> <<1, 2, 3, 4>>, max |-> Rep(255, 4), must |-> <<7, 0, 0, 0>>, cant |-> <<8, 0, 0, 0>>, type |-> t, lock |-> IF t = 3 THEN <<Lock>> ELSE <<>>, named |-> named, name |-> IF named THEN <<78, 109>> ELSE <<>>])
Whole == {<<"x509", Own \o <<65, 66>>>>, <<"sha256", Own \o Dig(171)>>, <<"pkcs1", P1(<<1, 2, 3>>)>>, <<"pkcs1", P1([k \in 1..33 |-> k])>>, <<"guidcert", G(Sd(1))>>, <<"guidcert", G(Ci(3))>>, <<"auth", CP!EncAuth(Auth(Sd(1), <<Pay>>))>>,
          <<"auth", CP!EncAuth(Auth(Ci(1), <<>>))>>, <<"img", CP!EncImg(Img(<<Auth(Ci(1), <<Pay>>)>>, 2))>>, <<"fmp", CP!EncFmp(Fmp)>>, <<"cap", CP!EncCap(Cap)>>, <<"lock", PO!EncLock(Lock)>>}
         \cup {<<"list", b>> : b \in Lists} \cup {<<"db", a \o b>> : a, b \in Lists} \cup {<<"db", <<>>>>} \cup {<<"time", b>> : b \in Times} \cup {<<"var", b>> : b \in Vars} \cup {<<"pay", b>> : b \in Pays}
         \cup {<<"policy", b>> : b \in Pols} \cup {<<"entry", Entry(t, nm)>> : t \in 0..3, nm \in BOOLEAN}
Vals(x) == (IF Deep THEN {0, 1, 2, 12, 16, 28, 48, 255, (x + 1) % 256, (x + 128) % 256} ELSE {0, (x + 1) % 256}) \ {x}
Init == doc \in Whole /\ n = 1
Next == /\ n > 0 /\ n' = 0
        /\ LET b == doc[2] IN
           \/ \E i \in 0..Len(b) - 1 : doc' = <<doc[1], SubSeq(b, 1, i)>>
           \/ \E i \in 1..Len(b) : \E x \in Vals(b[i]) : doc' = <<doc[1], [b EXCEPT ![i] = x]>>
Spec == Init /\ [][Next]_<<doc, n>>
Numbers(R) == \A i \in 1..Len(R.facts) : R.facts[i][1] # "" /\ \A j \in 1..Len(R.facts[i][2]) : R.facts[i][2][j] \in 0..65535
\* the bytes come back from what was stated
Get(R, label) == LET S == {i \in 1..Len(R.facts) : R.facts[i][1] = label} IN IF S = {} THEN <<>> ELSE R.facts[CHOOSE i \in S : \A j \in S : i <= j][2]
U4(v) == SubSeq(v, 1, 4)
RECURSIVE Back(_)
Back(fs) == IF fs = <<>> THEN <<>>
            ELSE (CASE fs[1][1] \in {"type", "owner", "data"} -> fs[1][2]
                    [] fs[1][1] \in {"list size", "header size", "signature size"} -> U4(fs[1][2])
                    [] OTHER -> <<>>) \o Back(Tail(fs))
NothingLost(R) == R.ok =>
  LET back == Back(R.facts) G1(l) == Get(R, l) IN
  CASE doc[1] \in {"x509", "sha256", "db"} -> back = doc[2]
    [] doc[1] = "list" -> back = SubSeq(doc[2], 1, Len(back))
    [] doc[1] = "pkcs1" -> (U4(G1("length")) \o SubSeq(G1("revision"), 1, 2) \o SubSeq(G1("kind"), 1, 2) \o G1("hash") \o G1("data")) = SubSeq(doc[2], 1, 24 + Len(G1("data")))
    [] doc[1] = "pay" -> G1("signature text") \o U4(G1("pay header size")) \o U4(G1("fw")) \o U4(G1("lowest")) = SubSeq(doc[2], 1, 16)
    [] doc[1] = "time" -> SubSeq(G1("year"), 1, 2) \o SubSeq(G1("month"), 1, 1) \o SubSeq(G1("day"), 1, 1) \o <<(G1("hour")[1] % 12) + 12 * G1("half")[1]>> \o SubSeq(G1("minute"), 1, 1) = SubSeq(doc[2], 1, 6)
    [] OTHER -> TRUE
\* whole structures are described; a statement is made of numbers only; nothing is lost (in one predicate, so that it is derived once)
Stated == \E R \in {Describe(doc[1], doc[2])} : (n = 1 => R.ok) /\ Numbers(R) /\ NothingLost(R)
\* the next day is the next day of the week
NextDay(t) == IF t[3] < AV!DaysIn(t[1], t[2]) THEN [t EXCEPT ![3] = @ + 1] ELSE IF t[2] < 12 THEN [t EXCEPT ![2] = @ + 1, ![3] = 1] ELSE [t EXCEPT ![1] = @ + 1, ![2] = 1, ![3] = 1]
Week == (doc[1] = "time" /\ AV!TimeOk(doc[2])) => LET t == AV!TimeAt(doc[2]) IN Weekday(NextDay(t)) = (Weekday(t) + 1) % 7
Emit == PrintT("@@" \o ToJson(doc))
=============================================================================
