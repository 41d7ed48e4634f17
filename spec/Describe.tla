------------------------------ MODULE Describe -----------------------------
(***************************************************************************)
(* What the printed description of a decoded structure states: an ordered  *)
(* sequence of facts <<label, value>>, every value a sequence of numbers   *)
(* (bytes, characters, or a number in eight bytes), derived from the bytes *)
(* the structure was decoded from by the structures' own specifications.   *)
(***************************************************************************)
EXTENDS Bytes, TLC
AV == INSTANCE AuthVar
CP == INSTANCE Capsule
PO == INSTANCE Policy
FW == INSTANCE Firmware

F(label, v) == <<label, v>>
N(bs) == bs \o Rep(0, 8 - Len(bs))         \* a number given by its bytes
I(n) == LEn(n, 8)
Flag(label) == F(label, <<>>)
No == [ok |-> FALSE, def |-> TRUE, facts |-> <<>>, certs |-> <<>>]
Unsure == [ok |-> FALSE, def |-> FALSE, facts |-> <<>>, certs |-> <<>>]
Yes(facts) == [ok |-> TRUE, def |-> TRUE, facts |-> facts, certs |-> <<>>]

Plain(u) == \A i \in 1..Len(u) : u[i] \notin {10, 13}
\* signatures
SigFacts(t, e) == <<Flag("entry " \o t), F("owner", e.o), F("data", e.d)>>
ListFacts(l) == <<Flag("list"), F("type", AV!TypeGuid[l.t]), F("list size", I(l.ls)), F("header size", I(l.hs)), F("signature size", IF l.sz = Huge THEN N(l.raw) ELSE I(l.sz)), Flag("no header")>>
                \o Cat([i \in 1..Len(l.data) |-> SigFacts(l.t, l.data[i])])
ListsFacts(ls) == Cat([i \in 1..Len(ls) |-> ListFacts(ls[i])])
AllKnown(ls) == \A i \in 1..Len(ls) : ls[i].t # "unknown"

\* a date and time of day
\* days from Sunday, by Gauss' rule
Weekday(t) == LET a == (14 - t[2]) \div 12
                  y == t[1] - a
                  m == t[2] + (12 * a) - 2 IN
              (t[3] + y + (y \div 4) - (y \div 100) + (y \div 400) + ((31 * m) \div 12)) % 7
TimeFacts(t) == <<F("weekday", I(Weekday(t))), F("month", I(t[2])), F("day", I(t[3])), F("year", I(t[1])),
                  F("hour", I(IF t[4] % 12 = 0 THEN 12 ELSE t[4] % 12)), F("minute", I(t[5])), F("half", I(t[4] \div 12))>>

\* certificates
GuidCertFacts(d) == <<Flag("guid cert"), F("length", I(24 + Len(d))), F("revision", I(512)), F("kind", I(3825)), F("cert type", AV!Pkcs7Guid), F("cert size", I(Len(d))), F("certificate", d)>>
Pkcs1Facts(b) == LET c == AV!Pkcs1(b) IN
  <<Flag("pkcs1 cert"), F("length", I(c.len)), F("revision", N(At(b, 5, 2))), F("kind", N(At(b, 7, 2))), F("hash", At(b, 9, 16)), F("data", c.data)>>
CertFacts(b) == IF AV!CertKind(b) = "guid" THEN GuidCertFacts(AV!GuidCert(b).data) ELSE Pkcs1Facts(b)
CertsOf(b) == IF AV!CertKind(b) = "guid" THEN <<AV!GuidCert(b).data>> ELSE <<>>

VarFacts(b) ==
  LET v == AV!Var(b) db == AV!DecDb(v.payload) IN
  <<Flag("variable")>> \o TimeFacts(v.time) \o CertFacts(From(b, 17)) \o <<Flag("payload")>>
  \o (IF v.payload = <<>> THEN <<>> ELSE IF db.ok THEN ListsFacts(db.ls) ELSE <<F("raw", v.payload)>>)

\* capsules
PayFacts(p) == <<F("signature", N(CP!Mss1)), F("signature text", CP!Mss1), F("pay header size", I(16 + Len(p.ext))), F("fw", N(p.fw)), F("lowest", N(p.low)), F("pay size", I(Len(p.data)))>>
AuthFacts(a) == <<F("count", a.mc)>> \o GuidCertFacts(a.cert) \o <<F("auth size", I(Len(IF a.in # <<>> THEN CP!EncPay(a.in[1]) ELSE a.raw)))>> \o (IF a.in # <<>> THEN PayFacts(a.in[1]) ELSE <<>>)
ImgFacts(i) ==
  LET n == Len(CP!ImgBody(i)) IN
  <<F("image version", N(i.ver)), F("image type", i.type), F("image index", I(i.idx)), F("image size", I(n)), F("vendor size", I(Len(i.vendor))), F("instance", i.hw),
    F("image payload", I(n)), F("vendor bytes", I(Len(i.vendor)))>> \o (IF i.in # <<>> THEN AuthFacts(i.in[1]) ELSE <<>>)
FmpFacts(f) ==
  <<F("fmp version", N(f.ver)), F("drivers", I(Len(f.drivers)))>> \o [k \in 1..Len(f.drivers) |-> F("driver size", I(Len(f.drivers[k])))]
  \o <<F("items", I(Len(f.images))), Flag("offsets")>> \o Cat([k \in 1..Len(f.images) |-> ImgFacts(f.images[k])])
CapFacts(c) ==
  LET n == Len(CP!CapBody(c)) IN
  <<F("capsule guid", c.guid), F("cap header size", I(32 + Len(c.ext))), F("flags", N(LEn(c.oem, 2) \o <<c.fl, 0>>)), F("oem flags", I(c.oem))>>
  \o (IF c.fl % 2 = 1 THEN <<Flag("persist")>> ELSE <<>>) \o (IF (c.fl \div 2) % 2 = 1 THEN <<Flag("populate")>> ELSE <<>>) \o (IF (c.fl \div 4) % 2 = 1 THEN <<Flag("reset")>> ELSE <<>>)
  \o <<F("capsule size", I(32 + Len(c.ext) + n)), F("capsule payload", I(n))>> \o (IF c.in # <<>> THEN FmpFacts(c.in[1]) ELSE <<>>)
CapPart(lvl, t) == CASE lvl = "pay" -> PayFacts(t) [] lvl = "auth" -> AuthFacts(t) [] lvl = "img" -> ImgFacts(t) [] lvl = "fmp" -> FmpFacts(t) [] lvl = "cap" -> CapFacts(t)
AuthCerts(a) == <<a.cert>>
ImgCerts(i) == IF i.in = <<>> THEN <<>> ELSE AuthCerts(i.in[1])
FmpCerts(f) == Cat([k \in 1..Len(f.images) |-> ImgCerts(f.images[k])])
CapCerts(lvl, t) == CASE lvl = "pay" -> <<>> [] lvl = "auth" -> AuthCerts(t) [] lvl = "img" -> ImgCerts(t) [] lvl = "fmp" -> FmpCerts(t) [] lvl = "cap" -> (IF t.in = <<>> THEN <<>> ELSE FmpCerts(t.in[1]))

\* firmware policies: every rule with its offsets, names and value; the well-known device policy is explained
BitSet(v, k) == (v[1] \div k) % 2 = 1
RuleFacts(b, r, at) ==
  <<Flag("rule"), F("root", N(r.root)), F("sub offset", N(At(b, at + 5, 4))), F("name offset", N(At(b, at + 9, 4))), F("value offset", N(At(b, at + 13, 4))),
    F("sub", r.sub), F("name", r.name), F("value type", I(r.t))>>
  \o (CASE r.t = 0 -> <<F("string", r.v)>> [] PO!Known(r.t) -> <<F("value", N(r.v))>> [] OTHER -> <<Flag("no value")>>)
  \o (IF r.root # PO!RootKey \/ r.sub # PO!Ascii.UEFI \/ r.name # PO!Ascii.Policy THEN <<>>
      ELSE <<Flag("device policy")>> \o (IF r.t \notin {2, 5} THEN <<>>
           ELSE (IF BitSet(r.v, 1) THEN <<Flag("clear secure boot")>> ELSE <<>>) \o (IF BitSet(r.v, 2) THEN <<Flag("clear tpm")>> ELSE <<>>)))
\* names and strings of a single line
OneLine(p) == \A i \in 1..Len(p.rules) : LET r == p.rules[i] IN Plain(r.sub) /\ Plain(r.name) /\ (r.t = 0 => Plain(r.v))
PolicyFacts(b) ==
  LET p == PO!Dec(b).p
      h == PO!HeadSize + 16 * Len(p.r1)
      at == h + 12 * Len(p.r2)
      vt == at + PO!RuleSize * Len(p.rules) IN
  <<Flag("policy"), F("format", I(p.fmt)), F("policy version", N(p.pv)), F("publisher", p.pub), F("reserved1", I(Len(p.r1)))>>
  \o [i \in 1..Len(p.r1) |-> F("reserved1 item", p.r1[i])]
  \o <<F("options", N(p.opt)), F("reserved2", I(Len(p.r2))), F("rules", I(Len(p.rules))), F("table size", I(Len(b) - vt)), F("table offset", I(vt))>>
  \o Cat([i \in 1..Len(p.r2) |-> <<Flag("reserved2 item"), F("object", N(At(p.r2[i], 1, 4))), F("element", N(At(p.r2[i], 5, 4))), F("value offset", N(At(p.r2[i], 9, 4)))>>])
  \o Cat([i \in 1..Len(p.rules) |-> RuleFacts(b, p.rules[i], at + PO!RuleSize * (i - 1))])
  \o <<Flag("table"), F("bytes", From(b, vt + 1))>>
\* variable policies
LockFacts(l) == <<F("lock namespace", l.ns), F("lock value", I(l.val)), F("lock name", l.name)>>
EntryFacts(e) ==
  <<F("namespace", e.ns), F("name", e.name)>> \o (IF e.type = 3 THEN LockFacts(e.lock[1]) ELSE <<F("lock", I(e.type))>>)
  \o <<F("min", N(e.min)), F("max", N(e.max)), F("must", N(e.must)), F("cant", N(e.cant))>>

\* images: every field in its place, then colours, padding and pixels
BmpFacts(b) ==
  LET v == FW!Bmp(b).v l == FW!Layout("bmp") IN
  <<Flag("image")>> \o [i \in 1..Len(l) |-> F(l[i][1], N(v.fs[i]))]
  \o Cat([i \in 1..Len(v.colors) |-> <<Flag("colour"), F("blue", I(v.colors[i][1])), F("green", I(v.colors[i][2])), F("red", I(v.colors[i][3])), F("rest", I(v.colors[i][4]))>>])
  \o (IF v.pad = <<>> THEN <<>> ELSE <<F("padding", v.pad)>>) \o <<F("pixels", v.data)>>

Describe(what, b) ==
  CASE what \in {"x509", "sha256"} -> \* the first 16 bytes own the rest, or the digest
         IF Len(b) < 16 \/ (what = "sha256" /\ Len(b) < 48) THEN No ELSE Yes(SigFacts(what, [o |-> At(b, 1, 16), d |-> IF what = "sha256" THEN At(b, 17, 32) ELSE From(b, 17)]))
    [] what = "list" -> LET r == AV!Dec(b) IN IF ~r.ok THEN No ELSE IF r.l.t = "unknown" THEN Unsure ELSE Yes(ListFacts(r.l))
    [] what = "db" -> LET r == AV!DecDb(b) IN IF ~r.ok THEN No ELSE IF ~AllKnown(r.ls) THEN Unsure ELSE Yes(ListsFacts(r.ls))
    [] what = "time" -> IF ~AV!TimeOk(b) THEN No ELSE Yes(TimeFacts(AV!TimeAt(b)))
    [] what = "guidcert" -> IF ~AV!GuidCertOk(b) THEN No ELSE [Yes(GuidCertFacts(AV!GuidCert(b).data)) EXCEPT !.certs = <<AV!GuidCert(b).data>>]
    [] what = "pkcs1" -> IF ~AV!Pkcs1Ok(b) THEN No ELSE Yes(Pkcs1Facts(b))
    [] what = "var" -> LET k == AV!VarKind(b) IN
         IF k = "refused" THEN No ELSE IF k = "none" \/ (AV!Var(b).lists # -1 /\ ~AllKnown(AV!DecDb(AV!Var(b).payload).ls)) THEN Unsure
         ELSE [Yes(VarFacts(b)) EXCEPT !.certs = CertsOf(From(b, 17))]
    [] what \in {"pay", "auth", "img", "fmp", "cap"} ->
         LET r == CP!Dec(what, b) IN IF ~r.def THEN Unsure ELSE IF ~r.ok THEN No ELSE [Yes(CapPart(what, r.t)) EXCEPT !.certs = CapCerts(what, r.t)]
    [] what = "policy" -> LET r == PO!Dec(b) IN IF r.ok THEN (IF OneLine(r.p) THEN Yes(PolicyFacts(b)) ELSE Unsure) ELSE No
    [] what = "lock" -> LET r == PO!DecLock(b) IN IF ~r.ok THEN No ELSE IF PO!Odd(r.l.name) \/ ~Plain(r.l.name) THEN Unsure ELSE Yes(LockFacts(r.l))
    [] what = "entry" -> IF ~PO!Decided(b) THEN Unsure ELSE LET r == PO!DecEntry(b) IN IF r.ok THEN (IF ~Plain(r.e.name) \/ (r.e.type = 3 /\ ~Plain(r.e.lock[1].name)) THEN Unsure ELSE IF r.e.named THEN Yes(EntryFacts(r.e)) ELSE Yes(EntryFacts([r.e EXCEPT !.name = <<78, 111, 110, 101>>]))) ELSE No
    [] what = "bmp" -> LET r == FW!Bmp(b) IN IF r.ok THEN (IF r.sure THEN Yes(BmpFacts(b)) ELSE Unsure) ELSE IF r.sure THEN No ELSE Unsure
=============================================================================
