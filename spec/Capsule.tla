------------------------------ MODULE Capsule ------------------------------
(***************************************************************************)
(* UEFI capsules: five nested structures, each with sizes or offsets of    *)
(* what it holds.                                                          *)
(*  pay  [fw, low, ext, data]              FMP_PAYLOAD_HEADER and payload  *)
(*  auth [mc, cert, in, raw]               image authentication            *)
(*  img  [ver, type, idx, hw, in, raw, vendor]  FMP capsule image          *)
(*  fmp  [ver, drivers, images]            FMP capsule                     *)
(*  cap  [guid, oem, fl, ext, in, raw]     UEFI capsule                    *)
(* "in" is a sequence of no or one nested structure; raw is the payload    *)
(* when there is none.  ext are bytes of a header beyond its known fields. *)
(***************************************************************************)
EXTENDS Bytes, TLC
Mss1 == <<77, 83, 83, 49>>
Pkcs7 == <<157, 210, 175, 74, 223, 104, 238, 73, 138, 169, 52, 125, 55, 86, 101, 167>>
FmpGuid == <<237, 213, 203, 109, 45, 232, 68, 76, 189, 161, 113, 148, 25, 154, 217, 42>>
No == [ok |-> FALSE, def |-> TRUE]
Unsure == [ok |-> FALSE, def |-> FALSE]
Yes(t) == [ok |-> TRUE, def |-> TRUE, t |-> t]

EncPay(p) == Mss1 \o LEn(16 + Len(p.ext), 4) \o p.fw \o p.low \o p.ext \o p.data
DecPay(b) == IF Len(b) < 16 THEN No
             ELSE LET hs == RdLE(b, 5, 4) IN
                  IF At(b, 1, 4) # Mss1 \/ hs < 16 \/ hs > Len(b) THEN No
                  ELSE Yes([fw |-> At(b, 9, 4), low |-> At(b, 13, 4), ext |-> SubSeq(b, 17, hs), data |-> From(b, hs + 1)])

EncAuth(a) == a.mc \o LEn(24 + Len(a.cert), 4) \o <<0, 2, 241, 14>> \o Pkcs7 \o a.cert \o (IF a.in # <<>> THEN EncPay(a.in[1]) ELSE a.raw)
DecCert(b) == IF Len(b) < 24 THEN No
              ELSE LET n == RdLE(b, 1, 4) IN
                   IF n < 24 \/ n > Len(b) \/ At(b, 5, 4) # <<0, 2, 241, 14>> \/ At(b, 9, 16) # Pkcs7 THEN No ELSE Yes(SubSeq(b, 25, n))
DecAuth(b) ==
  IF Len(b) < 8 THEN No
  ELSE LET c == DecCert(From(b, 9)) IN
       IF ~c.ok THEN No
       ELSE LET rest == From(b, 9 + 24 + Len(c.t)) a == [mc |-> At(b, 1, 8), cert |-> c.t, in |-> <<>>, raw |-> <<>>] IN
            IF rest = <<>> THEN Yes(a)
            ELSE LET p == DecPay(rest) IN IF p.ok THEN Yes([a EXCEPT !.in = <<p.t>>]) ELSE No
Signed(b) == Len(b) >= 8 /\ DecCert(From(b, 9)).ok

ImgBody(i) == IF i.in # <<>> THEN EncAuth(i.in[1]) ELSE i.raw
EncImg(i) == i.ver \o i.type \o <<i.idx, 0, 0, 0>> \o LEn(Len(ImgBody(i)), 4) \o LEn(Len(i.vendor), 4) \o i.hw \o ImgBody(i) \o i.vendor
DecImg(b) ==
  IF Len(b) < 40 THEN No
  ELSE LET n == RdLE(b, 25, 4) v == RdLE(b, 29, 4) IN
       IF RdLE(b, 1, 4) < 2 \/ b[21] < 1 \/ n + v # Len(b) - 40 THEN No
       ELSE LET i == [ver |-> At(b, 1, 4), type |-> At(b, 5, 16), idx |-> b[21], hw |-> At(b, 33, 8), in |-> <<>>, raw |-> <<>>, vendor |-> From(b, 41 + n)] IN
            IF n = 0 THEN Yes(i)
            ELSE LET a == DecAuth(At(b, 41, n)) IN IF a.ok THEN Yes([i EXCEPT !.in = <<a.t>>]) ELSE No

RECURSIVE Offsets(_, _)
Offsets(parts, o) == IF parts = <<>> THEN <<>> ELSE LEn(o, 8) \o Offsets(Tail(parts), o + Len(parts[1]))
EncFmp(f) ==
  LET parts == f.drivers \o [i \in 1..Len(f.images) |-> EncImg(f.images[i])] IN
  f.ver \o LEn(Len(f.drivers), 2) \o LEn(Len(f.images), 2) \o Offsets(parts, 8 + 8 * Len(parts)) \o Cat(parts)
\* items lie where the list of offsets says, each up to the next one
DecFmp(b) ==
  IF Len(b) < 8 THEN No
  ELSE LET nd == RdLE(b, 5, 2) ni == RdLE(b, 7, 2) n == nd + ni first == 8 + 8 * n IN
       IF RdLE(b, 1, 4) < 1 \/ first > Len(b) THEN No
       ELSE LET off == [i \in 1..n |-> RdLE(b, 9 + 8 * (i - 1), 8)]
                item(i) == SubSeq(b, off[i] + 1, IF i = n THEN Len(b) ELSE off[i + 1])
                img == [i \in 1..ni |-> DecImg(item(nd + i))] IN
            IF \E i \in 1..n : off[i] >= Len(b) THEN No
            ELSE IF \E i \in 1..n : off[i] < first \/ (i < n /\ off[i + 1] <= off[i]) THEN Unsure
            ELSE IF \E i \in 1..ni : ~img[i].ok THEN No
            ELSE Yes([ver |-> At(b, 1, 4), drivers |-> [i \in 1..nd |-> item(i)], images |-> [i \in 1..ni |-> img[i].t]])

CapBody(c) == IF c.in # <<>> THEN EncFmp(c.in[1]) ELSE c.raw
EncCap(c) == c.guid \o LEn(32 + Len(c.ext), 4) \o LEn(c.oem, 2) \o <<c.fl, 0>> \o LEn(32 + Len(c.ext) + Len(CapBody(c)), 4) \o Rep(0, 4) \o c.ext \o CapBody(c)
DecCap(b) ==
  IF Len(b) < 32 THEN No
  ELSE LET hs == RdLE(b, 17, 4) IN
       IF hs < 32 \/ hs > Len(b) \/ RdLE(b, 25, 4) # Len(b) THEN No
       ELSE LET c == [guid |-> At(b, 1, 16), oem |-> RdLE(b, 21, 2), fl |-> b[23] % 8, ext |-> SubSeq(b, 33, hs), in |-> <<>>, raw |-> From(b, hs + 1)] IN
            IF c.raw = <<>> \/ c.guid # FmpGuid THEN Yes(c)
            ELSE LET f == DecFmp(c.raw) IN
                 IF f.ok THEN Yes([c EXCEPT !.in = <<f.t>>, !.raw = <<>>]) ELSE f

Enc(lvl, t) == CASE lvl = "pay" -> EncPay(t) [] lvl = "auth" -> EncAuth(t) [] lvl = "img" -> EncImg(t) [] lvl = "fmp" -> EncFmp(t) [] lvl = "cap" -> EncCap(t)
Dec(lvl, b) == CASE lvl = "pay" -> DecPay(b) [] lvl = "auth" -> DecAuth(b) [] lvl = "img" -> DecImg(b) [] lvl = "fmp" -> DecFmp(b) [] lvl = "cap" -> DecCap(b)
=============================================================================
