------------------------------ MODULE AuthVar ------------------------------
(***************************************************************************)
(* Authenticated variables: EFI_TIME, WIN_CERTIFICATE (GUID and PKCS1),    *)
(* EFI_VARIABLE_AUTHENTICATION_2, variable attributes, and the digest a    *)
(* signer signs.                                                           *)
(***************************************************************************)
EXTENDS SigList
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* t = <<year, month, day, hour, minute, second>>
DateOk(t) == /\ t[1] \in 1..9999 /\ t[2] \in 1..12 /\ t[3] >= 1 /\ t[3] <= DaysIn(t[1], t[2])
             /\ t[4] < 24 /\ t[5] < 60 /\ t[6] < 60
EncTime(t) == LEn(t[1], 2) \o Tail(t) \o Rep(0, 9)
TimeAt(b) == <<RdLE(b, 1, 2), b[3], b[4], b[5], b[6], b[7]>>
TimeOk(b) == Len(b) >= 16 /\ DateOk(TimeAt(b)) /\ RdLE(b, 9, 4) < 1000000000
\* nothing but the date and time of day is set
TimePlain(b) == At(b, 8, 9) = Rep(0, 9)

Pkcs7Guid == <<157, 210, 175, 74, 223, 104, 238, 73, 138, 169, 52, 125, 55, 86, 101, 167>>
EncGuidCert(d) == LEn(24 + Len(d), 4) \o <<0, 2, 241, 14>> \o Pkcs7Guid \o d
GuidCertOk(b) == /\ Len(b) >= 24 /\ RdLE(b, 1, 4) >= 24 /\ RdLE(b, 1, 4) <= Len(b)
                 /\ At(b, 5, 4) = <<0, 2, 241, 14>> /\ At(b, 9, 16) = Pkcs7Guid
GuidCert(b) == [kind |-> "guid", len |-> RdLE(b, 1, 4), data |-> At(b, 25, RdLE(b, 1, 4) - 24), rest |-> From(b, RdLE(b, 1, 4) + 1)]
EncPkcs1(h, d) == LEn(24 + Len(d), 4) \o <<0, 2, 240, 14>> \o h \o d
Pkcs1Ok(b) == Len(b) >= 25 /\ RdLE(b, 1, 4) >= 24 /\ RdLE(b, 1, 4) <= Len(b)
Pkcs1(b) == [kind |-> "pkcs1", len |-> RdLE(b, 1, 4), data |-> At(b, 25, RdLE(b, 1, 4) - 24), rest |-> From(b, RdLE(b, 1, 4) + 1)]
\* the certificate at the start of b: refused, of no known type, or read
CertKind(b) == IF Len(b) < 8 THEN "refused"
               ELSE IF At(b, 7, 2) = <<241, 14>> THEN (IF GuidCertOk(b) THEN "guid" ELSE "refused")
               ELSE IF At(b, 7, 2) = <<240, 14>> THEN (IF Pkcs1Ok(b) THEN "pkcs1" ELSE "refused")
               ELSE "none"
Cert(b) == IF CertKind(b) = "guid" THEN GuidCert(b) ELSE Pkcs1(b)
CertBytes(b) == At(b, 1, Cert(b).len)

\* EFI_VARIABLE_AUTHENTICATION_2
VarKind(b) == IF ~TimeOk(b) THEN "refused" ELSE CertKind(From(b, 17))
Var(b) == LET c == Cert(From(b, 17)) IN
          [time |-> TimeAt(b), cert |-> c.data, payload |-> c.rest, lists |-> IF c.rest # <<>> /\ DecDb(c.rest).ok THEN Len(DecDb(c.rest).ls) ELSE -1]
EncVar(t, certbytes, payload) == EncTime(t) \o certbytes \o payload

\* UTF-16, little endian
Utf16(cp) == IF cp < 65536 THEN LEn(cp, 2)
             ELSE LET v == cp - 65536 IN LEn(55296 + (v \div 1024), 2) \o LEn(56320 + (v % 1024), 2)
Name16(cps) == Cat([i \in 1..Len(cps) |-> Utf16(cps[i])])
Digest(name, guid, attrs, t, payload) == Name16(name) \o guid \o LEn(attrs, 4) \o EncTime(t) \o payload

\* attributes, in the order they are written out
AttrNames == <<"AP", "AT", "AW", "HW", "RT", "BS", "NV">>
AttrLong == <<"EFI_VARIABLE_APPEND_WRITE", "EFI_VARIABLE_TIME_BASED_AUTHENTICATED_WRITE_ACCESS", "EFI_VARIABLE_AUTHENTICATED_WRITE_ACCESS",
              "EFI_VARIABLE_HARDWARE_ERROR_RECORD", "EFI_VARIABLE_RUNTIME_ACCESS", "EFI_VARIABLE_BOOTSERVICE_ACCESS", "EFI_VARIABLE_NON_VOLATILE">>
AttrBit == <<64, 32, 16, 8, 4, 2, 1>>
AttrIdx(n) == {i \in 1..7 : AttrNames[i] = n \/ AttrLong[i] = n}
RECURSIVE SumBits(_, _)
SumBits(S, i) == IF i > 7 THEN 0 ELSE (IF i \in S THEN AttrBit[i] ELSE 0) + SumBits(S, i + 1)
AttrParse(names) == SumBits(UNION {AttrIdx(names[i]) : i \in 1..Len(names)}, 1)
AttrParseOk(names) == \A i \in 1..Len(names) : AttrIdx(names[i]) # {}
AttrShown(v, table) == LET RECURSIVE go(_)
                           go(i) == IF i > 7 THEN <<>> ELSE (IF (v \div AttrBit[i]) % 2 = 1 THEN <<table[i]>> ELSE <<>>) \o go(i + 1)
                       IN go(1)
=============================================================================
