------------------------------- MODULE InfFile ------------------------------
(***************************************************************************)
(* The INF and catalog files of Windows firmware capsules.  A file is a    *)
(* set of sections <<name, set of lines>>; lines are "key=value" with no   *)
(* blanks around the first "=".                                            *)
(*   one:  the generator for one firmware (InfGenerator)                   *)
(*   many: the generator for several (InfFile)                             *)
(*   cat:  the catalog generator                                           *)
(***************************************************************************)
EXTENDS Bytes, Text

WordSet == LowerSet \cup UpperSet \cup DecSet \cup {"_"}
Plain == WordSet \cup {"-", ".", " ", "!", "\n", "/", "\\", ";", "=", "%", "$", "(", ")", "[", "]", "{", "}", ",", "+", "*", "?", "\t", ":", "'", "#", "&", "@"}
\* texts of allowed characters: ok, no, any (empty, or characters of other alphabets)
Allow(s, set) == LET c == Chars(s) IN IF Len(c) = 0 \/ \E i \in 1..Len(c) : c[i] \notin Plain THEN "any" ELSE IF \A i \in 1..Len(c) : c[i] \in set THEN "ok" ELSE "no"
NameOk(s) == Allow(s, WordSet \cup {"-"})
FileOk(s) == Allow(s, WordSet \cup {"-", "."})
KeyOk(s) == IF s = "" THEN "no" ELSE Allow(s, WordSet \cup {"-"})
\* keys with a minus sign are good because tags may have one; alone they are left open
LooseKey(s) == IF KeyOk(s) = "ok" /\ \E i \in 1..Len(s) : SubSeq(s, i, i) = "-" THEN "any" ELSE KeyOk(s)
VersionOk(s) == LET p == SplitBy(Chars(s), ".") IN
  IF Len(p) \notin 2..4 THEN "no" ELSE IF \A i \in 1..Len(p) : Len(p[i]) > 0 /\ \A j \in 1..Len(p[i]) : p[i][j] \in WordSet THEN "ok" ELSE "any"
ArchTab == [amd64 |-> "amd64", x64 |-> "amd64", arm |-> "arm", arm64 |-> "ARM64", aarch64 |-> "ARM64"]
ArchOk(s) == IF Lower(s) \in DOMAIN ArchTab THEN "ok" ELSE "no"

\* a GUID, written with hyphens, or "" (not one) or "?" (left open)
RECURSIVE Without(_, _)
Without(s, w) == LET I == {i \in 1..(Len(s) - Len(w) + 1) : SubSeq(s, i, i + Len(w) - 1) = w} IN
  IF I = {} THEN s ELSE LET i == CHOOSE k \in I : \A m \in I : k <= m IN SubSeq(s, 1, i - 1) \o Without(SubSeq(s, i + Len(w), Len(s)), w)
RECURSIVE LTrim(_, _)
LTrim(c, set) == IF Len(c) > 0 /\ c[1] \in set THEN LTrim(Tail(c), set) ELSE c
RECURSIVE RTrim(_, _)
RTrim(c, set) == IF Len(c) > 0 /\ c[Len(c)] \in set THEN RTrim(SubSeq(c, 1, Len(c) - 1), set) ELSE c
GuidOf(s) ==
  LET c == SelectSeq(RTrim(LTrim(Chars(Without(Without(s, "urn:"), "uuid:")), {"{", "}"}), {"{", "}"}), LAMBDA x : x # "-") IN
  IF Len(c) # 32 THEN ""
  ELSE IF \E i \in 1..32 : c[i] \in {"_", "+", " ", "x", "X", "\n", "\t"} THEN "?"
  ELSE IF \E i \in 1..32 : LowChar(c[i]) \notin HexSet THEN ""
  ELSE LET l == Lower(Str(c)) IN SubSeq(l, 1, 8) \o "-" \o SubSeq(l, 9, 12) \o "-" \o SubSeq(l, 13, 16) \o "-" \o SubSeq(l, 17, 20) \o "-" \o SubSeq(l, 21, 32)
GuidOk(s) == IF GuidOf(s) = "" THEN "no" ELSE IF GuidOf(s) = "?" THEN "any" ELSE "ok"

\* a version number as upper case hex digits without leading zeros; "no", "any"
HexUp == Chars("0123456789ABCDEF")
RECURSIVE NoLead(_)
NoLead(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN NoLead(SubSeq(s, 2, Len(s))) ELSE s
\* little endian base 16 digits times 10 plus d
RECURSIVE MulAdd(_, _, _)
MulAdd(ds, i, carry) == IF i > Len(ds) THEN IF carry = 0 THEN <<>> ELSE <<carry % 16>> \o MulAdd(ds, i, carry \div 16)
                        ELSE LET v == (ds[i] * 10) + carry IN <<v % 16>> \o MulAdd(ds, i + 1, v \div 16)
RECURSIVE FromDec(_, _, _)
FromDec(cs, i, acc) == IF i > Len(cs) THEN acc ELSE FromDec(cs, i + 1, MulAdd(acc, 1, HexVal[cs[i]]))
HexText(le) == IF Len(le) = 0 THEN "0" ELSE Str([i \in 1..Len(le) |-> HexUp[le[Len(le) + 1 - i] + 1]])
Bare(s) == LET c == Chars(s) IN IF Len(c) > 0 /\ c[1] \in {"+", "-"} THEN Tail(c) ELSE c
Number(s) ==
  LET c == Bare(s)  neg == StartsWith(s, "-") IN
  IF Len(c) = 0 \/ \E i \in 1..Len(c) : c[i] \in {"_", " ", "\t", "\n"} \/ c[i] \notin Plain THEN [r |-> "any", v |-> ""]
  ELSE IF IsDec(c) THEN
    IF c[1] = "0" /\ \E i \in 1..Len(c) : c[i] # "0" THEN [r |-> "no", v |-> ""]
    ELSE LET h == NoLead(HexText(FromDec(c, 1, <<>>))) IN [r |-> IF (neg /\ h # "0") \/ Len(h) > 8 THEN "no" ELSE "ok", v |-> h]
  ELSE IF Len(c) > 2 /\ c[1] = "0" /\ c[2] \in {"x", "X"} /\ IsHexBody(SubSeq(c, 3, Len(c))) THEN
    LET h == NoLead(Upper(Str(SubSeq(c, 3, Len(c))))) IN [r |-> IF (neg /\ h # "0") \/ Len(h) > 8 THEN "no" ELSE "ok", v |-> h]
  ELSE IF Len(c) > 2 /\ c[1] = "0" /\ c[2] \in {"o", "O", "b", "B"} THEN [r |-> "any", v |-> ""]
  ELSE [r |-> "no", v |-> ""]

\* dates m/d/y, written with two digits each
Num(cs) == ParseBase(cs, 1, 10, 0)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(m, y) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
Two(n) == DecSeq[(n \div 10) + 1] \o DecSeq[(n % 10) + 1]
DateOf(s) ==
  LET p == SplitBy(Chars(s), "/") IN
  IF Len(p) # 3 \/ \E i \in 1..Len(p) : ~IsDec(p[i]) THEN "no"
  ELSE IF Len(p[1]) > 2 \/ Len(p[2]) > 2 \/ Len(p[3]) # 4 THEN "no"
  ELSE LET m == Num(p[1])  d == Num(p[2])  y == Num(p[3]) IN
  IF m \notin 1..12 \/ y = 0 THEN "no" ELSE IF d \notin 1..Days(m, y) THEN "no" ELSE Two(m) \o "/" \o Two(d) \o "/" \o Str(p[3])
DateOk(s) == IF \E i \in 1..Len(s) : SubSeq(s, i, i) \in {" ", "\n", "\t"} THEN "any" ELSE IF DateOf(s) = "no" THEN "no" ELSE IF Num(SplitBy(Chars(s), "/")[3]) < 1000 THEN "any" ELSE "ok"

\* 10.0[.n][...n], blanks around it do not count
DefaultOs == "10.0...17134"
RECURSIVE Digits(_, _)
Digits(c, i) == IF i <= Len(c) /\ c[i] \in DecSet THEN Digits(c, i + 1) ELSE i
OsOf(s) == Str(Strip(Chars(s)))
IsOs(c) ==
  /\ Len(c) >= 4 /\ SubSeq(c, 1, 4) = Chars("10.0")
  /\ LET tail(i) == i > Len(c) \/ (i + 3 <= Len(c) /\ SubSeq(c, i, i + 2) = <<".", ".", ".">> /\ Digits(c, i + 3) > Len(c)) IN
     tail(5) \/ (6 <= Len(c) /\ c[5] = "." /\ c[6] \in DecSet /\ tail(Digits(c, 6)))
OsOk(s) == IF IsOs(Strip(Chars(s))) THEN "ok" ELSE "no"

Worst(rs) == IF "no" \in rs THEN "no" ELSE IF "any" \in rs THEN "any" ELSE "ok"

\* ---- one firmware ------------------------------------------------------------------------
\* the object: name, provider, mfg ("-": none), guid, arch, desc, version, hex, date, integ ("-")
OneNew(o) ==
  LET r == Worst({NameOk(o.name), GuidOk(o.guid), ArchOk(o.arch), VersionOk(o.version), Number(o.hex).r}) IN
  [r |-> r, s |-> [name |-> o.name, provider |-> o.provider, mfg |-> "-", guid |-> GuidOf(o.guid), arch |-> IF ArchOk(o.arch) = "ok" THEN ArchTab[Lower(o.arch)] ELSE "",
                   desc |-> o.desc, version |-> o.version, hex |-> Number(o.hex).v, date |-> "-", integ |-> "-"]]
OneSet(s, a, v) ==
  CASE a = "name" -> [r |-> NameOk(v), s |-> [s EXCEPT !.name = v]]
    [] a = "guid" -> [r |-> GuidOk(v), s |-> [s EXCEPT !.guid = GuidOf(v)]]
    [] a = "arch" -> [r |-> ArchOk(v), s |-> IF ArchOk(v) = "ok" THEN [s EXCEPT !.arch = ArchTab[Lower(v)]] ELSE s]
    [] a = "version" -> [r |-> VersionOk(v), s |-> [s EXCEPT !.version = v]]
    [] a = "hex" -> [r |-> Number(v).r, s |-> [s EXCEPT !.hex = Number(v).v]]
    [] a = "date" -> [r |-> "ok", s |-> [s EXCEPT !.date = v]]
    [] a = "baddate" -> [r |-> "no", s |-> s]
    [] a = "provider" -> [r |-> "ok", s |-> [s EXCEPT !.provider = v]]
    [] a = "mfg" -> [r |-> "ok", s |-> [s EXCEPT !.mfg = v]]
    [] a = "desc" -> [r |-> "ok", s |-> [s EXCEPT !.desc = v]]
    [] a = "integ" -> [r |-> "ok", s |-> [s EXCEPT !.integ = v]]
Quoted(s) == "\"" \o s \o "\""
Fixed(name, date, version, arch, os) ==
  {<<"Version", {"Signature=\"$WINDOWS NT$\"", "Class=Firmware", "ClassGuid={f2e7dd72-6468-4e36-b6f1-6488f42c1b52}", "Provider=%Provider%", "DriverVer=" \o date \o "," \o version, "PnpLockdown=1", "CatalogFile=" \o name \o ".cat"}>>,
   <<"Manufacturer", {"%MfgName%=Firmware,NT" \o arch \o "." \o os}>>,
   <<"SourceDisksNames", {"1=%DiskName%"}>>, <<"DestinationDirs", {"DefaultDestDir=13"}>>}
Model(arch, os) == "Firmware.NT" \o arch \o "." \o os
\* the sections of one firmware with a tag
Sections(tag, guid, hex, file, integ, rollback, policy) ==
  {<<tag \o "_Install.NT", {"CopyFiles=" \o tag \o "_CopyFiles"} \cup (IF rollback THEN {"AddReg=" \o tag \o policy} ELSE {})>>,
   <<tag \o "_CopyFiles", {file} \cup (IF integ = "-" THEN {} ELSE {integ})>>,
   <<tag \o "_Install.NT.Services", {"AddService=,2"}>>, <<tag \o "_Install.NT.Hw", {"AddReg=" \o tag \o "_AddReg"}>>,
   <<tag \o "_AddReg", {"HKR,,FirmwareId,,{" \o guid \o "}", "HKR,,FirmwareVersion,%REG_DWORD%,0x" \o hex, "HKR,,FirmwareFilename,,%13%\\" \o file}
                        \cup (IF integ = "-" THEN {} ELSE {"HKR,,FirmwareIntegrityFilename,,%13%\\" \o integ})>>}
  \cup (IF rollback THEN {<<tag \o policy, {"HKLM,SYSTEM\\CurrentControlSet\\Control\\FirmwareResources\\{" \o guid \o "},Policy,%REG_DWORD%,1"}>>} ELSE {})
Install(tag, guid) == tag \o "_Install,UEFI\\RES_{" \o guid \o "}"
OneFile(s, file, rollback) ==
  Fixed(s.name, s.date, s.version, s.arch, DefaultOs)
  \cup {<<Model(s.arch, DefaultOs), {"%FirmwareDesc%=" \o Install("Firmware", s.guid)}>>}
  \cup Sections("Firmware", s.guid, s.hex, file, s.integ, rollback, "_DowngradePolicy_Addreg")
  \cup {<<"SourceDisksFiles", {file \o "=1"} \cup (IF s.integ = "-" THEN {} ELSE {s.integ \o "=1"})>>,
        <<"Strings", {"Provider=" \o Quoted(s.provider), "MfgName=" \o Quoted(IF s.mfg = "-" THEN s.provider ELSE s.mfg), "FirmwareDesc=" \o Quoted(s.desc), "DiskName=\"Firmware Update\"", "DIRID_WINDOWS=10", "REG_DWORD=0x00010001"}>>}

\* ---- several -----------------------------------------------------------------------------
\* the object: name, version, date, arch, os, fws (sequence, tags differ), files, stray files (left by what was refused or replaced), loc and non (strings: key -> value as sets of pairs)
Pairs(s, k, v) == {p \in s : p[1] # k} \cup {<<k, v>>}
ManyNew(o) ==
  LET os == IF o.os = "-" THEN DefaultOs ELSE OsOf(o.os)
      r == Worst({NameOk(o.name), VersionOk(o.version), DateOk(o.date), ArchOk(o.arch), IF o.os = "-" THEN "ok" ELSE OsOk(o.os)}) IN
  [r |-> r, s |-> [name |-> o.name, version |-> o.version, date |-> IF DateOk(o.date) = "no" THEN "" ELSE IF DateOf(o.date) = "no" THEN o.date ELSE DateOf(o.date), arch |-> IF ArchOk(o.arch) = "ok" THEN ArchTab[Lower(o.arch)] ELSE "", os |-> os,
                   fws |-> <<>>, files |-> {}, stray |-> {}, loc |-> {<<"DiskName", IF o.disk = "-" THEN "Firmware Update" ELSE o.disk>>, <<"Provider", o.provider>>, <<"MfgName", o.mfg>>}, non |-> {}]]
ManyFw(s, f) ==
  LET r == Worst({NameOk(f.tag), GuidOk(f.guid), Number(f.ver).r, FileOk(f.file), IF f.integ = "-" THEN "ok" ELSE FileOk(f.integ)})
      I == {i \in 1..Len(s.fws) : s.fws[i].tag = f.tag}
      new == [tag |-> f.tag, guid |-> GuidOf(f.guid), hex |-> Number(f.ver).v, file |-> f.file, integ |-> f.integ, rollback |-> f.rollback]
      own(x) == {x.file} \cup (IF x.integ = "-" THEN {} ELSE {x.integ}) IN
  [r |-> r, no |-> [s EXCEPT !.stray = @ \cup {f.file}],
   s |-> [s EXCEPT !.fws = IF I = {} THEN Append(@, new) ELSE [i \in 1..Len(@) |-> IF i \in I THEN new ELSE @[i]], !.stray = @ \cup UNION {own(s.fws[i]) : i \in I},
                   !.loc = Pairs(@, f.tag \o "Desc", f.desc), !.non = Pairs(@, "REG_DWORD", "0x00010001")]]
ManyStr(s, w, k, v) == [r |-> LooseKey(k), no |-> s, s |-> IF w = "loc" THEN [s EXCEPT !.loc = Pairs(@, k, v)] ELSE [s EXCEPT !.non = Pairs(@, k, v)]]
ManySrc(s, f) == [r |-> FileOk(f), no |-> s, s |-> [s EXCEPT !.files = @ \cup {f}]]
FwFiles(s) == UNION {{s.fws[i].file} \cup (IF s.fws[i].integ = "-" THEN {} ELSE {s.fws[i].integ}) : i \in 1..Len(s.fws)}
\* everything but the source files
ManyFile(s) ==
  Fixed(s.name, s.date, s.version, s.arch, s.os)
  \cup {<<Model(s.arch, s.os), {"%" \o s.fws[i].tag \o "Desc%=" \o Install(s.fws[i].tag, s.fws[i].guid) : i \in 1..Len(s.fws)}>>}
  \cup UNION {LET f == s.fws[i] IN Sections(f.tag, f.guid, f.hex, f.file, f.integ, f.rollback, "_DowngradePolicy_AddReg") : i \in 1..Len(s.fws)}
  \cup {<<"Strings", {p[1] \o "=" \o Quoted(p[2]) : p \in s.loc} \cup {p[1] \o "=" \o p[2] : p \in s.non}>>}
Source(fs) == {f \o "=1" : f \in fs}

\* ---- catalog ----------------------------------------------------------------------------
OsTab == <<<<"win10", "10">>, <<"10", "10">>, <<"10_au", "10_AU">>, <<"10_rs2", "10_RS2">>, <<"10_rs3", "10_RS3">>, <<"10_rs4", "10_RS4">>, <<"10_rs5", "10_RS5">>, <<"10_19h1", "10_19H1">>, <<"10_vb", "10_VB">>, <<"10_co", "10_CO">>,
           <<"10_ni", "10_NI">>, <<"server10", "Server10">>, <<"server2016", "Server2016">>, <<"serverrs2", "ServerRS2">>, <<"serverrs3", "ServerRS3">>, <<"serverrs4", "ServerRS4">>>>
CatOs(s) == LET I == {i \in 1..Len(OsTab) : OsTab[i][1] = Lower(s)} IN IF I = {} THEN "" ELSE OsTab[CHOOSE i \in I : TRUE][2]
CatArch(s) == CASE Lower(s) \in {"x64", "amd64"} -> "X64" [] Lower(s) = "arm" -> "ARM" [] Lower(s) \in {"arm64", "aarch64"} -> "ARM64" [] OTHER -> ""
CatArgs(s) == <<"/driver:.", "/os:" \o s.os \o "_" \o s.arch, "/verbose", "/uselocaltime">>
CatSet(s, a, v) == IF a = "arch" THEN [r |-> IF CatArch(v) = "" THEN "no" ELSE "ok", s |-> [s EXCEPT !.arch = CatArch(v)]] ELSE [r |-> IF CatOs(v) = "" THEN "no" ELSE "ok", s |-> [s EXCEPT !.os = CatOs(v)]]

\* ---- a file that holds together: what is referred to is there ------------------------------
Body(F, h) == UNION {x[2] : x \in {y \in F : y[1] = h}}
HasSection(F, h) == \E x \in F : x[1] = h
After(l, p) == SubSeq(l, Len(p) + 1, Len(l))
StringKeys(F) == {l \in Body(F, "Strings") : TRUE}
Defined(F, k) == \E l \in Body(F, "Strings") : StartsWith(l, k \o "=")
Tokens == {"Provider", "MfgName", "DiskName", "REG_DWORD"}
Closed(F) ==
  /\ \A x, y \in F : x[1] = y[1] => x = y
  /\ \A x \in F : \A l \in x[2] : (StartsWith(l, "CopyFiles=") => HasSection(F, After(l, "CopyFiles="))) /\ (StartsWith(l, "AddReg=") => HasSection(F, After(l, "AddReg=")))
  /\ \A x \in F : EndsWith(x[1], "_CopyFiles") => \A l \in x[2] : (l \o "=1") \in Body(F, "SourceDisksFiles")
  /\ \A t \in Tokens : (\E x \in F : x[1] # "Strings" /\ \E l \in x[2] : Contains(l, "%" \o t \o "%")) => Defined(F, t)
  /\ \E l \in Body(F, "Manufacturer") : HasSection(F, "Firmware." \o After(l, "%MfgName%=Firmware,"))
=============================================================================
