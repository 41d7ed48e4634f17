-------------------------------- MODULE Acpi --------------------------------
(***************************************************************************)
(* The ACPI tables of I/O memory management: IVRS (read, built, written)   *)
(* and DMAR (read).  An IVRS table: [h 48 byte header, subs]; a sub is     *)
(* [h header, d entries] where every entry is its canonical bytes, that is *)
(* with the reserved bytes zero.  Numbers in reports: "0x" and hexadecimal *)
(* digits; a report is a sequence of strings or of [t tag, a attributes].  *)
(***************************************************************************)
EXTENDS Bytes, Text, TLC
Dig == Chars("0123456789ABCDEF")
RECURSIVE HexDigits(_, _)
HexDigits(le, i) == IF i = 0 THEN "" ELSE Dig[(le[i] \div 16) + 1] \o Dig[(le[i] % 16) + 1] \o HexDigits(le, i - 1)
RECURSIVE Strip0(_)
Strip0(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN Strip0(SubSeq(s, 2, Len(s))) ELSE s
Hex(le) == "0x" \o Strip0(HexDigits(le, Len(le)))
Asc == Chars(" !?#$%&?()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[?]^_`abcdefghijklmnopqrstuvwxyz{|}~")
\* texts are reported only if they are plain: letters, digits and spaces
Plain(b) == \A i \in 1..Len(b) : b[i] = 32 \/ (b[i] >= 48 /\ b[i] <= 57) \/ (b[i] >= 65 /\ b[i] <= 90) \/ (b[i] >= 97 /\ b[i] <= 122)
Txt(b) == Str([i \in 1..Len(b) |-> IF b[i] >= 32 /\ b[i] < 127 THEN Asc[(b[i]) - 31] ELSE "?"])
Quoted(b) == "b'" \o Txt(b) \o "'"
No == [ok |-> FALSE]

----------------------------------------------------------------------------
\* IVRS: one device table entry at the start of b: [ok, n bytes used, d canonical bytes]
Two == {66, 70, 72}
Entry(b) ==
  IF Len(b) < 4 THEN No
  ELSE LET t == b[1] IN
    CASE t \in {0, 1, 2} -> [ok |-> TRUE, n |-> 4, d |-> At(b, 1, 4)]
      [] t = 3 -> IF Len(b) < 8 \/ b[5] # 4 THEN No ELSE [ok |-> TRUE, n |-> 8, d |-> At(b, 1, 4) \o <<4, b[6], b[7], 0>>]
      [] t \in Two -> IF Len(b) < 8 THEN No ELSE [ok |-> TRUE, n |-> 8, d |-> At(b, 1, 4) \o (IF t = 66 THEN <<0, b[6], b[7], 0>> ELSE At(b, 5, 4))]
      [] t \in {67, 71} -> IF Len(b) < 12 \/ b[9] # 4 THEN No
                           ELSE [ok |-> TRUE, n |-> 12, d |-> At(b, 1, 4) \o (IF t = 67 THEN <<0, b[6], b[7], 0>> ELSE At(b, 5, 4)) \o <<4, b[10], b[11], 0>>]
      [] t = 240 -> IF Len(b) < 22 THEN No
                    ELSE LET f == b[21] u == b[22] IN
                         IF (f = 0 /\ u # 0) \/ (f = 1 /\ u # 8) \/ f > 2 \/ Len(b) < 22 + u THEN No ELSE [ok |-> TRUE, n |-> 22 + u, d |-> At(b, 1, 22 + u)]
      [] OTHER -> No
\* an entry with an unknown kind of identifier is not decided
Odd(b) == Len(b) >= 22 /\ b[1] = 240 /\ b[21] > 2
RECURSIVE EntriesFrom(_, _)
EntriesFrom(b, acc) == IF b = <<>> THEN [ok |-> TRUE, d |-> acc]
                       ELSE LET e == Entry(b) IN IF ~e.ok THEN [ok |-> FALSE, odd |-> Odd(b)] ELSE EntriesFrom(From(b, e.n + 1), Append(acc, e.d))
HdSize(t) == IF t = 16 THEN 24 ELSE 40
\* one structure at the start of b
Sub(b) ==
  IF b = <<>> THEN No
  ELSE IF b[1] \in {16, 17, 64} THEN
    LET n == HdSize(b[1]) IN
    IF Len(b) < n THEN No
    ELSE LET l == RdLE(b, 3, 2) IN
         IF l < n \/ l > Len(b) THEN No
         ELSE LET es == EntriesFrom(At(b, n + 1, l - n), <<>>) IN
              IF ~es.ok THEN es ELSE [ok |-> TRUE, n |-> l, s |-> [h |-> At(b, 1, n), d |-> es.d]]
  ELSE IF b[1] \in {32, 33, 34} THEN IF Len(b) < 32 \/ RdLE(b, 3, 2) # 32 THEN No ELSE [ok |-> TRUE, n |-> 32, s |-> [h |-> At(b, 1, 32), d |-> <<>>]]
  ELSE No
RECURSIVE SubsFrom(_, _)
SubsFrom(b, acc) == IF b = <<>> THEN [ok |-> TRUE, subs |-> acc] ELSE LET s == Sub(b) IN IF ~s.ok THEN s ELSE SubsFrom(From(b, s.n + 1), Append(acc, s.s))
SubBytes(s) == At(s.h, 1, 2) \o LEn(Len(s.h) + Len(Cat(s.d)), 2) \o From(s.h, 5) \o Cat(s.d)
Body(t) == Cat([i \in 1..Len(t.subs) |-> SubBytes(t.subs[i])])
\* written: the length and the checksum follow the content
Table(t) == LET n == LEn(48 + Len(Body(t)), 4)
                z == At(t.h, 1, 4) \o n \o <<t.h[9], 0>> \o From(t.h, 11) \o Body(t)
            IN [z EXCEPT ![10] = (256 - Sum8(z, 1)) % 256]
Read(b) ==
  IF Len(b) < 48 THEN No
  ELSE IF Sum8(b, 1) # 0 \/ (b[37] \div 2) % 16 = 0 \/ RdLE(b, 5, 4) # Len(b) THEN No
  ELSE LET s == SubsFrom(From(b, 49), <<>>) IN IF ~s.ok THEN s ELSE [ok |-> TRUE, t |-> [h |-> At(b, 1, 48), subs |-> s.subs]]

\* reports
A(n, v) == <<n, v>>
F(b, i, n) == Hex(At(b, i, n))
Ats(b, i) == IF b[i + 3] >= 128 THEN "ATS requests blocked" ELSE "ATS allowed"
Name(t) == CASE t = 0 -> "Reserved" [] t = 1 -> "All" [] t = 2 -> "Select" [] t = 3 -> "Range" [] t = 66 -> "Alias Select" [] t = 67 -> "Alias Range" [] t = 70 -> "Extended Select"
             [] t = 71 -> "Extended Range" [] t = 72 -> "Special Device" [] OTHER -> "Variable Length ACPI HID Device"
Tag(t) == CASE t = 66 -> "AliasSelect" [] t = 67 -> "AliasRange" [] t = 70 -> "ExtendedSelect" [] t = 71 -> "ExtendedRange" [] t = 72 -> "SpecialDevice"
            [] t = 240 -> "VariableLengthACPIHIDDevice" [] OTHER -> Name(t)
Uid(d) == IF d[21] = 0 THEN "None" ELSE IF d[21] = 1 THEN F(d, 23, 8) ELSE Quoted(From(d, 23))
EntryXml(d) ==
  LET t == d[1]
      id == IF t \in {3, 67, 71} THEN <<A("StartofRange", F(d, 2, 2)), A("EndofRange", F(d, Len(d) - 2, 2))>> ELSE <<A("DeviceID", F(d, 2, 2))>>
      more == CASE t \in {66, 67} -> <<A("SourceDeviceID", F(d, 6, 2))>>
                [] t \in {70, 71} -> <<A("ExtendedDTESetting", Ats(d, 5))>>
                [] t = 72 -> <<A("Handle", F(d, 5, 1)), A("SourceDeviceID", F(d, 6, 2)), A("Variety", IF d[8] = 1 THEN "IOAPIC" ELSE IF d[8] = 2 THEN "HPET" ELSE "Reserved " \o Strip0(HexDigits(<<d[8]>>, 1)))>>
                [] t = 240 -> <<A("HardwareID", Quoted(At(d, 5, 8))), A("ExtendedDTESetting", Quoted(At(d, 13, 8))), A("UniqueIDFormat", ToString(d[21])), A("UniqueIDLength", ToString(d[22])), A("UniqueID", Uid(d))>>
                [] OTHER -> <<>>
  IN [t |-> Tag(t), a |-> <<A("Type", F(d, 1, 1)), A("DTESetting", F(d, 4, 1))>> \o id \o more]
SubXml(s) ==
  LET b == SubBytes(s) IN
  IF b[1] >= 32 /\ b[1] <= 34
  THEN <<[t |-> "IVMD", a |-> <<A("Type", F(b, 1, 1)), A("Flags", F(b, 2, 1)), A("Length", F(b, 3, 2)), A("DeviceID", F(b, 5, 2)), A(IF b[1] = 34 THEN "EndofRange" ELSE "AuxiliaryData", F(b, 7, 2)),
                                A("Reserved", F(b, 9, 8)), A("IVMDStartAddress", F(b, 17, 8)), A("IVMDMemoryBlockLength", F(b, 25, 8))>>]>>
  ELSE <<[t |-> "IVHD", a |-> <<A("Type", F(b, 1, 1)), A("Flags", F(b, 2, 1)), A("Length", F(b, 3, 2)), A("IOMMUDeviceID", F(b, 5, 2)), A("CapabilityOffset", F(b, 7, 2)), A("IOMMUBaseAddress", F(b, 9, 8)),
                                A("SegmentGroup", F(b, 17, 2)), A("IOMMUInfo", F(b, 19, 2)), A("IOMMUFeatureInfo", F(b, 21, 4))>> \o (IF b[1] = 16 THEN <<>> ELSE <<A("IOMMUEFRImage", F(b, 25, 8))>>)]>>
       \o [i \in 1..Len(s.d) |-> EntryXml(s.d[i])]
HeadXml(b) == [t |-> "AcpiTableHeader", a |-> <<A("Signature", Quoted(At(b, 1, 4))), A("Length", F(b, 5, 4)), A("Revision", F(b, 9, 1)), A("Checksum", F(b, 10, 1)), A("OEMID", Quoted(At(b, 11, 6))),
                                                A("OEMTableID", Quoted(At(b, 17, 8))), A("OEMRevision", F(b, 25, 4)), A("CreatorID", Quoted(At(b, 29, 4))), A("CreatorRevision", F(b, 33, 4))>>]
Xml(t) == LET b == Table(t) h == HeadXml(b) IN <<[t |-> "IVRSTable", a |-> <<>>], [h EXCEPT !.a = @ \o <<A("IVinfo", F(b, 37, 4))>>]>> \o Cat([i \in 1..Len(t.subs) |-> SubXml(t.subs[i])])
EntryDump(d) ==
  LET t == d[1]
      id == IF t \in {3, 67, 71} THEN <<F(d, 2, 2), F(d, Len(d) - 2, 2)>> ELSE <<F(d, 2, 2)>>
      more == CASE t \in {66, 67} -> <<F(d, 6, 2)>>
                [] t \in {70, 71} -> <<Ats(d, 5)>>
                [] t = 72 -> <<F(d, 6, 2), F(d, 5, 1), IF d[8] = 1 THEN "IOAPIC" ELSE IF d[8] = 2 THEN "HPET" ELSE "Reserved 0x" \o HexDigits(<<d[8]>>, 1)>>
                [] t = 240 -> <<Txt(At(d, 5, 8)), Txt(At(d, 13, 8)), ToString(d[21]), ToString(d[22]), IF d[21] = 2 THEN Txt(From(d, 23)) ELSE Uid(d)>>
                [] OTHER -> <<>>
  IN <<Name(t), F(d, 1, 1)>> \o id \o <<F(d, 4, 1)>> \o more
SubDump(s) ==
  LET b == SubBytes(s) IN
  IF b[1] >= 32 /\ b[1] <= 34 THEN <<"IVMD", F(b, 1, 1), F(b, 2, 1), F(b, 3, 2), F(b, 5, 2), F(b, 7, 2), F(b, 9, 8), F(b, 17, 8), F(b, 25, 8)>>
  ELSE <<"IVHD", F(b, 1, 1), F(b, 2, 1), F(b, 3, 2), F(b, 5, 2), F(b, 7, 2), F(b, 9, 8), F(b, 17, 2), F(b, 19, 2), F(b, 21, 4)>> \o Cat([i \in 1..Len(s.d) |-> EntryDump(s.d[i])])
Dump(t) == LET b == Table(t) IN <<"ACPI Table Header", Txt(At(b, 1, 4)), F(b, 5, 4), F(b, 9, 1), F(b, 10, 1), Txt(At(b, 11, 6)), Txt(At(b, 17, 8)), F(b, 25, 4), Txt(At(b, 29, 4)), F(b, 33, 4), F(b, 37, 4)>>
           \o Cat([i \in 1..Len(t.subs) |-> SubDump(t.subs[i])])
PlainEntry(d) == d[1] # 240 \/ (Plain(At(d, 5, 16)) /\ (d[21] # 2 \/ Plain(From(d, 23))))
PlainTable(t) == Plain(At(t.h, 1, 4)) /\ Plain(At(t.h, 11, 14)) /\ Plain(At(t.h, 29, 4)) /\ \A i \in 1..Len(t.subs) : \A j \in 1..Len(t.subs[i].d) : PlainEntry(t.subs[i].d[j])

----------------------------------------------------------------------------
\* DMAR: [h 48 bytes, subs]; a sub is [b its bytes, sc scopes], a scope is its bytes
Scoped(t) == t \in {0, 1, 2}
HeadSize(t) == CASE t = 0 -> 16 [] t = 1 -> 24 [] t = 2 -> 8 [] t = 3 -> 20 [] OTHER -> 8
RECURSIVE ScopesFrom(_, _)
ScopesFrom(b, acc) == IF b = <<>> THEN [ok |-> TRUE, sc |-> acc]
                      ELSE IF Len(b) < 6 THEN No
                      ELSE IF ~(b[1] \in 1..5) \/ b[2] < 6 \/ b[2] % 2 = 1 \/ b[2] > Len(b) THEN No ELSE ScopesFrom(From(b, b[2] + 1), Append(acc, At(b, 1, b[2])))
DSub(b) ==
  IF Len(b) < 4 THEN No
  ELSE LET t == RdLE(b, 1, 2) l == RdLE(b, 3, 2) IN
       IF t > 4 THEN No
       ELSE IF l < HeadSize(t) \/ l > Len(b) THEN No
       ELSE LET s == IF Scoped(t) THEN ScopesFrom(At(b, HeadSize(t) + 1, l - HeadSize(t)), <<>>) ELSE [ok |-> TRUE, sc |-> <<>>] IN
            IF ~s.ok THEN No ELSE [ok |-> TRUE, n |-> l, s |-> [b |-> At(b, 1, l), sc |-> s.sc]]
RECURSIVE DSubsFrom(_, _)
DSubsFrom(b, acc) == IF b = <<>> THEN [ok |-> TRUE, subs |-> acc] ELSE LET s == DSub(b) IN IF ~s.ok THEN No ELSE DSubsFrom(From(b, s.n + 1), Append(acc, s.s))
DRead(b) == IF Len(b) < 38 THEN No
            ELSE LET s == DSubsFrom(From(b, 49), <<>>) IN IF ~s.ok THEN No ELSE [ok |-> TRUE, t |-> [h |-> At(b, 1, 38), subs |-> s.subs]]
Dec2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE Hops(_, _)
Hops(c, i) == IF i > Len(c) THEN "" ELSE (IF i = 7 THEN "" ELSE ":") \o Dec2(c[i]) \o "." \o ToString(c[i + 1]) \o Hops(c, i + 2)
ScopePath(c) == Dec2(c[6]) \o ":" \o Hops(c, 7)
RECURSIVE Joined(_, _)
Joined(sc, i) == IF i > Len(sc) THEN "" ELSE ScopePath(sc[i]) \o (IF i < Len(sc) THEN ", " ELSE "") \o Joined(sc, i + 1)
RPaths(t) == LET r == SelectSeq(t.subs, LAMBDA s : s.b[1] = 1) IN [i \in 1..Len(r) |-> Joined(r[i].sc, 1)]
Andds(t) == Len(SelectSeq(t.subs, LAMBDA s : s.b[1] = 4))
ScopeName(t) == CASE t = 1 -> "PCI Endpoint Device" [] t = 2 -> "PCI Sub-hierarchy" [] t = 3 -> "IOAPIC" [] t = 4 -> "MSI_CAPABLE_HPET" [] OTHER -> "ACPI_NAMESPACE_DEVICE"
ScopeTag(t) == CASE t = 1 -> "PCIEndpointDevice" [] t = 2 -> "PCISub-hierarchy" [] OTHER -> ScopeName(t)
ScopeFields(c) == <<F(c, 1, 1), F(c, 2, 1), F(c, 3, 2), F(c, 5, 1), F(c, 6, 1)>>
Pair(ns, vs) == [i \in 1..Len(ns) |-> A(ns[i], vs[i])]
DName(t) == CASE t = 0 -> "DRHD" [] t = 1 -> "RMRR" [] t = 2 -> "ASTR" [] t = 3 -> "RHSA" [] OTHER -> "ANDD"
DNames(t) == <<"Type", "Length">> \o
  (CASE t = 0 -> <<"Flags", "Reserved", "SegmentNumber", "RegisterBaseAddress">> [] t = 1 -> <<"Reserved", "SegmentNumber", "ReservedMemoryBaseAddress", "ReservedMemoryRegionLimitAddress">>
     [] t = 2 -> <<"Flags", "Reserved", "SegmentNumber">> [] t = 3 -> <<"Reserved", "RegisterBaseAddress", "ProximityDomain">> [] OTHER -> <<"Reserved", "ACPIDeviceNumber", "ACPIObjectName">>)
DFields(b) == <<F(b, 1, 2), F(b, 3, 2)>> \o
  (CASE b[1] = 0 -> <<F(b, 5, 1), F(b, 6, 1), F(b, 7, 2), F(b, 9, 8)>> [] b[1] = 1 -> <<F(b, 5, 2), F(b, 7, 2), F(b, 9, 8), F(b, 17, 8)>>
     [] b[1] = 2 -> <<F(b, 5, 1), F(b, 6, 1), F(b, 7, 2)>> [] b[1] = 3 -> <<F(b, 5, 4), F(b, 9, 8), F(b, 17, 4)>> [] OTHER -> <<F(b, 5, 3), F(b, 8, 1), Quoted(From(b, 9))>>)
DSubXml(s) == <<[t |-> DName(s.b[1]), a |-> Pair(DNames(s.b[1]), DFields(s.b))]>>
              \o [i \in 1..Len(s.sc) |-> [t |-> ScopeTag(s.sc[i][1]), a |-> Pair(<<"Type", "Length", "Reserved", "EnumerationID", "StartBusNumber">>, ScopeFields(s.sc[i]))]]
DXml(t) == LET h == HeadXml(t.h) IN <<[t |-> "DMARTable", a |-> <<>>], [h EXCEPT !.a = @ \o <<A("HostAddressWidth", F(t.h, 37, 1)), A("Flags", F(t.h, 38, 1))>>]>> \o Cat([i \in 1..Len(t.subs) |-> DSubXml(t.subs[i])])
DSubDump(s) == <<DName(s.b[1])>> \o DFields(s.b) \o Cat([i \in 1..Len(s.sc) |-> <<ScopeName(s.sc[i][1])>> \o ScopeFields(s.sc[i]) \o <<ScopePath(s.sc[i])>>])
DDump(t) == LET b == t.h IN <<"ACPI Table Header", Quoted(At(b, 1, 4)), F(b, 5, 4), F(b, 9, 1), F(b, 10, 1), Quoted(At(b, 11, 6)), Quoted(At(b, 17, 8)), F(b, 25, 4), Quoted(At(b, 29, 4)), F(b, 33, 4), F(b, 37, 1), F(b, 38, 1)>>
            \o Cat([i \in 1..Len(t.subs) |-> DSubDump(t.subs[i])])
PlainD(t) == Plain(At(t.h, 1, 4)) /\ Plain(At(t.h, 11, 14)) /\ Plain(At(t.h, 29, 4)) /\ \A i \in 1..Len(t.subs) : t.subs[i].b[1] # 4 \/ Plain(From(t.subs[i].b, 9))
\* every reserved memory region is one of those expected
Expected(t, golden) == \A i \in 1..Len(RPaths(t)) : RPaths(t)[i] \in {golden[j] : j \in 1..Len(golden)}
=============================================================================
