----------------------------- MODULE DevicePath -----------------------------
(***************************************************************************)
(* UEFI device paths: a sequence of nodes, each a header (type, subtype,   *)
(* length of the whole node, two bytes) and data.  A node is shown as a    *)
(* title and a set of fields <<name, tag, value>>; numbers are eight bytes *)
(* (little endian), texts that may hold any character are code units.      *)
(***************************************************************************)
EXTENDS Bytes, Text

Named(tab, n, else) == LET I == {i \in 1..Len(tab) : tab[i][1] = n} IN IF I = {} THEN else ELSE tab[CHOOSE i \in I : TRUE][2]
Types == <<<<1, "Hardware">>, <<2, "ACPI">>, <<3, "Messaging">>, <<4, "Media">>, <<5, "BIOS Boot Specification">>, <<127, "End of Hardware">>>>
Subs(t) ==
  CASE t = 1 -> <<<<1, "PCI">>, <<2, "PCCARD">>, <<3, "Memory Mapped">>, <<4, "Vendor">>, <<5, "Controller">>, <<6, "BMC">>>>
    [] t = 2 -> <<<<1, "ACPI HID">>, <<2, "ACPI Extended HID">>>>
    [] t = 3 -> <<<<1, "ATAPI">>, <<2, "SCSI">>, <<3, "Fibre Channel">>, <<4, "1394">>, <<5, "USB">>, <<6, "I2O">>, <<9, "InfiniBand">>, <<10, "Vendor">>, <<11, "MAC Address">>, <<12, "IPv4">>, <<13, "IPv6">>,
                  <<14, "UART">>, <<15, "USB Class">>, <<16, "USB WWID">>, <<17, "Device Logical Unit">>, <<18, "SATA">>, <<19, "iSCSI">>, <<20, "VLAN">>, <<21, "Fibre Channel Extended">>, <<22, "SAS Extended">>,
                  <<23, "NVMe Namespace">>, <<24, "URI">>, <<25, "UFS">>, <<26, "SD">>, <<27, "eMMC">>, <<28, "BlueField">>, <<29, "Bluetooth">>, <<30, "WiFi">>, <<31, "EFI">>>>
    [] t = 4 -> <<<<1, "Hard Drive">>, <<2, "CD-ROM">>, <<3, "Vendor">>, <<4, "File Path">>, <<5, "Protocol">>, <<6, "PIWG Firmware File">>, <<7, "PIWG Firmware Volume">>, <<8, "Relative Offset Range">>>>
    [] t = 5 -> <<<<1, "BIOS Boot Specification">>>>
    [] OTHER -> <<>>
TypeName(t) == Named(Types, t, "NOT FOUND")
SubName(t, s) == IF t = 127 THEN "End of Hardware" ELSE IF TypeName(t) = "NOT FOUND" THEN "NOT_FOUND!" ELSE Named(Subs(t), s, "Unimplemented!")

HexD == Chars("0123456789ABCDEF")
Hex2(b) == HexD[b \div 16 + 1] \o HexD[(b % 16) + 1]
RECURSIVE HexCat(_)
HexCat(bs) == IF Len(bs) = 0 THEN "" ELSE Hex2(bs[1]) \o HexCat(Tail(bs))
RECURSIVE NoZero(_)
NoZero(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN NoZero(SubSeq(s, 2, Len(s))) ELSE s
HexNum(le) == NoZero(HexCat(Reverse8(le)))
GuidText(b) == HexCat(Reverse8(At(b, 1, 4))) \o "-" \o HexCat(Reverse8(At(b, 5, 2))) \o "-" \o HexCat(Reverse8(At(b, 7, 2))) \o "-" \o HexCat(At(b, 9, 2)) \o "-" \o HexCat(At(b, 11, 6))
RECURSIVE DecOf(_)
DecOf(n) == IF n < 10 THEN DecSeq[n + 1] ELSE DecOf(n \div 10) \o DecSeq[(n % 10) + 1]
Ip(b) == DecOf(b[1]) \o "." \o DecOf(b[2]) \o "." \o DecOf(b[3]) \o "." \o DecOf(b[4])
RECURSIVE Mac(_)
Mac(b) == IF Len(b) = 1 THEN Hex2(b[1]) ELSE Hex2(b[1]) \o ":" \o Mac(Tail(b))
Units(b) == [i \in 1..(Len(b) \div 2) |-> b[2 * i - 1] + 256 * b[2 * i]]
RECURSIVE NoNul(_)
NoNul(us) == IF Len(us) > 0 /\ us[Len(us)] = 0 THEN NoNul(SubSeq(us, 1, Len(us) - 1)) ELSE us

\* a number field: n bytes of the data at offset o (from 0)
N(name, d, o, n) == <<name, "n", At(d, o + 1, n) \o Rep(0, 8 - n)>>
S(name, s) == <<name, "s", s>>
U(name, us) == <<name, "u", us>>
\* how much data a node needs: [lo, hi] ("hi" 70000: any)
Need(t, s) ==
  CASE t = 1 /\ s = 1 -> <<2, 2>> [] t = 1 /\ s = 2 -> <<1, 1>> [] t = 2 /\ s = 1 -> <<8, 8>> [] t = 3 /\ s = 5 -> <<2, 2>> [] t = 3 /\ s = 11 -> <<33, 33>> [] t = 3 /\ s = 12 -> <<23, 23>>
    [] t = 3 /\ s = 18 -> <<6, 6>> [] t = 3 /\ s = 23 -> <<1, 70000>> [] t = 4 /\ s = 1 -> <<38, 38>> [] t = 4 /\ s \in {6, 7} -> <<16, 16>> [] t = 4 /\ s = 8 -> <<20, 20>> [] OTHER -> <<0, 70000>>
\* surrogates in pairs, an even number of bytes, plain NQNs
Hi(u) == u >= 55296 /\ u < 56320
Lo(u) == u >= 56320 /\ u < 57344
PairsRight(us) == \A i \in 1..Len(us) : (Hi(us[i]) => (i < Len(us) /\ Lo(us[i + 1]))) /\ (Lo(us[i]) => (i > 1 /\ Hi(us[i - 1])))
Sane(t, s, d) ==
  /\ Len(d) >= Need(t, s)[1] /\ Len(d) <= Need(t, s)[2]
  /\ (t = 4 /\ s = 4) => (Len(d) % 2 = 0 /\ PairsRight(Units(d)))
  /\ (t = 3 /\ s = 23) => \A i \in 18..Len(d) : d[i] < 128
Own(t, s, d) ==
  CASE t = 1 /\ s = 1 -> {N("Function", d, 0, 1), N("Device", d, 1, 1)}
    [] t = 1 /\ s = 2 -> {N("FunctionNumber", d, 0, 1)}
    [] t = 2 /\ s = 1 -> {S("HID", HexNum(At(d, 1, 4))), S("UID", HexNum(At(d, 5, 4)))}
    [] t = 3 /\ s = 5 -> {N("ParentPortNumber", d, 0, 1), N("InterfaceNumber", d, 1, 1)}
    [] t = 3 /\ s = 11 -> {S("MacAddress.Addr", Mac(At(d, 1, 32))), N("IfType", d, 32, 1)}
    [] t = 3 /\ s = 12 -> {S("LocalIpAddress", Ip(At(d, 1, 4))), S("RemoteIpAddress", Ip(At(d, 5, 4))), N("LocalPort", d, 8, 2), N("RemotePort", d, 10, 2), N("Protocol", d, 12, 2),
                           <<"StaticIpAddress", "b", d[15] # 0>>, S("GatewayIpAddress", Ip(At(d, 16, 4))), S("SubnetMask", Ip(At(d, 20, 4)))}
    [] t = 3 /\ s = 18 -> {N("HBAPortNumber", d, 0, 2), N("PortMultiplierPortNumber", d, 2, 2), N("Lun", d, 4, 2)}
    [] t = 3 /\ s = 23 -> {N("NamespaceIdType", d, 0, 1), S("NamespaceId", HexCat(SubSeq(d, 2, Min2(17, Len(d))))), U("SubsystemNqn", NoNul(SubSeq(d, 18, Len(d))))}
    [] t = 4 /\ s = 1 -> {N("PartitionNumber", d, 0, 4), N("PartitionStart", d, 4, 8), N("PartitionSize", d, 12, 8), S("Signature", HexCat(At(d, 21, 16))), N("MBRType", d, 36, 1), N("SignatureType", d, 37, 1)}
    [] t = 4 /\ s = 4 -> {U("PathName", NoNul(Units(d)))}
    [] t = 4 /\ s = 6 -> {S("FvFileName", GuidText(d))}
    [] t = 4 /\ s = 7 -> {S("FvName", GuidText(d))}
    [] t = 4 /\ s = 8 -> {N("Reserved", d, 0, 4), N("StartingOffset", d, 4, 8), N("EndingOffset", d, 12, 8)}
    [] OTHER -> {<<"data", "u", d>>}
Head3(p, t, s, n) == {S(p \o "type", TypeName(t)), S(p \o "subtype", SubName(t, s)), <<p \o "length", "n", LEn(n, 8)>>}
Shown(t, s, n, d) ==
  IF t = 127 THEN [title |-> "", fields |-> Head3("", t, s, n)]
  ELSE [title |-> TypeName(t) \o " / " \o SubName(t, s), fields |-> Head3("Header.", t, s, n) \cup Own(t, s, d)]
Node(t, s, n, d) == LET x == Shown(t, s, n, d) IN [t |-> t, s |-> s, n |-> n, d |-> d, title |-> x.title, fields |-> x.fields]
NodeBytes(t, s, d) == <<t, s>> \o LEn(4 + Len(d), 2) \o d

\* ---- walking over the bytes: st = [r result so far, nodes] ------------------------------
\* one step at position i
Step(b, i) ==
  IF Len(b) < i + 3 THEN [r |-> "refused"]
  ELSE LET n == RdLE(b, i + 2, 2) IN
  IF n < 4 THEN [r |-> "refused"]
  ELSE IF i + n - 1 > Len(b) THEN [r |-> "odd"]
  ELSE LET d == SubSeq(b, i + 4, i + n - 1) IN
  IF Sane(b[i], b[i + 1], d) THEN [r |-> "ok", node |-> Node(b[i], b[i + 1], n, d)] ELSE [r |-> "odd"]
RECURSIVE Walk(_, _, _)
Walk(b, i, nodes) ==
  IF i > Len(b) THEN [r |-> "ok", nodes |-> nodes]
  ELSE LET x == Step(b, i) IN IF x.r = "ok" THEN Walk(b, i + x.node.n, Append(nodes, x.node)) ELSE x
Path(b) == Walk(b, 1, <<>>)
=============================================================================
