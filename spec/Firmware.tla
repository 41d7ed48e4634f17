------------------------------ MODULE Firmware ------------------------------
(***************************************************************************)
(* Structures of firmware images: volume and file headers, fault tolerant  *)
(* write blocks, variable stores and variables, BMP images, variable       *)
(* attributes and status codes.  A structure is a sequence of fields, a    *)
(* field is its bytes in memory order (little endian).                     *)
(***************************************************************************)
EXTENDS Bytes, Text

\* ---- fixed structures: names and widths of the fields ------------------------------
Layout(t) ==
  CASE t = "fv" -> <<<<"ZeroVector", 16>>, <<"FileSystemGuid", 16>>, <<"FvLength", 8>>, <<"Signature", 4>>, <<"Attributes", 4>>, <<"HeaderLength", 2>>, <<"Checksum", 2>>,
                     <<"ExtHeaderOffset", 2>>, <<"Reserved", 1>>, <<"Revision", 1>>, <<"Blockmap0", 8>>, <<"Blockmap1", 8>>>>
    [] t = "fvext" -> <<<<"FileSystemGuid", 16>>, <<"ExtHeaderSize", 4>>>>
    [] t = "ffs" -> <<<<"FileSystemGuid", 16>>, <<"Checksum", 2>>, <<"Type", 1>>, <<"Attributes", 1>>, <<"Size0", 1>>, <<"Size1", 1>>, <<"Size2", 1>>, <<"State", 1>>>>
    [] t = "ftwhead" -> <<<<"Signature", 16>>, <<"Crc", 4>>, <<"WorkingBlockValidFields", 1>>, <<"Reserved1", 1>>, <<"Reserved2", 1>>, <<"Reserved3", 1>>, <<"WriteQueueSize", 8>>>>
    [] t = "ftwwrite" -> <<<<"StatusBits", 1>>, <<"ReservedByte1", 1>>, <<"ReservedByte2", 1>>, <<"ReservedByte3", 1>>, <<"CallerId", 16>>, <<"ReservedUint32", 4>>, <<"NumberOfWrites", 8>>, <<"PrivateDataSize", 8>>>>
    [] t = "ftwrec" -> <<<<"StatusBits", 1>>, <<"ReservedByte1", 1>>, <<"ReservedByte2", 1>>, <<"ReservedByte3", 1>>, <<"ReservedUint32", 4>>, <<"Lba", 8>>, <<"Offset", 8>>, <<"Length", 8>>, <<"RelativeOffset", 8>>>>
    [] t = "vsh" -> <<<<"Signature", 16>>, <<"Size", 4>>, <<"Format", 1>>, <<"State", 1>>, <<"Reserved0", 2>>, <<"Reserved1", 4>>>>
    [] t = "var" -> <<<<"StartId", 2>>, <<"State", 1>>, <<"_", 1>>, <<"Attributes", 4>>, <<"NameSize", 4>>, <<"DataSize", 4>>, <<"VendorGuid", 16>>>>
    [] t = "authvar" -> <<<<"StartId", 2>>, <<"State", 1>>, <<"_", 1>>, <<"Attributes", 4>>, <<"MonotonicCount", 8>>, <<"TimeStamp", 16>>, <<"PubKeyIndex", 4>>, <<"NameSize", 4>>, <<"DataSize", 4>>, <<"VendorGuid", 16>>>>
    [] t = "bmp" -> <<<<"CharB", 1>>, <<"CharM", 1>>, <<"Size", 4>>, <<"Rsvd16_1", 2>>, <<"Rsvd16_2", 2>>, <<"ImageOffset", 4>>, <<"HeaderSize", 4>>, <<"PixelWidth", 4>>, <<"PixelHeight", 4>>, <<"Planes", 2>>,
                      <<"BitPerPixel", 2>>, <<"CompressionType", 4>>, <<"ImageSize", 4>>, <<"XPixelsPerMeter", 4>>, <<"YPixelsPerMeter", 4>>, <<"NumberOfColors", 4>>, <<"ImportantColors", 4>>>>
Plain == {"fv", "fvext", "ffs", "ftwhead", "ftwwrite", "ftwrec", "vsh"}
RECURSIVE Upto(_, _)
Upto(l, i) == IF i = 0 THEN 0 ELSE l[i][2] + Upto(l, i - 1)
Width(t) == Upto(Layout(t), Len(Layout(t)))
Fields(t, b) == LET l == Layout(t) IN [i \in 1..Len(l) |-> At(b, Upto(l, i - 1) + 1, l[i][2])]
Index(t, name) == LET l == Layout(t) IN CHOOSE i \in 1..Len(l) : l[i][1] = name
Field(t, fs, name) == fs[Index(t, name)]

FvSignature == <<95, 70, 86, 72>>
FtwGuid == <<43, 41, 88, 158, 104, 124, 125, 73, 160, 206, 101, 0, 253, 159, 27, 149>>
VarGuid == <<22, 54, 207, 221, 117, 50, 100, 65, 152, 182, 254, 133, 112, 127, 254, 125>>
AuthVarGuid == <<120, 44, 243, 170, 123, 148, 154, 67, 161, 128, 46, 20, 78, 195, 119, 146>>
Signed(t, fs) ==
  CASE t = "fv" -> Field(t, fs, "Signature") = FvSignature
    [] t = "ftwhead" -> Field(t, fs, "Signature") = FtwGuid
    [] t = "vsh" -> Field(t, fs, "Signature") \in {VarGuid, AuthVarGuid}
    [] OTHER -> TRUE
\* what is loaded from the bytes from the current position on
Load(t, b) == IF Len(b) < Width(t) THEN [ok |-> FALSE]
              ELSE LET fs == Fields(t, b) IN IF Signed(t, fs) THEN [ok |-> TRUE, fs |-> fs] ELSE [ok |-> FALSE]
Extra(t, fs) == CASE t = "ffs" -> [size |-> RdLE(Field(t, fs, "Size0") \o Field(t, fs, "Size1") \o Field(t, fs, "Size2"), 1, 3)]
                  [] t = "vsh" -> [type |-> IF Field(t, fs, "Signature") = AuthVarGuid THEN "AuthVar" ELSE "Var"]
                  [] OTHER -> [none |-> TRUE]

\* ---- variables: [fs fields, name code units, data] ----------------------------------
\* the reserved byte of the header is always written as zero
Norm(t, fs) == [fs EXCEPT ![Index(t, "_")] = <<0>>]
Units(b) == [i \in 1..(Len(b) \div 2) |-> b[2 * i - 1] + 256 * b[2 * i]]
UnitBytes(us) == Cat([i \in 1..Len(us) |-> <<us[i] % 256, us[i] \div 256>>])
Hi(u) == u >= 55296 /\ u < 56320
Lo(u) == u >= 56320 /\ u < 57344
PairsRight(us) == \A i \in 1..Len(us) : (Hi(us[i]) => (i < Len(us) /\ Lo(us[i + 1]))) /\ (Lo(us[i]) => (i > 1 /\ Hi(us[i - 1])))
StartRight(t, fs) == Field(t, fs, "StartId") = <<170, 85>>
\* "eof": no variable here; "odd": not decided; "refused"; otherwise the variable
LoadVar(t, b) ==
  LET w == Width(t) IN
  IF Len(b) < w THEN [r |-> "refused"]
  ELSE LET fs == Fields(t, b) IN
  IF ~StartRight(t, fs) THEN [r |-> "eof"]
  ELSE LET n == RdLE(Field(t, fs, "NameSize"), 1, 4) d == RdLE(Field(t, fs, "DataSize"), 1, 4) IN
  IF n >= 100000 \/ d >= 100000 \/ w + n + d > Len(b) THEN [r |-> "odd"]
  ELSE IF n % 2 = 1 THEN [r |-> "refused"]
  ELSE LET us == Units(At(b, w + 1, n)) IN
  IF Len(us) = 0 \/ us[1] \in {65279, 65534} \/ us[Len(us)] # 0 THEN [r |-> "odd"]
  ELSE IF ~PairsRight(us) THEN [r |-> "refused"]
  ELSE [r |-> "ok", v |-> [t |-> t, fs |-> Norm(t, fs), name |-> SubSeq(us, 1, Len(us) - 1), data |-> At(b, w + n + 1, d), named |-> TRUE, full |-> TRUE]]
NewVar(t, guid) ==
  LET l == Layout(t) IN
  [t |-> t, name |-> <<>>, data |-> <<>>, named |-> FALSE, full |-> FALSE,
   fs |-> [i \in 1..Len(l) |-> CASE l[i][1] = "StartId" -> <<170, 85>> [] l[i][1] = "State" -> <<63>> [] l[i][1] = "Attributes" -> <<3, 0, 0, 0>> [] l[i][1] = "VendorGuid" -> guid [] OTHER -> Rep(0, l[i][2])]]
SetName(v, us) == [v EXCEPT !.name = us, !.named = TRUE, !.fs[Index(v.t, "NameSize")] = LEn(2 * Len(us) + 2, 4)]
SetData(v, d) == [v EXCEPT !.data = d, !.full = TRUE, !.fs[Index(v.t, "DataSize")] = LEn(Len(d), 4)]
VarSize(v) == Width(v.t) + RdLE(Field(v.t, v.fs, "NameSize"), 1, 4) + RdLE(Field(v.t, v.fs, "DataSize"), 1, 4)
VarPad(v) == (4 - (VarSize(v) % 4)) % 4
VarBytes(v) == Cat(v.fs) \o UnitBytes(v.name) \o <<0, 0>> \o v.data
VarPadded(v) == VarBytes(v) \o Rep(255, VarPad(v))

\* ---- BMP images: [fs, colors, pad, data] ---------------------------------------------
Depths == [d \in {1, 4, 8} |-> CASE d = 1 -> 2 [] d = 4 -> 16 [] d = 8 -> 256]
ColorCount(fs) ==
  LET d == RdLE(Field("bmp", fs, "BitPerPixel"), 1, 2) n == RdLE(Field("bmp", fs, "NumberOfColors"), 1, 4) IN
  IF d \notin DOMAIN Depths THEN 0 ELSE IF n > 0 THEN n ELSE Depths[d]
Bmp(b) ==
  IF Len(b) < 54 THEN [ok |-> FALSE, sure |-> TRUE]
  ELSE LET fs == Fields("bmp", b) IN
  LET size == RdLE(Field("bmp", fs, "Size"), 1, 4)
      off == RdLE(Field("bmp", fs, "ImageOffset"), 1, 4)
      hs == RdLE(Field("bmp", fs, "HeaderSize"), 1, 4)
      n == IF off > 54 THEN ColorCount(fs) ELSE 0 IN
  IF size # Len(b) \/ off < 54 \/ off > size \/ hs < 40 \/ hs > size \/ n >= 100000 \/ 54 + 4 * n > off THEN [ok |-> FALSE, sure |-> hs = 40 \/ size # Len(b) \/ off < 54 \/ off > size \/ hs < 40]
  ELSE [ok |-> TRUE, sure |-> hs = 40, v |-> [fs |-> fs, colors |-> [i \in 1..n |-> At(b, 51 + 4 * i, 4)], pad |-> SubSeq(b, 55 + 4 * n, off), data |-> SubSeq(b, off + 1, size)]]
BmpBytes(v) == Cat(v.fs) \o Cat(v.colors) \o v.pad \o v.data
NewBmp == LET l == Layout("bmp") IN
  [fs |-> [i \in 1..Len(l) |-> CASE l[i][1] = "CharB" -> <<66>> [] l[i][1] = "CharM" -> <<77>> [] l[i][1] \in {"Size", "ImageOffset"} -> LEn(54, 4) [] l[i][1] = "HeaderSize" -> LEn(40, 4)
                                 [] l[i][1] = "Planes" -> <<1, 0>> [] OTHER -> Rep(0, l[i][2])],
   colors |-> <<>>, pad |-> <<>>, data |-> <<>>]

\* ---- variable attributes: low byte and the bytes above it ----------------------------
AttrNames == <<<<64, "AP", "EFI_VARIABLE_APPEND_WRITE">>, <<32, "AT", "EFI_VARIABLE_TIME_BASED_AUTHENTICATED_WRITE_ACCESS">>, <<16, "AW", "EFI_VARIABLE_AUTHENTICATED_WRITE_ACCESS">>,
               <<8, "HW", "EFI_VARIABLE_HARDWARE_ERROR_RECORD">>, <<4, "RT", "EFI_VARIABLE_RUNTIME_ACCESS">>, <<2, "BS", "EFI_VARIABLE_BOOTSERVICE_ACCESS">>, <<1, "NV", "EFI_VARIABLE_NON_VOLATILE">>>>
AttrOf(s) == LET I == {i \in 1..7 : s \in {AttrNames[i][2], AttrNames[i][3]}} IN IF I = {} THEN 0 ELSE AttrNames[CHOOSE i \in I : TRUE][1]
NoBlank(cs) == SelectSeq(cs, LAMBDA c : c # " ")
AttrParts(s) == LET ps == SplitBy(NoBlank(Chars(s)), ",") IN [i \in 1..Len(ps) |-> Upper(Str(ps[i]))]
AttrOk(s) == \A p \in Range(AttrParts(s)) : AttrOf(p) # 0
Bit(n, b) == (n \div b) % 2 = 1
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x + SumSet(S \ {x})
AttrValue(s) == SumSet({AttrOf(p) : p \in Range(AttrParts(s))})
AttrText(n, k) == LET sel == SelectSeq(AttrNames, LAMBDA a : Bit(n, a[1])) IN JoinStr([i \in 1..Len(sel) |-> sel[i][k]], ",")

\* ---- status codes: 4 or 8 bytes, the topmost bit says error ---------------------------
Errors == <<"Load Error", "Invalid Parameter", "Unsupported", "Bad BufferSize", "Buffer Too Small", "Not Ready", "Device Error", "Write Protected", "Out of Resources", "Volume Corrupt", "Volume Full", "No Media",
            "Media Changed", "Not Found", "Access Denied", "No Response", "No Mapping", "Time Out", "Not Started", "Already Started", "Aborted", "ICMP Error", "TFTP Error", "Protocol Error", "Incompatible Error",
            "Security Violation", "CRC Error", "End of Media", "Reserved(29)", "Reserved(30)", "End of File", "Invalid Language", "Compromised Data", "IP Address Conflict", "HTTP Error">>
Warnings == <<"Success", "Unknown Glyph", "Delete Failure", "Write Failure", "Buffer Too Small", "Stale Data", "File System", "Reset Required">>
Status(b) ==
  LET top == b[Len(b)] n == RdLE([b EXCEPT ![Len(b)] = top % 128], 1, Len(b)) IN
  IF top >= 128 THEN (IF n = 0 THEN "NOT VALID" ELSE IF n <= Len(Errors) THEN Errors[n] ELSE "Undefined StatusCode")
  ELSE IF n < Len(Warnings) THEN Warnings[n + 1] ELSE "Undefined StatusCode"
=============================================================================
