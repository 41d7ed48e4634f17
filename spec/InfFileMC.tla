----------------------------- MODULE InfFileMC -----------------------------
(* Every short history of firmware added to an INF file; the file of one firmware for every setting; numbers and dates around their limits. *)
EXTENDS InfFile, TLC, Json
CONSTANT MaxOps
VARIABLES kind, ops, o
vars == <<kind, ops, o>>
G1 == "34e094e9-4079-44cd-9450-3f2cb7824c97"
Guids == {G1, "{34E094E9-4079-44CD-9450-3F2CB7824C98}", "34e094e940794", "urn:uuid:34e094e9-4079-44cd-9450-3f2cb7824c99"}
New1 == [name |-> "Test-1", provider |-> "Prov", arch |-> "X64", desc |-> "D", guid |-> G1, version |-> "1.2.3", hex |-> "0x10"]
NewM == [name |-> "Test_2", version |-> "1.2.3.4", date |-> "2/29/2024", provider |-> "P", mfg |-> "M", arch |-> "aarch64", disk |-> "-", os |-> "-"]
Init == \/ kind = "many" /\ ops = <<>> /\ \E os \in {"-", " 10.0...22000\n", "10.0.1...2"} : o = ManyNew([NewM EXCEPT !.os = os]).s @@ [given |-> os]
        \/ kind = "one" /\ ops = <<>> /\ o = [OneNew(New1).s EXCEPT !.date = "01/02/2024"]
        \/ kind = "num" /\ o = 0 /\ \E n \in {0, 1, 9, 10, 15, 16, 255, 256, 65535, 65536, 99999, 2147483647} : ops = <<n>>
        \/ kind = "day" /\ o = 0 /\ ops \in {<<m, d, y>> : m \in {0, 1, 2, 4, 12, 13}, d \in {0, 1, 9, 28, 29, 30, 31, 32}, y \in {1900, 2000, 2023, 2024}}
Many == /\ kind = "many" /\ Len(ops) < MaxOps
        /\ \/ \E tag \in {"A", "B", "B-1", "x y"}, f \in {"x.bin", "y.bin"}, i \in {"-", "i.bin", "x y"}, rb \in BOOLEAN, g \in {G1, "{34E094E9-4079-44CD-9450-3F2CB7824C98}"} :
                LET e == [op |-> "fw", tag |-> tag, desc |-> "d" \o tag, guid |-> g, ver |-> "16", file |-> f, integ |-> i, rollback |-> rb]  x == ManyFw(o, e) IN
                (rb => f = "x.bin") /\ (g # G1 => i = "-") /\ ops' = Append(ops, e) /\ o' = IF x.r = "ok" THEN x.s @@ [given |-> o.given] ELSE x.no
           \/ \E f \in {"z.dat", "x.bin\n"} : LET x == ManySrc(o, f) IN ops' = Append(ops, [op |-> "src", file |-> f]) /\ o' = IF x.r = "ok" THEN x.s ELSE x.no
One == /\ kind = "one" /\ Len(ops) < MaxOps
       /\ \E av \in {<<"arch", "ARM">>, <<"arch", "mips">>, <<"hex", "4294967295">>, <<"hex", "4294967296">>, <<"hex", "-1">>, <<"guid", "{34E094E9-4079-44CD-9450-3F2CB7824C98}">>, <<"integ", "i.bin">>, <<"mfg", "M">>, <<"name", "a\n">>, <<"version", "1">>, <<"desc", "{Name}">>} :
            LET x == OneSet(o, av[1], av[2]) IN ops' = Append(ops, [op |-> "set", a |-> av[1], v |-> av[2]]) /\ o' = IF x.r = "ok" THEN x.s ELSE o
Next == (Many \/ One) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
Whole == ManyFile(o) \cup {<<"SourceDisksFiles", Source(FwFiles(o) \cup o.files \cup o.stray)>>}
Holds == /\ (kind = "many" /\ Len(o.fws) > 0) => Closed(Whole)
         /\ kind = "one" => \A rb \in BOOLEAN : Closed(OneFile(o, "f.bin", rb))
\* every firmware is there, once
All == kind = "many" =>
  /\ \A i, j \in 1..Len(o.fws) : o.fws[i].tag = o.fws[j].tag => i = j
  /\ \A i \in 1..Len(o.fws) : LET f == o.fws[i] IN ("HKR,,FirmwareId,,{" \o f.guid \o "}") \in Body(Whole, f.tag \o "_AddReg") /\ Defined(Whole, f.tag \o "Desc")
  /\ \A k \in 1..Len(ops) : (ops[k].op = "fw" /\ ManyFw(o, ops[k]).r = "ok") => \E i \in 1..Len(o.fws) : o.fws[i].tag = ops[k].tag
RECURSIVE HexOf(_)
HexOf(n) == IF n < 16 THEN HexUp[n + 1] ELSE HexOf(n \div 16) \o HexUp[(n % 16) + 1]
Numbers == kind = "num" => LET n == ops[1] IN Number(ToString(n)) = [r |-> "ok", v |-> HexOf(n)] /\ Number("0x0" \o HexOf(n)) = Number(ToString(n)) /\ (n > 0 => Number("-" \o ToString(n)).r = "no")
Dates == kind = "day" => LET t == ToString(ops[1]) \o "/" \o ToString(ops[2]) \o "/" \o ToString(ops[3])  r == DateOf(t) IN r # "no" => (DateOf(r) = r /\ Len(r) = 10)
Emit == /\ (kind \in {"one", "many"} /\ Len(ops) = MaxOps) => PrintT("@@" \o ToJson([kind |-> kind, ops |-> ops, os |-> IF kind = "many" /\ Has(o, "given") THEN o.given ELSE "-"]))
        /\ kind \in {"day"} => PrintT("@@" \o ToJson([kind |-> kind, ops |-> ops, os |-> "-"]))
=============================================================================
