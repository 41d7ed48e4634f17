---------------------------- MODULE BuildReportMC ----------------------------
(* Every short PCD section, library section and flash region made of the kinds of blocks a report has, every order of the sections of a module, every way an override line can be right or wrong. *)
EXTENDS BuildReport, TLC, Json
CONSTANT MaxBlocks
VARIABLES kind, blocks
vars == <<kind, blocks>>
Roots == <<"/R/pp", "/R/ws">>
\* blocks: tag, lines, key, value
B(t, ls, k, v) == [t |-> t, ls |-> ls, k |-> k, v |-> v]
PcdBlocks == {B("ts", <<"gATok">>, "gATok", ""), B("ts", <<"gBTok">>, "gBTok", ""), B("pcd", <<"*P PcdA    :  FIXED    (UINT8) = 0x1 (1)">>, "PcdA", "0x1 (1)"),
              B("pcd", <<"PcdB    : FIXED (VOID*) = L\"a:b=c\"">>, "PcdB", "L\"a:b=c\""), B("pcd", <<"*F PcdA    : DYN (VOID*) = {", "0x01, 0x02,", "0x11}">>, "PcdA", "{ 0x01, 0x02, 0x11}"),
              B("pcd", <<"PcdC : FLAG (VOID*) = \"{\"">>, "PcdC", "\"{\""), B("no", <<"0x10">>, "", ""), B("no", <<"DEC DEFAULT = 0x2">>, "", ""), B("no", <<"DSC DEFAULT = L\"x:y\"">>, "", ""),
              B("no", <<"DEC DEFAULT = {", "0x01, 0x02,", "0x11}">>, "", ""), B("no", <<": DYN (UINT8) (SKU1) = 0x3">>, "", ""), B("no", <<"gEfiX: Var: 0x4">>, "", "")}
LibBlocks == {B("lib", <<"/R/ws/A/a.inf", "{LibA}">>, "LibA", "A/a.inf"), B("lib", <<"/R/pp/B/b.inf", "{LibB: C = Ctor D = Dtor}">>, "LibB", "B/b.inf"), B("lib", <<"/R/x/c.inf", "{NULL: C = N}">>, "NULL", "/R/x/c.inf"),
              B("lib", <<"/R/ws/A/d-", "e.inf", "{LibA: Depex = TRUE", "AND FALSE}">>, "LibA", "A/d-e.inf"), B("lib", <<"/R/ws/n.inf", "{null}">>, "null", "n.inf")}
FlashBlocks == {B("fv", <<"Fv Name:            FVA (99.5% Full)">>, "FVA", ""), B("fv", <<"Fv Name:  FVB (0.1% Full)">>, "FVB", ""), B("inf", <<"0x00000048 Dxe (/R/ws/P/a.inf)">>, "P/a.inf", ""), B("inf", <<"0x00010048 Pei (/R/pp/Q/", "B.inf)">>, "Q/B.inf", ""),
                B("no", <<"0x100 11111111-2222-3333-4444-555555555555">>, "", ""), B("no", <<"Free Size:          0x0 (0K)">>, "", ""), B("no", <<"0x200 Out (/R/x/P/a.inf)">>, "", "")}
SecBlocks == {B("pcd", <<SubStart, "PCD", "-----", "gATok", "PcdA : FIXED (UINT8) = 0x1", SubEnd>>, "gATok.PcdA", "0x1"), B("lib", <<SubStart, "Library", "-----", "/R/ws/A/a.inf", "{LibA}", SubEnd>>, "LibA", "A/a.inf"),
              B("dep", <<SubStart, "Final Dependency Expression (DEPEX) Instructions", "  PUSH gX", "END", "-----", "Dependency Expression (DEPEX) from INF", "(gX AND", "gY)", "-----", "From Module INF:  gX", "From Library INF: (None)", SubEnd>>, "", ""),
              B("dep2", <<SubStart, "Dependency Expression (DEPEX) from INF", "TRUE", "-----", "From Module INF:  TRUE", SubEnd>>, "", ""),
              B("no", <<SubStart, "Build Flags", "Tool Chain Tag:    GCC", "-----", "CC Flags: -DPcdZ=1 {", SubEnd>>, "", ""), B("no", <<SubStart, "Dependency Expression (DEPEX) from DXS", "gZ", SubEnd>>, "", "")}
Ovs == {"#Override : ", " #OVERRIDE:", "#override :", "# Override : ", "#Override "} \X {"00000001", "1", "2", "x", ""} \X {" | P/./a//b.inf | ", "|C:/x.inf|", " | "} \X {"4e36", ""} \X {"| 2018-11-27T22-36-30", " | 2018-02-29T22-36-30", " | 2020-02-29t00-00-00 ", "", " | 2018-11-27T24-00-00"}
Init == \/ kind \in {"pcd", "lib", "flash", "sec"} /\ blocks = <<>>
        \/ kind = "ovr" /\ \E o \in Ovs : blocks = <<o[1] \o o[2] \o o[3] \o o[4] \o o[5]>>
Next == /\ kind # "ovr" /\ Len(blocks) < (IF kind = "pcd" THEN MaxBlocks ELSE MaxBlocks + 1) /\ UNCHANGED kind
        /\ \E b \in CASE kind = "pcd" -> PcdBlocks [] kind = "lib" -> LibBlocks [] kind = "flash" -> FlashBlocks [] OTHER -> SecBlocks :
             (kind = "sec" => \A i \in 1..Len(blocks) : blocks[i] # b) /\ blocks' = Append(blocks, b)
Spec == Init /\ [][Next]_vars
Lines == Concat([i \in 1..Len(blocks) |-> blocks[i].ls])
N == Len(blocks)
\* what the sections say, read off the blocks
Ts(i) == LET J == {j \in 1..(i - 1) : blocks[j].t = "ts"} IN IF J = {} THEN "" ELSE blocks[CHOOSE j \in J : \A k \in J : k <= j].k
PcdKey(i) == Ts(i) \o "." \o blocks[i].k
Pcds == kind = "pcd" =>
  Module(M0, <<SubStart, "PCD", SubEnd>> \o <<SubStart, "PCD", "-----">> \o Lines \o <<SubEnd>>, 1, Roots).pcds
    = {<<PcdKey(i), Words(blocks[i].v)>> : i \in {j \in 1..N : blocks[j].t = "pcd" /\ \A k \in (j + 1)..N : ~(blocks[k].t = "pcd" /\ PcdKey(k) = PcdKey(j))}}
Nulls(i) == Cardinality({j \in 1..(i - 1) : Lower(blocks[j].k) = "null"})
LibKey(i) == IF Lower(blocks[i].k) = "null" THEN blocks[i].k \o DecSeq[Nulls(i) + 1] ELSE blocks[i].k
Libs == kind = "lib" =>
  Module(M0, <<SubStart, "Library", "-----">> \o Lines \o <<SubEnd>>, 1, Roots).libs
    = {<<LibKey(i), blocks[i].v>> : i \in {j \in 1..N : \A k \in (j + 1)..N : LibKey(k) # LibKey(j)}}
FvAt(i) == LET J == {j \in 1..(i - 1) : blocks[j].t = "fv"} IN IF J = {} THEN "-" ELSE blocks[CHOOSE j \in J : \A k \in J : k <= j].k
MFile(p) == [M0 EXCEPT !.inf = p]
LastFv(p) == LET J == {j \in 1..N : blocks[j].t = "inf" /\ blocks[j].k = p} IN IF J = {} THEN "-" ELSE FvAt(CHOOSE j \in J : \A k \in J : k <= j)
Flashed == kind = "flash" => LET fl == Flash(Lines, 1, "-") IN
  /\ Volume(MFile("P/a.inf"), fl, Roots) = LastFv("P/a.inf") /\ Volume(MFile("/R/pp/q/b.inf"), fl, Roots) = LastFv("Q/B.inf") /\ Volume(MFile("R/x/P/a.inf"), fl, Roots) = "-"
\* sections do not disturb each other
Kinds == {blocks[i].t : i \in 1..N}
Apart == kind = "sec" => LET m == Module(M0, <<"Module Name: X">> \o Lines, 1, Roots) IN
  /\ m.pcds = (IF "pcd" \in Kinds THEN {<<"gATok.PcdA", <<"0x1">>>>} ELSE {}) /\ m.libs = (IF "lib" \in Kinds THEN {<<"LibA", "A/a.inf">>} ELSE {})
  /\ m.name = "X" /\ Len(m.depex) = (IF "dep" \in Kinds THEN 3 ELSE 0) + (IF "dep2" \in Kinds THEN 1 ELSE 0)
Emit == /\ (kind # "ovr" /\ N = (IF kind = "pcd" THEN MaxBlocks ELSE MaxBlocks + 1)) => PrintT("@@" \o ToJson([kind |-> kind, lines |-> Lines]))
        /\ kind = "ovr" => PrintT("@@" \o ToJson([kind |-> kind, lines |-> blocks]))
=============================================================================
