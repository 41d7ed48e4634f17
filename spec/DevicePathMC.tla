---------------------------- MODULE DevicePathMC ----------------------------
(* Every short path over nodes of every kind (known, unimplemented, unknown, end), with lengths that are wrong. *)
EXTENDS DevicePath, Json, TLC
CONSTANTS MaxNodes, Deep
VARIABLES b, parts
Fill(n, s) == [i \in 1..n |-> (i * 37 + s) % 256]
Size(t, s) == IF Need(t, s)[1] = Need(t, s)[2] THEN Need(t, s)[1] ELSE IF t = 3 /\ s = 23 THEN 12 ELSE 6
Datas(t, s) == LET n == Size(t, s) IN
  IF t = 4 /\ s = 4 THEN {<<>>, <<92, 0, 65, 0, 0, 0>>, <<61, 216, 0, 222>>, <<65>>}
  ELSE IF t = 3 /\ s = 23 THEN {Fill(12, 3), Fill(17, 9) \o <<110, 113, 110, 0, 0>>, Fill(17, 1)}
  ELSE IF t = 3 /\ s = 12 THEN {Fill(23, 3), Rep(255, 23), Fill(22, 3)}
  ELSE {Fill(n, t), Rep(255, n)} \cup (IF Need(t, s)[1] > 0 THEN {Fill(n - 1, 1), Rep(0, n)} ELSE {Rep(0, n)})
Kinds == {<<t, s>> \in {1, 2, 3, 4, 5, 6, 127} \X (0..32 \cup {255}) : TRUE}
All == UNION {{NodeBytes(k[1], k[2], d) : d \in Datas(k[1], k[2])} : k \in Kinds}
Some == {NodeBytes(1, 1, <<0, 6>>), NodeBytes(3, 24, <<104, 105>>), NodeBytes(127, 255, <<>>), NodeBytes(4, 4, <<92, 0, 65, 0, 0, 0>>), NodeBytes(9, 9, <<1>>), <<1, 1, 0, 0>>, <<1, 1, 3, 0>>, <<1, 1, 2>>, <<3, 24, 5, 1, 7>>, <<>>}
     \cup (IF Deep THEN {NodeBytes(2, 1, Fill(8, 5)), NodeBytes(3, 24, Fill(300, 5)), NodeBytes(127, 1, <<>>), <<1>>, <<4, 4, 7, 0, 65, 0, 0>>, NodeBytes(4, 8, Fill(20, 7))} ELSE {})
Init == b \in All \cup {<<>>} /\ parts = <<b>>
Next == Len(parts) < MaxNodes /\ (Len(parts) > 1 => parts[1] \in Some) /\ \E x \in Some : b' = b \o x /\ parts' = Append(parts, x)
Spec == Init /\ [][Next]_<<b, parts>>
P == Path(b)
\* a path is its nodes: what is read of the parts is read of the whole
Compose == (\A i \in 1..Len(parts) : Path(parts[i]).r = "ok") =>
             P.r = "ok" /\ P.nodes = Concat([i \in 1..Len(parts) |-> Path(parts[i]).nodes])
RECURSIVE Sum(_, _)
Sum(ns, i) == IF i > Len(ns) THEN 0 ELSE ns[i].n + Sum(ns, i + 1)
Covers == P.r = "ok" => /\ Sum(P.nodes, 1) = Len(b) /\ b = Concat([i \in 1..Len(P.nodes) |-> NodeBytes(P.nodes[i].t, P.nodes[i].s, P.nodes[i].d)])
\* fields lie inside the data and each of them counts: no two field sets of the same kind are equal for different data (checked on the two patterns)
Tells == \A k \in {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 5>>, <<3, 11>>, <<3, 18>>, <<4, 1>>, <<4, 6>>, <<4, 7>>, <<4, 8>>} :
           (Len(parts) = 1 /\ Len(b) > 4 /\ <<b[1], b[2]>> = k /\ P.r = "ok") =>
             \A i \in 1..Len(P.nodes[1].d) : LET d == P.nodes[1].d e == [d EXCEPT ![i] = (@ + 1) % 256] IN ToString(Own(k[1], k[2], d)) # ToString(Own(k[1], k[2], e))
Emit == PrintT("@@" \o ToJson([b |-> b]))
=============================================================================
