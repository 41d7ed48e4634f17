------------------------------- MODULE AcpiMC -------------------------------
(* Small tables: every short list of structures and entries, cut and with any length or type byte changed. *)
EXTENDS Acpi, Json
CONSTANTS MaxSubs, Deep
VARIABLES doc
IHead == <<73, 86, 82, 83>> \o LEn(48, 4) \o <<2, 0>> \o <<65, 77, 68, 32, 32, 32>> \o <<84, 69, 83, 84, 49, 32, 32, 32>> \o LEn(1, 4) \o <<65, 77, 68, 32>> \o LEn(7, 4) \o LEn(66, 4) \o Rep(0, 8)
E(t) == CASE t \in {0, 1, 2} -> <<t, 17, 34, 3>> [] t = 3 -> <<3, 16, 0, 1, 4, 255, 0, 0>> [] t = 66 -> <<66, 1, 2, 3, 0, 5, 6, 0>> [] t = 67 -> <<67, 1, 2, 3, 0, 5, 6, 0, 4, 9, 9, 0>>
          [] t = 70 -> <<70, 1, 2, 3, 0, 0, 0, 128>> [] t = 71 -> <<71, 1, 2, 3, 1, 0, 0, 0, 4, 9, 9, 0>> [] t = 72 -> <<72, 1, 2, 3, 7, 160, 0, 1>>
          [] t = 240 -> <<240, 1, 2, 3>> \o <<65, 77, 68, 73, 48, 48, 48, 49>> \o Rep(32, 8) \o <<0, 0>>
          [] t = 241 -> <<240, 1, 2, 3>> \o <<65, 77, 68, 73, 48, 48, 48, 49>> \o Rep(32, 8) \o <<1, 8, 1, 2, 3, 4, 5, 6, 7, 8>>
          [] OTHER -> <<240, 1, 2, 3>> \o <<65, 77, 68, 73, 48, 48, 48, 49>> \o Rep(32, 8) \o <<2, 3, 65, 66, 67>>
Kinds == {0, 1, 2, 3, 66, 67, 70, 71, 72, 240, 241, 242}
Hd(t) == <<t, 160, 0, 0, 2, 0, 64, 0>> \o <<0, 0, 0, 253, 0, 0, 0, 0>> \o <<0, 0, 0, 19, 1, 2, 3, 4>> \o (IF t = 16 THEN <<>> ELSE <<239, 115, 79, 34, 97, 47, 29, 122>> \o Rep(0, 8))
Md(t) == [h |-> <<t, 8, 32, 0, 1, 0, 3, 0>> \o Rep(0, 8) \o <<0, 0, 16, 0, 0, 0, 0, 0>> \o <<0, 0, 1, 0, 0, 0, 0, 0>>, d |-> <<>>]
Subs == {[h |-> Hd(16), d |-> ds] : ds \in {<<>>} \cup {<<E(k)>> : k \in Kinds}} \cup {[h |-> Hd(t), d |-> <<E(k), E(1)>>] : t \in {17, 64}, k \in {3, 67, 241}} \cup {Md(t) : t \in {32, 33, 34}}
FewSubs == {[h |-> Hd(17), d |-> <<E(70)>>], Md(34), [h |-> Hd(16), d |-> <<E(3), E(0)>>]}
Tables == {[h |-> IHead, subs |-> <<>>]} \cup {[h |-> IHead, subs |-> <<s>>] : s \in Subs} \cup (IF MaxSubs > 1 THEN {[h |-> IHead, subs |-> <<s, u>>] : s \in FewSubs, u \in (IF Deep THEN Subs ELSE FewSubs)} ELSE {})
DHead == <<68, 77, 65, 82>> \o LEn(48, 4) \o <<1, 0>> \o <<73, 78, 84, 69, 76, 32>> \o <<69, 68, 75, 50, 32, 32, 32, 32>> \o LEn(2, 4) \o <<73, 78, 84, 76>> \o LEn(1, 4) \o <<38, 5>> \o Rep(0, 10)
Sc(t, n) == <<t, 6 + 2 * n, 0, 0, 8, 240>> \o Cat([i \in 1..n |-> <<31, i>>])
DB(t, x) == LEn(t, 2) \o LEn(4 + Len(x), 2) \o x
DSubs == {DB(0, <<1, 0, 0, 0>> \o LEn(1000, 8) \o s) : s \in {<<>>, Sc(1, 1), Sc(3, 2) \o Sc(5, 0), Sc(2, 1)}} \cup {DB(1, <<0, 0, 0, 0>> \o LEn(4096, 8) \o LEn(8191, 8) \o s) : s \in {<<>>, Sc(1, 1), Sc(1, 2) \o Sc(4, 1)}}
         \cup {DB(2, <<0, 0, 1, 0>> \o s) : s \in {<<>>, Sc(1, 1)}} \cup {DB(3, LEn(0, 4) \o LEn(77, 8) \o LEn(2, 4))} \cup {DB(4, <<0, 0, 0, 1>> \o n) : n \in {<<>>, <<65, 66>>}}
FewD == {DB(1, <<0, 0, 0, 0>> \o LEn(4096, 8) \o LEn(8191, 8) \o Sc(1, 1)), DB(4, <<0, 0, 0, 1, 65, 66>>), DB(3, LEn(0, 4) \o LEn(77, 8) \o LEn(2, 4))}
DTables == {DHead} \cup {DHead \o s : s \in DSubs} \cup (IF MaxSubs > 1 THEN {DHead \o s \o u : s \in FewD, u \in (IF Deep THEN DSubs ELSE FewD)} ELSE {})
Resum(b) == IF Len(b) < 10 THEN b ELSE LET z == [b EXCEPT ![10] = 0] IN [b EXCEPT ![10] = (256 - Sum8(z, 1)) % 256]
\* damage behind the header
Hurt(b) == {SubSeq(b, 1, i) : i \in {48, 51, Len(b) - 1, Len(b) - 4} \cap 1..Len(b)} \cup {[b EXCEPT ![i] = x] : i \in (IF Len(b) < 49 THEN {} ELSE {j \in 49..Len(b) : j < 56 \/ Deep \/ (j - 49) % 3 = 0}), x \in {0, 4, 255}} \cup {b \o <<0, 0, 0, 0>>}
Relen(b) == IF Len(b) < 8 THEN b ELSE SubSeq(b, 1, 4) \o LEn(Len(b), 4) \o From(b, 9)
Init == \/ \E t \in Tables : doc = [k |-> "read", b |-> Table(t), full |-> TRUE]
        \/ \E t \in {x \in Tables : Len(x.subs) = 1 \/ Deep} : \E b \in Hurt(Table(t)) : \E c \in {b, Resum(b), Resum(Relen(b))} : doc = [k |-> "read", b |-> c, full |-> FALSE]
        \/ \E b \in DTables : doc = [k |-> "dmar", b |-> Resum(Relen(b)), full |-> TRUE]
        \/ \E d \in {DHead \o s : s \in DSubs} : \E b \in Hurt(d) : doc = [k |-> "dmar", b |-> b, full |-> FALSE]
Next == FALSE /\ UNCHANGED doc
Spec == Init /\ [][Next]_doc
\* what is read is written again exactly, and a table that was written adds up
RoundTrip == doc.k = "read" => LET r == Read(doc.b) IN r.ok => Sum8(Table(r.t), 1) = 0 /\ Len(Table(r.t)) = Len(doc.b) /\ Read(Table(r.t)).t.subs = r.t.subs /\ (doc.full => Table(r.t) = doc.b)
Reads == doc.full => IF doc.k = "read" THEN Read(doc.b).ok ELSE DRead(doc.b).ok
Emit == PrintT("@@" \o ToJson(doc))
=============================================================================
