------------------------------ MODULE PolicyMC -----------------------------
(* Every short history of additions to a firmware policy, and every cut and damaged byte of a serialized one and of variable policies. *)
EXTENDS Policy, Json
CONSTANTS MaxOps, Deep
VARIABLES p, ops, doc
A == <<65>>
AB == <<65, 66>>
Pair == <<55296, 56320>>
Rules == {[root |-> r, sub |-> s, name |-> n, t |-> v.t, v |-> v.v] : r \in {RootKey}, s \in {A, AB}, n \in {A}, v \in {[t |-> 0, v |-> A], [t |-> 2, v |-> <<1, 2, 3, 4>>], [t |-> 5, v |-> Rep(7, 8)]}}
         \cup {[root |-> <<1, 0, 0, 129>>, sub |-> <<>>, name |-> Pair, t |-> 0, v |-> <<>>]}
Steps == {[op |-> "rule", r |-> r] : r \in Rules} \cup {[op |-> "device", v |-> v] : v \in {Rep(0, 8), <<1, 0, 0, 0, 0, 0, 0, 128>>}}
         \cup {[op |-> "target", kv |-> kv] : kv \in {<<[n |-> A, v |-> AB], [n |-> Ascii.Nonce, v |-> Rep(9, 8)]>>, <<[n |-> A, v |-> A]>>, <<[n |-> AB, v |-> <<>>]>>}}
Do(q, o) == CASE o.op = "rule" -> AddRule(q, o.r) [] o.op = "device" -> AddRule(q, DeviceRule(o.v)) [] OTHER -> AddTarget(q, o.kv)
FullPolicy == [Fresh EXCEPT !.rules = <<[root |-> RootKey, sub |-> A, name |-> Pair, t |-> 0, v |-> A], [root |-> RootKey, sub |-> A, name |-> A, t |-> 5, v |-> Rep(7, 8)]>>]
Entry(t, named) == [ns |-> Rep(3, 16), min |-> <<1, 0, 0, 0>>, max |-> Rep(255, 4), must |-> <<7, 0, 0, 0>>, cant |-> <<64, 0, 0, 0>>, type |-> t,
                    lock |-> IF t = 3 THEN <<[ns |-> Rep(4, 16), val |-> 9, name |-> A]>> ELSE <<>>, named |-> named, name |-> IF named THEN AB ELSE <<>>]
ValueDocs == {[k |-> "value", b |-> EncVal(r)] : r \in Rules}
Docs == ValueDocs \cup {[k |-> "parse", b |-> Enc(FullPolicy)]} \cup {[k |-> "entry", b |-> EncEntry(Entry(t, nm)) \o <<1, 2, 3>>] : t \in 0..3, nm \in {TRUE, FALSE}} \cup {[k |-> "lock", b |-> EncLock(Entry(3, TRUE).lock[1]) \o <<5>>]}
None == [k |-> "none", b |-> <<>>]
Vals(x) == (IF Deep THEN {0, 1, 2, 3, 4, 5, 6, 12, 16, 44, 255, 216, 220, (x + 1) % 256, (x + 255) % 256, (x + 128) % 256} ELSE {0, 3, 255, (x + 1) % 256, (x + 255) % 256}) \ {x}
VARIABLE n
Init == p = Fresh /\ ops = <<>> /\ ((doc = None /\ n = 0) \/ (n = 1 /\ doc \in Docs))
Next == \/ /\ doc = None /\ Len(ops) < MaxOps /\ UNCHANGED <<doc, n>>
           /\ \E o \in Steps : ops' = Append(ops, o) /\ p' = Do(p, o)
        \/ /\ n = 1 /\ n' = 0 /\ UNCHANGED <<p, ops>>
           /\ \/ \E i \in 0..Len(doc.b) - 1 : doc' = [doc EXCEPT !.b = SubSeq(doc.b, 1, i)]
              \/ \E i \in 1..Len(doc.b) : \E x \in Vals(doc.b[i]) : doc' = [doc EXCEPT !.b[i] = x]
Spec == Init /\ [][Next]_<<p, ops, doc, n>>
NoTwice == \A i, j \in 1..Len(p.rules) : p.rules[i] = p.rules[j] => i = j
RoundTrip == LET r == Dec(Enc(p)) IN r.ok /\ r.p = p
\* what is accepted and can be written is read back the same
Stable == doc.k = "parse" => LET r == Dec(doc.b) IN (r.ok /\ CanEnc(r.p)) => LET q == Dec(Enc(r.p)) IN q.ok /\ q.p = r.p
Entries == (doc.k = "entry" /\ n = 1) => LET r == DecEntry(doc.b) IN r.ok /\ EncEntry(r.e) \o r.rest = doc.b
Progress == doc.k = "entry" => LET r == DecEntry(doc.b) IN r.ok => Len(r.rest) <= Len(doc.b) - EntryHead
Emit == (doc # None \/ Len(ops) = MaxOps) => PrintT("@@" \o ToJson(IF doc # None THEN doc ELSE [k |-> "ops", ops |-> ops]))
=============================================================================
