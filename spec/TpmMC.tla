------------------------------- MODULE TpmMC -------------------------------
(* Every small policy over a few primitives, every short history of a command, and every split of simulator answers. *)
EXTENDS Tpm, Json
CONSTANTS MaxOps, Deep
VARIABLES doc, n
Prims == {[k |-> "loc", v |-> <<>>], [k |-> "loc", v |-> <<0, 4>>], [k |-> "loc", v |-> <<4, 0>>], [k |-> "loc", v |-> <<33>>], [k |-> "cc", s |-> "TPM_CC_Clear"], [k |-> "cc", s |-> "TPM_CC_NV_Write"]}
BadPrims == {[k |-> "loc", v |-> <<0, 32>>], [k |-> "loc", v |-> <<5>>], [k |-> "cc", s |-> "TPM_CC_None"]}
Ps == {<<>>} \cup {<<p>> : p \in Prims} \cup {<<p, q>> : p, q \in Prims} \cup (IF Deep THEN {<<p, q, p>> : p, q \in Prims} ELSE {}) \cup {<<p>> : p \in BadPrims}
Flat == {[k |-> "solo", c |-> p] : p \in Prims \cup BadPrims} \cup {[k |-> "and", cs |-> ps] : ps \in Ps}
Few == {[k |-> "solo", c |-> [k |-> "cc", s |-> "TPM_CC_Clear"]], [k |-> "and", cs |-> <<[k |-> "loc", v |-> <<0, 4>>], [k |-> "cc", s |-> "TPM_CC_Clear"]>>], [k |-> "and", cs |-> <<>>],
        [k |-> "and", cs |-> <<[k |-> "loc", v |-> <<33>>]>>], [k |-> "loc", v |-> <<>>]}
Ors == {[k |-> "or", cs |-> <<>>]} \cup {[k |-> "or", cs |-> <<a>>] : a \in Flat \cup Few} \cup {[k |-> "or", cs |-> <<a, b>>] : a, b \in Few}
       \cup {[k |-> "or", cs |-> Rep([k |-> "solo", c |-> [k |-> "cc", s |-> "TPM_CC_Clear"]], i)] : i \in 7..9}
Nested == {[k |-> "or", cs |-> <<a, o>>] : a \in Few, o \in {x \in Ors : Len(x.cs) \in {0, 2}}} \cup {[k |-> "and", cs |-> <<f>>] : f \in Few}
Trees == Prims \cup BadPrims \cup Flat \cup Ors \cup Nested
\* primitives are given a length the model can hash: 4 zero bytes for the start
D(c) == Digest(<<>>, 4, c)
Els == {[k |-> "int", w |-> w, v |-> v] : w \in {1, 2, 3, 8}, v \in {Zeros(8), Zeros(7) \o <<255>>, Zeros(6) \o <<1, 0>>}} \cup {[k |-> "2b", d |-> d] : d \in {<<>>, <<7>>}}
Datas == {<<>>, <<9>>, <<9, 9, 9>>}
New == [tag |-> <<128, 2>>, code |-> <<0, 0, 1, 68>>, els |-> <<>>]
Replies == {Zeros(4 * z) \o BEn(Len(d), 4) \o d : z \in 0..2, d \in {<<1>>, <<1, 2, 3>>}} \cup {<<0, 0>>, BEn(3, 4) \o <<1, 2>>}
Init == \/ n = 0 /\ doc \in {[k |-> "policy", c |-> c] : c \in Trees}
        \/ n = 0 /\ \E r \in Replies : \E i \in 0..Len(r) : doc = [k |-> "send", d |-> <<5, 6>>, reply |-> r, cut |-> i]
        \/ n = 1 /\ doc = [k |-> "ops", ops |-> <<>>, c |-> New]
Next == /\ n = 1 /\ Len(doc.ops) < MaxOps /\ n' = 1
        /\ \/ \E e \in Els : doc' = [doc EXCEPT !.ops = Append(@, [op |-> "add", e |-> e]), !.c = IF Fits(e) THEN [@ EXCEPT !.els = Append(@, e)] ELSE @]
           \/ \E i \in 1..Len(doc.c.els) : doc.c.els[i].k = "2b" /\ \E d \in Datas : doc' = [doc EXCEPT !.ops = Append(@, [op |-> "data", i |-> i, d |-> d]), !.c.els[i].d = d]
Spec == Init /\ [][Next]_<<doc, n>>
\* a policy is what its primitives are: the same digest only for the same meaning
Prim(p) == PrimBytes(p)
RECURSIVE Meaning(_)
Meaning(c) == CASE c.k = "solo" -> <<"and", <<Prim(c.c)>>>> [] c.k = "and" -> <<"and", [i \in 1..Len(c.cs) |-> Prim(c.cs[i])]>> [] OTHER -> <<"or", [i \in 1..Len(c.cs) |-> Meaning(c.cs[i])]>>
Ok(c) == Built(c) /\ Valid(c)
Sample == Few \cup {[k |-> "or", cs |-> <<a, b>>] : a, b \in Few} \cup {[k |-> "solo", c |-> p] : p \in Prims}
Injective == (doc.k = "policy" /\ Ok(doc.c)) => \A c \in Sample : Ok(c) => ((D(c) = D(doc.c)) <=> (ToString(Meaning(c)) = ToString(Meaning(doc.c))))
SizeRight == doc.k = "ops" => LET b == CommandBytes(doc.c) IN RdBE(b, 3, 4) = Len(b)
Codes == \A a, b \in Commands : (a[1] = b[1] \/ a[2] = b[2]) => a = b
Emit == (n = 0 \/ Len(doc.ops) = MaxOps) => PrintT("@@" \o ToJson(doc))
=============================================================================
