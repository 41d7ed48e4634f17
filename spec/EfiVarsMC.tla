----------------------------- MODULE EfiVarsMC -----------------------------
(* Every short history of two variables with one name and two GUIDs, one of them there and protected; what was set last is what is read. *)
EXTENDS EfiVars, TLC, Json
CONSTANT MaxOps
VARIABLES f, f0, ops, last
vars == <<f, f0, ops, last>>
G1 == "8be4df61-93ca-11d2-aa0d-00e098032b8c"
G2 == "8be4df61-93ca-11d2-aa0d-00e098032b8d"
N == <<66, 45>>
V(g, a, imm) == [n |-> N, g |-> g, a |-> a, d |-> <<1, 2>>, imm |-> imm]
Init == /\ f \in [win : BOOLEAN, there : BOOLEAN, sudo : BOOLEAN, prot : BOOLEAN, vars : {{V(G1, 7, TRUE)}, {V(G1, 3, FALSE)}, {V(G1, 7, TRUE), V(G2, 6, FALSE)}}]
        /\ (~f.there => f.vars = {V(G1, 7, TRUE)} /\ f.sudo /\ f.prot)
        /\ (f.win => f.sudo /\ f.prot)
        /\ f0 = f /\ ops = <<>> /\ last = {<<v.g, v.d>> : v \in f.vars}
Note(L, g, d) == {x \in L : x[1] # g} \cup (IF d = <<>> THEN {} ELSE {<<g, d>>})
Do(o, x, L) == f' = x.f /\ ops' = Append(ops, o) /\ last' = (IF x.r[1] = "set" THEN L ELSE last) /\ f0' = f0
SetIt == \E g \in {G1, G2}, a \in {<<>>, <<7>>, <<3>>, <<71>>}, d \in {<<>>, <<9>>}, valid \in BOOLEAN :
           /\ (~valid => ~f.win /\ d = <<9>> /\ a = <<7>>) /\ ~(a = <<71>> /\ d = <<>>)
           /\ LET x == Set(f, N, g, a, d, valid)  old == Get(f, N, g) IN
              Do([k |-> "set", g |-> g, a |-> a, d |-> d, valid |-> valid], x, Note(last, g, IF a = <<71>> /\ old[1] = "ok" THEN old[2] \o d ELSE d))
DelIt == \E g \in {G1, G2} : Do([k |-> "del", g |-> g, a |-> <<>>, d |-> <<>>, valid |-> TRUE], Delete(f, N, g), Note(last, g, <<>>))
Next == Len(ops) < MaxOps /\ (SetIt \/ DelIt)
Spec == Init /\ [][Next]_vars
ReadBack == f.there => \A g \in {G1, G2} : Get(f, N, g) = LET S == {x \in last : x[1] = g} IN IF S = {} THEN <<"missing">> ELSE <<"ok", (CHOOSE x \in S : TRUE)[2]>>
\* a protected variable outlives everything when the flag cannot be cleared; one variable has one value
Kept == ~f.sudo => \A v \in f0.vars : v.imm => v \in f.vars
One == \A v, w \in f.vars : (v.n = w.n /\ v.g = w.g) => v = w
Emit == Len(ops) = MaxOps => PrintT("@@" \o ToJson([win |-> f0.win, there |-> f0.there, sudo |-> f0.sudo, prot |-> f0.prot, vars |-> f0.vars, ops |-> ops]))
=============================================================================
