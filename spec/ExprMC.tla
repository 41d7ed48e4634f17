------------------------------- MODULE ExprMC -------------------------------
(* All token strings over a small alphabet, one token per step. *)
EXTENDS Expr, Json
CONSTANTS MaxLen, Mode
VARIABLE ts

V(q, s) == [k |-> "val", q |-> q, s |-> s]
O(s) == [k |-> "op", s |-> s]
Alphabet == IF Mode = "bool"
            THEN {V(FALSE, "TRUE"), V(FALSE, "0"), O("AND"), O("OR"), O("NOT"), O("=="), [k |-> "("], [k |-> ")"]}
            ELSE IF Mode = "cmp"
            THEN {V(TRUE, "a"), V(FALSE, "0x10"), V(TRUE, "16"), O("=="), O("!="), O("IN"), O("AND"), O("NOT")}
            ELSE {V(FALSE, "2"), V(FALSE, "0xA"), O("<"), O(">="), O("OR"), [k |-> "("], [k |-> ")"]}

Depth(x) == Cardinality({i \in 1..Len(x) : x[i].k = "("}) - Cardinality({i \in 1..Len(x) : x[i].k = ")"})
\* prefixes that can still be completed within MaxLen
Viable(x) ==
  LET n == Len(x) last == x[n] IN
  /\ Depth(x) >= 0 /\ n + Depth(x) <= MaxLen
  /\ n = 1 => last.k \in {"val", "("} \/ (last.k = "op" /\ last.s = "NOT")
  /\ n > 1 => LET prev == x[n - 1]
                  afterOperand == prev.k \in {"val", ")"} IN
              CASE last.k = "val" -> ~afterOperand
                [] last.k = "(" -> ~afterOperand
                [] last.k = ")" -> afterOperand
                [] OTHER -> last.s = "NOT" \/ afterOperand
                              \/ (prev.k = "op" /\ prev.s = "NOT" /\ n > 2 /\ x[n - 2].k \in {"val", ")"})

Init == ts = <<>>
Next == \E a \in Alphabet : Len(ts) < MaxLen /\ ts' = Append(ts, a) /\ Viable(ts')
Spec == Init /\ [][Next]_ts

Formed == Len(ts) > 0 /\ Denote(ts).t # "malformed"
Without(i) == SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts))
\* the stack machine computes the denotation
MachineRefines == Formed => MachineVerdict(ts) = Verdict(ts)
\* losing any one token either leaves a well formed expression or is rejected
SingleFaultRejected ==
  Formed => \A i \in 1..Len(ts) : LET r == Without(i) IN
     (Len(r) > 0 /\ Denote(r).t = "malformed" /\ ~(r[Len(r)].k = "op" /\ r[Len(r)].s = "NOT"))
        => MachineVerdict(r) \in {"E", "U"}
Emit == (Formed /\ Verdict(ts) # "U") => PrintT("@@" \o ToJson([ts |-> ts, v |-> Verdict(ts)]))
=============================================================================
