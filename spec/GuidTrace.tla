----------------------------- MODULE GuidTrace -----------------------------
EXTENDS Guid, Conform
One(cs) ==
  LET c == IsC(cs) r == IsReg(cs) v == GuidOf(cs) IN
  [c |-> c, reg |-> r,
   regtext |-> IF c THEN Str(RegText(v)) ELSE "",
   ctext |-> IF r /\ ~c THEN Str(CText(SelectSeq(RegBody(cs), LAMBDA x : x # "-"))) ELSE "",
   uuid |-> IF c \/ r THEN Str(RegText(v)) ELSE "none",
   back |-> IF c \/ r THEN <<Str(CText(v)), Str(RegText(v))>> ELSE <<>>,
   dsc |-> IF c THEN Upper(Str(RegText(v))) ELSE "any"]
US(ev) == LET want == [i \in 1..Len(ev.strs) |-> One(ev.strs[i])] o == ev.obs IN
  [s |-> [nil |-> TRUE], exp |-> [i \in {j \in 1..Len(want) : o.st # "ok" \/ o.out[j] # want[j]} |-> want[i]],
   ok |-> o.st = "ok" /\ \A i \in 1..Len(want) : [o.out[i] EXCEPT !.dsc = IF want[i].dsc = "any" THEN "any" ELSE @] = want[i]]
UN(st, ev) == [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
