-------------------------- MODULE DevicePathTrace --------------------------
EXTENDS DevicePath, Conform
US(ev) == [s |-> [n |-> 0], ok |-> TRUE, exp |-> "any"]
Same(x, o) == /\ x.t = o.t /\ x.s = o.s /\ x.n = o.n /\ x.d = o.d /\ x.title = o.title
              /\ {<<o.fields[i][1], o.fields[i][2]>> : i \in 1..Len(o.fields)} = {<<f[1], f[2]>> : f \in x.fields}
              /\ \A i \in 1..Len(o.fields) : \E f \in x.fields : f[1] = o.fields[i][1] /\ f[2] = o.fields[i][2] /\ f[3] = o.fields[i][3]
UN(st, ev) ==
  IF ev.k = "path" THEN
    LET p == Path(ev.b) IN
    CASE p.r = "odd" -> [s |-> st, ok |-> TRUE, exp |-> "any"]
      [] p.r = "refused" -> [s |-> st, ok |-> ~ev.obs.ok, exp |-> [ok |-> FALSE]]
      [] OTHER -> [s |-> st, exp |-> [ok |-> TRUE, nodes |-> p.nodes],
                   ok |-> ev.obs.ok /\ Len(ev.obs.nodes) = Len(p.nodes) /\ \A i \in 1..Len(p.nodes) : Same(p.nodes[i], ev.obs.nodes[i])]
  ELSE [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
