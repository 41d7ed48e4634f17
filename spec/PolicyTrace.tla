---------------------------- MODULE PolicyTrace ----------------------------
EXTENDS Policy, Conform
US(ev) == [s |-> [p |-> Fresh, has |-> TRUE], ok |-> TRUE, exp |-> "any"]
To(st, p) == [st EXCEPT !.p = p]
UN(st, ev) ==
  CASE ev.k = "rule" ->
         LET e == [added |-> ~Has(st.p, ev.r), n |-> Len(AddRule(st.p, ev.r).rules)] IN [s |-> To(st, AddRule(st.p, ev.r)), exp |-> e, ok |-> ev.obs = e]
    [] ev.k = "device" ->
         LET p == AddRule(st.p, DeviceRule(ev.v)) e == [n |-> Len(p.rules)] IN [s |-> To(st, p), exp |-> e, ok |-> ev.obs = e]
    [] ev.k = "target" ->
         LET p == AddTarget(st.p, ev.kv) e == [n |-> Len(p.rules)] IN [s |-> To(st, p), exp |-> e, ok |-> ev.obs = e]
    [] ev.k = "header" -> [s |-> To(st, [st.p EXCEPT !.pv = ev.pv, !.opt = ev.opt, !.pub = ev.pub]), exp |-> "any", ok |-> TRUE]
    [] ev.k = "serialize" ->
         IF ~CanEnc(st.p) THEN [s |-> st, exp |-> "any", ok |-> TRUE]
         ELSE LET b == Enc(st.p)
                  e == [b |-> b, vt |-> HeadSize + RuleSize * Len(st.p.rules), vs |-> Len(b) - HeadSize - RuleSize * Len(st.p.rules), stream |-> TRUE] IN
              [s |-> st, exp |-> e, ok |-> ev.obs = e]
    [] ev.k = "parse" ->  \* read in both ways; the object goes on as the one last read
         LET r == Dec(ev.b) e == IF r.ok THEN [ok |-> TRUE, p |-> r.p] ELSE [ok |-> FALSE] IN
         [s |-> IF r.ok THEN To(st, r.p) ELSE To(st, Fresh), exp |-> e, ok |-> ev.obs.bytes = e /\ ev.obs.offsets = e]
    [] ev.k = "value" ->  \* a single string or value at an offset, wherever the stream was before
         LET s == Str(ev.b, ev.o) v == Val(ev.b, ev.o)
             e == [str |-> IF s.ok THEN [ok |-> TRUE, v |-> s.u] ELSE [ok |-> FALSE], val |-> v] IN
         [s |-> st, exp |-> e, ok |-> ev.obs.bytes = e /\ ev.obs.offsets = e]
    [] ev.k = "entry" ->
         LET r == DecEntry(ev.b) e == IF r.ok THEN [ok |-> TRUE, e |-> r.e, rest |-> r.rest, row |-> Row(r.e)] ELSE [ok |-> FALSE] IN
         [s |-> st, exp |-> IF Decided(ev.b) THEN e ELSE "any", ok |-> Decided(ev.b) => ev.obs = e]
    [] ev.k = "lock" ->
         LET r == DecLock(ev.b) IN
         [s |-> st, exp |-> r, ok |-> IF r.ok /\ Odd(r.l.name) THEN TRUE ELSE ev.obs = r]
    [] OTHER -> [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
