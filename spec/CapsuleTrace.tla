---------------------------- MODULE CapsuleTrace ---------------------------
EXTENDS Capsule, Conform
US(ev) == [s |-> [nil |-> TRUE], ok |-> TRUE, exp |-> "any"]
UN(st, ev) ==
  CASE ev.k = "build" ->  \* a structure given by its parts
         LET e == [b |-> Enc(ev.lvl, ev.t), twice |-> TRUE] IN [s |-> st, exp |-> e, ok |-> ev.obs = e]
    [] ev.k = "decode" ->
         LET r == Dec(ev.lvl, ev.b)
             e == IF r.ok THEN [ok |-> TRUE, t |-> r.t, enc |-> Enc(ev.lvl, r.t)] ELSE [ok |-> FALSE] IN
         [s |-> st, exp |-> IF r.def THEN e ELSE "any", ok |-> r.def => ev.obs = e]
    [] ev.k = "signed" -> [s |-> st, exp |-> Signed(ev.b), ok |-> ev.obs = Signed(ev.b)]
    [] OTHER -> [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
