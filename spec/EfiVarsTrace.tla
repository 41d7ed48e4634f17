---------------------------- MODULE EfiVarsTrace ----------------------------
EXTENDS EfiVars, Conform
SetOf(q) == {q[i] : i \in 1..Len(q)}
US(ev) == [s |-> [win |-> ev.win, there |-> ev.there, sudo |-> ev.sudo, prot |-> ev.prot, vars |-> SetOf(ev.vars)], ok |-> TRUE, exp |-> "any"]
Shown(f) == {[n |-> v.n, g |-> v.g, a |-> v.a, d |-> v.d] : v \in f.vars}
\* what is stored; nothing but the flag of this variable was touched
Stored(f, f2, ev) == /\ SetOf(ev.obs.files) = Shown(f2) /\ Len(ev.obs.files) = Cardinality(f2.vars)
                     /\ \A i \in 1..Len(ev.obs.ran) : LET c == ev.obs.ran[i] IN c.do = "clear" /\ c.n = ev.n /\ Lower(c.g) = Lower(ev.g) /\ Of(f, ev.n, ev.g) # {}
UN(f, ev) ==
  LET o == ev.obs IN
  CASE ev.k = "get" -> [s |-> f, exp |-> [r |-> Get(f, ev.n, ev.g), logged |-> Unusual(f, ev.n, ev.g)], ok |-> o.r = Get(f, ev.n, ev.g) /\ o.logged = Unusual(f, ev.n, ev.g) /\ Stored(f, f, ev) /\ o.ran = <<>>]
    [] ev.k = "set" -> LET x == Set(f, ev.n, ev.g, ev.a, ev.d, ev.valid) IN [s |-> x.f, exp |-> [r |-> x.r, files |-> Shown(x.f)], ok |-> o.r = x.r /\ Stored(f, x.f, ev)]
    [] ev.k = "del" -> LET x == Delete(f, ev.n, ev.g) IN [s |-> x.f, exp |-> [r |-> x.r, files |-> Shown(x.f)], ok |-> o.r = x.r /\ Stored(f, x.f, ev)]
    [] ev.k = "names" -> [s |-> f, exp |-> {Entry(v) : v \in f.vars}, ok |-> NamesRight(f, ev.strange, o.r, o.buf) /\ o.ran = <<>>]
    [] OTHER -> [s |-> f, exp |-> "no step", ok |-> FALSE]
=============================================================================
