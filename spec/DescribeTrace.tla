--------------------------- MODULE DescribeTrace ---------------------------
EXTENDS Describe, Conform
US(ev) == [s |-> [nil |-> TRUE], ok |-> TRUE, exp |-> "any"]
\* certificates that are no PKCS #7 data cannot be shown; ev.der holds those that are
Shown(r, ev) == \A i \in 1..Len(r.certs) : \E j \in 1..Len(ev.der) : ev.der[j] = r.certs[i]
\* colours and pixels are printed on request
Wanted(f, ev) == (f[1] = "pixels" => ev.img) /\ (f[1] \in {"colour", "blue", "green", "red", "rest"} => ev.cols)
UN(st, ev) ==
  CASE ev.k = "print" ->
         LET all == Describe(ev.what, ev.b)
             r == IF ev.what = "bmp" /\ all.ok THEN [all EXCEPT !.facts = SelectSeq(@, LAMBDA f : Wanted(f, ev))] ELSE all
             e == IF r.ok THEN [ok |-> TRUE, facts |-> r.facts, again |-> TRUE, same |-> TRUE] ELSE [ok |-> FALSE] IN
         IF ~r.def \/ (r.ok /\ ~Shown(r, ev)) THEN [s |-> st, exp |-> "any", ok |-> TRUE]
         ELSE [s |-> st, exp |-> e, ok |-> IF r.ok THEN ev.obs = e ELSE ~ev.obs.ok]
    [] OTHER -> [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
