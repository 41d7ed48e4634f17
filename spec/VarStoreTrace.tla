--------------------------- MODULE VarStoreTrace ---------------------------
EXTENDS VarStore, Conform
US(ev) == [s |-> [img |-> ev.img, st |-> Shut, vars |-> <<>>], ok |-> TRUE, exp |-> "any"]
Drop(s, i) == SubSeq(s, 1, i - 1) \o From(s, i + 1)
UN(st, ev) ==
  CASE ev.k = "open" ->
         LET r == Open(st.img, ev.base, ev.size)
             e == IF r.ok THEN [ok |-> TRUE, kind |-> r.kind, vars |-> r.vars, same |-> TRUE] ELSE [ok |-> FALSE, same |-> TRUE] IN
         [s |-> IF r.ok THEN [st EXCEPT !.st = r, !.vars = r.vars] ELSE st, exp |-> e, ok |-> ev.obs = e]
    [] ev.k = "add" -> [s |-> [st EXCEPT !.vars = Append(@, ev.v)], exp |-> "any", ok |-> TRUE]
    [] ev.k = "remove" -> [s |-> [st EXCEPT !.vars = Drop(@, ev.i)], exp |-> "any", ok |-> TRUE]
    [] ev.k = "setname" -> [s |-> [st EXCEPT !.vars[ev.i].name = ev.name], exp |-> "any", ok |-> TRUE]
    [] ev.k = "setdata" -> [s |-> [st EXCEPT !.vars[ev.i].data = ev.data], exp |-> "any", ok |-> TRUE]
    [] ev.k = "show" ->
         LET v == st.vars[ev.i] k == st.st.kind
             e == [b |-> Body(k, v), p |-> Enc(k, v), n |-> Len(Enc(k, v)), d |-> Len(Body(k, v)), again |-> v, pos |-> 3, again2 |-> v] IN
         [s |-> st, exp |-> e, ok |-> ev.obs = e]
    [] ev.k = "flush" ->
         LET f == Fits(st.st, st.vars)
             img == IF f THEN Write(st.img, st.st, st.vars) ELSE st.img
             e == [ok |-> f, img |-> img] IN
         [s |-> [st EXCEPT !.img = img], exp |-> e, ok |-> ev.obs = e]
    [] OTHER -> [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
