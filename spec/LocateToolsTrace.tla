-------------------------- MODULE LocateToolsTrace --------------------------
EXTENDS LocateTools, Conform
Set(q) == {q[i] : i \in 1..Len(q)}
US(ev) == [s |-> [w |-> [ev.w EXCEPT !.bats = Set(@)], have |-> ev.have], ok |-> TRUE, exp |-> "any"]
\* the library asks the network only when there is no vswhere, and keeps nothing but the good file
Fetch(w, have) == w.host.os = "Windows" /\ ~have /\ \A i \in 1..Len(w.dirs) : ~w.dirs[i].has
AskedSame(a, o) == Len(a) = Len(o) /\ \A i \in 1..Len(a) : a[i].tool = o[i].tool /\ a[i].args = Set(o[i].args)
Common(st, ev, x) == ev.obs.have = (IF x.have THEN "yes" ELSE "no") /\ (ev.obs.fetched > 0) = Fetch(st.w, st.have)
Res(st, ev, x, ok) == [s |-> [st EXCEPT !.have = x.have], exp |-> x, ok |-> Common(st, ev, x) /\ ok]
UN(st, ev) ==
  LET w == st.w  o == ev.obs IN
  CASE ev.k = "where" -> LET x == Where(w, st.have, ev.dl, ev.strict) IN Res(st, ev, x, o.r = x.r)
    [] ev.k \in {"all", "find"} ->
         LET x == All(w, st.have, ev.dl, ev.product, ev.ver)
             r == IF ev.k = "find" /\ x.r[1] = "list" THEN <<"one", x.r[2][1]>> ELSE x.r IN
         Res(st, ev, x, o.r = r /\ AskedSame(x.asked, o.asked))
    [] ev.k = "query" ->
         LET x == Query(w, st.have, ev.dl, ev.keys, ev.arch, ev.product, ev.ver, ev.vc, ";") IN
         Res(st, ev, x, /\ o.r[1] = x.r[1] /\ (IF x.r[1] = "vars" THEN Set(o.r[2]) = x.r[2] /\ Len(o.r[2]) = Cardinality(x.r[2]) ELSE o.r = x.r)
                        /\ AskedSame(x.asked, o.asked) /\ o.ran = x.ran)
    [] ev.k = "tool" ->
         LET x == Tool(w, st.have, ev.dl, ev.product, ev.arch, ";") IN
         Res(st, ev, x, /\ IF x.r[1] = "raise" THEN o.r = x.r
                           ELSE IF x.r[2] = {} THEN o.r = <<"none">>
                           ELSE o.r[1] = x.r[1] /\ o.r[2] \in x.r[2]
                        /\ AskedSame(x.asked, o.asked) /\ o.ran = x.ran)
    [] OTHER -> [s |-> st, exp |-> "no step", ok |-> FALSE]
=============================================================================
