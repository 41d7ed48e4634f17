------------------------------ MODULE LogTrace ------------------------------
EXTENDS Log, Conform
US(ev) ==
  CASE ev.do = "log" -> [s |-> [hs |-> [i \in 1..Len(ev.hs) |-> ev.hs[i] @@ [text |-> <<>>, pos |-> 0, cells |-> <<>>, at |-> Fresh(ev.hs[i].def)]], rep |-> <<>>], ok |-> TRUE, exp |-> "any"]
    [] ev.do = "report" -> [s |-> [hs |-> <<>>, rep |-> <<>>], ok |-> TRUE, exp |-> "any"]
    [] OTHER -> [s |-> [hs |-> <<>>, rep |-> <<>>], ok |-> ev.obs.whole /\ IsMerge(ev.obs.lines, ev.counts), exp |-> [whole |-> TRUE, counts |-> ev.counts]]
UN(st, ev) ==
  LET R(s2, e) == [s |-> s2, exp |-> e, ok |-> ev.obs = e]
      C == st.rep[ev.s].cases[ev.c]
      Texts(hs) == [i \in 1..Len(hs) |-> hs[i].text]
      WithCase(c) == [st EXCEPT !.rep[ev.s].cases[ev.c] = c] IN
  CASE ev.k = "log" -> LET hs == EmitAll(st.hs, ev.r) IN R([st EXCEPT !.hs = hs], [rv |-> [i \in 1..Len(hs) |-> Passes(hs[i], ev.r)], texts |-> Texts(hs), cells |-> Cells(hs), kept |-> TRUE])
    [] ev.k = "level" -> R([st EXCEPT !.hs[ev.h].level = ev.level], [texts |-> Texts(st.hs)])
    [] ev.k = "begin" -> R([st EXCEPT !.hs[ev.h].pos = 0], [texts |-> Texts(st.hs)])
    [] ev.k = "end" -> R([st EXCEPT !.hs[ev.h].pos = Len(st.hs[ev.h].text)], [texts |-> Texts(st.hs)])
    [] ev.k = "seek" -> R([st EXCEPT !.hs[ev.h].pos = ev.pos], [texts |-> Texts(st.hs)])
    [] ev.k = "read" -> LET x == LinesFrom(st.hs[ev.h].text, st.hs[ev.h].pos, ev.hint, 0) IN R([st EXCEPT !.hs[ev.h].pos = x.p], [lines |-> x.ls, texts |-> Texts(st.hs)])
    [] ev.k = "suite" -> R([st EXCEPT !.rep = Append(@, [name |-> Strip(ev.name), pkg |-> Strip(ev.pkg), cases |-> <<>>])], [ok |-> TRUE])
    [] ev.k = "case" -> R([st EXCEPT !.rep[ev.s].cases = Append(@, [NewCase(ev.name, ev.cls) EXCEPT !.since = ev.at])], [ok |-> TRUE])
    [] ev.k = "set" -> LET r == Set(C, ev.st, ev.msg, ev.type) IN \* the time of a case is what passed between its beginning and its result, whatever is logged or written later
         R(WithCase(IF r.ok THEN [r.c EXCEPT !.time = ev.at - C.since] ELSE r.c), [ok |-> r.ok])
    [] ev.k = "out" -> R(WithCase([C EXCEPT !.out = @ \o Logged(ev.msg)]), [ok |-> TRUE])
    [] ev.k = "err" -> R(WithCase([C EXCEPT !.err = @ \o Logged(ev.msg)]), [ok |-> TRUE])
    [] ev.k = "write" ->
         IF ~Writable(st.rep) THEN R(st, [ok |-> FALSE])
         ELSE LET e == [ok |-> TRUE, xml |-> Xml(st.rep)] IN
              [s |-> st, exp |-> e, ok |-> ev.obs.ok /\ "xml" \in DOMAIN ev.obs /\ Canon(ev.obs.xml) = e.xml]
    [] OTHER -> [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
