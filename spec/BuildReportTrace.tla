-------------------------- MODULE BuildReportTrace --------------------------
EXTENDS BuildReport, Conform
Set(q) == {q[i] : i \in 1..Len(q)}
Keyed(q) == /\ \A i, j \in 1..Len(q) : q[i][1] = q[j][1] => i = j
SameModule(x, o, roots) ==
  LET m == x.m IN
  /\ o.key = m.guid /\ o.guid = m.guid /\ o.name = m.name /\ o.type = m.type /\ o.fv = x.fv /\ o.inf \in {m.inf, Rel(m.inf, roots, 1)}
  /\ o.depex = m.depex /\ Set(o.pcds) = m.pcds /\ Set(o.libs) = m.libs
US(ev) == [s |-> [nil |-> TRUE], ok |-> TRUE, exp |-> "any"]
UN(st, ev) ==
  CASE ev.k = "report" ->
         LET rep == Report(ev.lines, ev.words, ev.roots)
             finds == [i \in 1..Len(ev.find) |-> FindInf(rep, ev.find[i], ev.roots)] IN
         [s |-> st, exp |-> [rep |-> rep, finds |-> finds],
          ok |-> /\ ev.obs.ok /\ ev.obs.head = rep.head /\ Len(ev.obs.mods) = Len(rep.mods)
                 /\ \A i \in 1..Len(rep.mods) : \E j \in 1..Len(ev.obs.mods) : SameModule(rep.mods[i], ev.obs.mods[j], ev.roots)
                 /\ \A i \in 1..Len(finds) : IF finds[i] = {} THEN ev.obs.find[i] = "-" ELSE ev.obs.find[i] \in finds[i]]
    [] ev.k = "ovr" ->
         LET y == Overrides(ev.lines)
             x == IF ev.from \in {"file", "text"} THEN y ELSE [y EXCEPT !.ok = FALSE] IN   \* a file or a text, exactly one, and the file is there
         [s |-> st, exp |-> x,
          ok |-> /\ ev.obs.ok = x.ok
                 /\ (x.ok => /\ Len(ev.obs.items) = Len(x.items) /\ Len(ev.obs.lines) = Len(x.lines)
                             /\ \A i \in 1..Len(x.items) : LET a == x.items[i]  b == ev.obs.items[i] IN b.version = 1 /\ b.path = a.path /\ b.hash = a.hash /\ b.date = a.date
                             /\ \A i \in 1..Len(x.lines) : ev.obs.lines[i].n = x.lines[i].n /\ ev.obs.lines[i].l = x.lines[i].l)]
    [] OTHER -> [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
