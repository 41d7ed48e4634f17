---------------------------- MODULE PreprocTrace ----------------------------
(* Binding of Preproc to the recorded behaviour of BaseParser, DscParser and FdfParser. *)
EXTENDS Preproc, Conform

\* whole-file runs: the outcome after the last line
PathsOf(prog, seen) == {prog.files[seen[i]].path : i \in 1..Len(seen)}
Pairs(env) == {<<env[i].n, Render(env[i].p)>> : i \in 1..Len(env)}
ObsPairs(o) == {<<o[i][1], o[i][2]>> : i \in 1..Len(o)}
\* FDF results are kept per firmware volume: group by first appearance, keeping order
RECURSIVE Group(_)
Group(out) == IF Len(out) = 0 THEN <<>>
              ELSE LET same(x) == x.fv = out[1].fv IN
                   SelectSeq(out, same) \o Group(SelectSeq(out, LAMBDA x : x.fv # out[1].fv))
OutOf(ev, r) == IF ev.mode = "dsc" THEN r.out ELSE LET g == Group(r.out) IN [i \in 1..Len(g) |-> g[i].fv \o ":" \o g[i].t]
\* the finished parser looks files up from the description itself
Where(prog, rel) == LET f == Resolve(prog, rel, prog.files[FileAt(prog, prog.main)].dir) IN IF f = 0 THEN "none" ELSE prog.files[f].path
FindsOk(ev) == Has(ev, "finds") => \A i \in 1..Len(ev.finds) : ev.finds[i].at = Where(ev.prog, ev.finds[i].rel) /\ ev.finds[i].one = ev.finds[i].at
FlatOk(o) == Has(o, "flat") => o.flat /\ o.again
WholeOk(ev, r) ==
  LET o == ev.obs IN
  CASE r.st = "any" -> TRUE
    [] r.st = "err" -> o.st = "err"
    [] OTHER -> /\ o.st = "ok"
                /\ o.out = OutOf(ev, r) /\ FindsOk(ev) /\ FlatOk(o)
                /\ IF ev.mode = "dsc" THEN {o.seen[i] : i \in 1..Len(o.seen)} = PathsOf(ev.prog, r.seen)
                   ELSE ObsPairs(o.dict) = Pairs(r.dict)
Whole(ev) ==
  LET r == IF ev.mode = "dsc" THEN RunDsc(ev.prog, <<>>) ELSE RunFdf(ev.prog) IN
  [s |-> [nil |-> TRUE], ok |-> WholeOk(ev, r),
   exp |-> [st |-> r.st, out |-> OutOf(ev, r), dict |-> [i \in 1..Len(r.dict) |-> <<r.dict[i].n, Render(r.dict[i].p)>>],
            seen |-> [i \in 1..Len(r.seen) |-> ev.prog.files[r.seen[i]].path]]]

\* line-by-line runs of the base parser: [inputs, env, cond]
TS(ev) == IF Has(ev, "mode") THEN Whole(ev)
          ELSE [s |-> [inputs |-> ev.inputs, env |-> <<>>, cond |-> <<>>, lost |-> FALSE], ok |-> TRUE, exp |-> [st |-> "ok"]]
TextObs(s, p) == Render(Expand(p, s.inputs, s.env, FALSE))
TSt(s, ev) ==
  IF s.lost THEN [s |-> s, ok |-> TRUE, exp |-> [st |-> "any"]]
  ELSE IF ev.k = "set" THEN [s |-> [s EXCEPT !.env = Bind(@, ev.n, ev.p)], ok |-> ev.obs.st = "ok", exp |-> [st |-> "ok"]]
  ELSE IF ev.line.k = "text"
  THEN LET x == TextObs(s, ev.line.p) IN
       [s |-> s, exp |-> [text |-> x, cond |-> FALSE, active |-> Active(s.cond)],
        ok |-> ev.obs.st = "ok" /\ ev.obs.text = x /\ ~ev.obs.cond /\ ev.obs.active = Active(s.cond)]
  ELSE LET r == CondStep(s.cond, ev.line, s.inputs, s.env, <<>>, IF ev.direct THEN 1 ELSE 2) IN
       IF r.un THEN [s |-> [s EXCEPT !.lost = TRUE], ok |-> TRUE, exp |-> [st |-> "any"]]
       ELSE IF ~r.ok THEN [s |-> s, ok |-> ev.obs.st = "err", exp |-> [st |-> "err"]]
       ELSE [s |-> [s EXCEPT !.cond = r.cond], exp |-> [cond |-> TRUE, active |-> Active(r.cond)],
             ok |-> ev.obs.st = "ok" /\ ev.obs.cond /\ ev.obs.active = Active(r.cond)]
=============================================================================
