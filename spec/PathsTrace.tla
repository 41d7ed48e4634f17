----------------------------- MODULE PathsTrace -----------------------------
EXTENDS Paths, Conform
ToSet(s) == {s[i] : i \in 1..Len(s)}
None == "none"
US(ev) ==
  LET dirs == ToSet(ev.dirs) \cup {<<>>}
      c == Construct(ev.ws, ev.pps, ev.cwd, dirs, ev.strict)
      want == IF c.ok THEN [st |-> "ok", ws |-> c.ws, pps |-> c.pps] ELSE [st |-> "NotADirectoryError"] IN
  [s |-> IF c.ok THEN [files |-> ToSet(ev.files), dirs |-> dirs, ws |-> c.ws, pps |-> c.pps] ELSE [nil |-> TRUE],
   exp |-> want, ok |-> ev.obs = want]
Ans(c, ev) ==
  CASE ev.k = "rel" -> {IF HasRel(c, ev.path) THEN <<"yes", Rel(c, ev.path)>> ELSE <<None>>}
    [] ev.k = "abs" -> {IF HasAbs(c, ev.path) THEN <<"yes", Abs(c, ev.path)>> ELSE <<None>>}
    [] ev.k = "pkg" -> {IF a = <<>> THEN <<None>> ELSE <<"yes", a>> : a \in Pkg(c, ev.path)}
    [] OTHER -> {<<"no such step">>}
UN(st, ev) ==
  \* every answer is about the tree as it is when it is asked
  IF ev.k = "edit" THEN [s |-> [st EXCEPT !.files = ToSet(ev.files)], exp |-> "ok", ok |-> ev.obs.st = "ok"]
  ELSE IF ev.k = "mods" THEN LET w == Mods(st, ev.path) IN
     [s |-> st, exp |-> w, ok |-> ev.obs.st = "ok" /\ ToSet(ev.obs.v) = w /\ Len(ev.obs.v) = Cardinality(w)]
  ELSE IF ev.k = "modsrel" THEN [s |-> st, exp |-> "raise", ok |-> ev.obs.st = "raise"]
  ELSE LET w == Ans(st, ev) IN [s |-> st, exp |-> w, ok |-> ev.obs.st = "ok" /\ ev.obs.v \in w]
=============================================================================
