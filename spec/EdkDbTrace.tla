----------------------------- MODULE EdkDbTrace -----------------------------
EXTENDS EdkDb, Conform
ToSet(s) == {s[i] : i \in 1..Len(s)}
US(ev) == [s |-> [ws |-> EmptyWs, db |-> EmptyDb, tabs |-> <<>>, n |-> 0], ok |-> TRUE, exp |-> "any"]
Same(seq, set) == Len(seq) = Cardinality(set) /\ ToSet(seq) = set
\* a dump lists every row once
DumpOk(db, o) ==
  /\ Same([i \in 1..Len(o.infs) |-> [o.infs[i] EXCEPT !.srcs = ToSet(@), !.libs = ToSet(@)]], db.infs)
  /\ Same(o.pkgs, db.pkgs) /\ Same(o.repos, db.repos)
  /\ Same([i \in 1..Len(o.inst) |-> [o.inst[i] EXCEPT !.srcs = ToSet(@)]], db.inst)
  /\ Same([i \in 1..Len(o.fvs) |-> [o.fvs[i] EXCEPT !.infs = ToSet(@)]], db.fvs)
  /\ Same([i \in 1..Len(o.envs) |-> [o.envs[i] EXCEPT !.vals = ToSet(@)]], db.envs)
  /\ Same(o.srcs, {[path |-> p, row |-> db.srcs[p]] : p \in DOMAIN db.srcs})
UN(st, ev) ==
  LET done(s) == [s |-> s, ok |-> TRUE, exp |-> "any"] IN
  CASE ev.k = "inf" -> done([st EXCEPT !.ws = AddInf(@, ev.i)])
    [] ev.k = "src" -> done([st EXCEPT !.ws = PutSrc(@, ev.s)])
    [] ev.k = "delsrc" -> done([st EXCEPT !.ws = DelSrc(@, ev.path)])
    [] ev.k = "dec" -> done([st EXCEPT !.ws = AddDec(@, ev.path)])
    [] ev.k = "git" -> done([st EXCEPT !.ws = Commit(@, ev.base, ToSet(ev.subs))])
    [] ev.k = "plat" -> done([st EXCEPT !.ws = [@ EXCEPT !.comps = ev.comps, !.fv = ev.fv]])
    [] ev.k = "register" -> done([st EXCEPT !.tabs = @ \o ev.ts])
    [] ev.k \in {"clear", "reopen"} -> done([st EXCEPT !.tabs = <<>>])
    [] ev.k = "parse" ->
         LET r == RunTables(st.db, st.ws, st.tabs, st.n + 1, ToSet(ev.env), ToSet(ev.archs)) IN
         [s |-> [st EXCEPT !.db = r.db, !.n = @ + 1], exp |-> [db |-> r.db, raised |-> r.raised],
          ok |-> ev.obs.raised = r.raised /\ DumpOk(r.db, ev.obs)]
    [] OTHER -> [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
