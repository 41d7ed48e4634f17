-------------------------------- MODULE EdkDb --------------------------------
(***************************************************************************)
(* The workspace database over a history of edits, registrations, parses   *)
(* and reopenings.                                                         *)
(*  ws: [infs, srcs, decs : sets; git : commit number or 0; base : name of *)
(*       the repository; subs : set of [name, path]; comps, fv : paths]    *)
(*  db: [infs, pkgs, repos, inst, fvs : sets; srcs : path -> record;       *)
(*       envs : set of [n, ver, vals]]                                     *)
(* Paths are sequences of names.                                           *)
(***************************************************************************)
EXTENDS Text, TLC

IsIn(p, d) == Len(p) >= Len(d) /\ SubSeq(p, 1, Len(d)) = d
Parent(p) == SubSeq(p, 1, Len(p) - 1)
InBuild(p) == p[1] = "Build"
EmptyWs == [infs |-> {}, srcs |-> {}, decs |-> {}, git |-> 0, base |-> "", subs |-> {}, comps |-> <<>>, fv |-> <<>>]
EmptyDb == [infs |-> {}, pkgs |-> {}, repos |-> {}, inst |-> {}, fvs |-> {}, srcs |-> <<>>, envs |-> {}]
None == "none"
Bare == [lic |-> None, total |-> -1, code |-> -1, com |-> -1, blank |-> -1]

\* ---- edits -------------------------------------------------------------------
AddInf(ws, i) == [ws EXCEPT !.infs = @ \cup {i}]
PutSrc(ws, s) == [ws EXCEPT !.srcs = {x \in @ : x.path # s.path} \cup {s}]
DelSrc(ws, p) == [ws EXCEPT !.srcs = {x \in @ : x.path # p}]
AddDec(ws, d) == [ws EXCEPT !.decs = @ \cup {d}]
Commit(ws, base, subs) == [ws EXCEPT !.git = @ + 1, !.base = base, !.subs = subs]

\* ---- what a table generator adds ------------------------------------------------
PkgDirs(ws) == {Parent(d) : d \in ws.decs}
PkgOf(ws, p) == LET c == {d \in PkgDirs(ws) : IsIn(Parent(p), d) /\ d # <<>>} IN
                IF c = {} THEN None ELSE LET d == CHOOSE x \in c : \A y \in c : Len(y) <= Len(x) IN d[Len(d)]
AddBare(srcs, ps) == [p \in DOMAIN srcs \cup ps |-> IF p \in DOMAIN srcs THEN srcs[p] ELSE Bare]

InfRow(ws, i) == [path |-> i.path, cls |-> i.cls, mt |-> i.mt, pkg |-> PkgOf(ws, i.path), srcs |-> {i.srcs[k] : k \in 1..Len(i.srcs)}, libs |-> {i.libs[k] : k \in 1..Len(i.libs)}]
InfTable(db, ws) ==
  LET new == {i \in ws.infs : i.guid /\ ~InBuild(i.path) /\ ~\E r \in db.infs : r.path = i.path} IN
  [db EXCEPT !.infs = @ \cup {InfRow(ws, i) : i \in new},
             !.srcs = AddBare(@, UNION {{i.srcs[k] : k \in 1..Len(i.srcs)} : i \in new})]

Lines(s, kind) == Len(SelectSeq(s.lines, LAMBDA x : x = kind))
SrcRow(s, stats) ==
  LET lic == SelectSeq(s.lines, LAMBDA x : x \notin {"code", "comment", "blank"}) IN
  [lic |-> IF lic = <<>> THEN "Unknown" ELSE lic[Len(lic)], total |-> Len(s.lines),
   code |-> IF stats THEN Lines(s, "code") ELSE Len(s.lines),
   com |-> IF stats THEN Lines(s, "comment") + Len(lic) ELSE 0, blank |-> IF stats THEN Lines(s, "blank") ELSE 0]
SrcTable(db, ws, stats) ==
  LET cur == {s \in ws.srcs : s.known /\ ~InBuild(s.path)}
      row(p) == SrcRow(CHOOSE s \in cur : s.path = p, stats)
      ps == {s.path : s \in cur} IN
  [db EXCEPT !.srcs = [p \in DOMAIN @ \cup ps |-> IF p \in ps THEN row(p) ELSE db.srcs[p]]]

SubOf(ws, p) == {s \in ws.subs : IsIn(p, s.path)}
RepoOf(ws, p) == IF SubOf(ws, p) = {} THEN [name |-> ws.base, path |-> <<>>] ELSE CHOOSE s \in SubOf(ws, p) : TRUE
PkgTable(db, ws) ==
  IF ws.git = 0 THEN db
  ELSE LET new == {d \in PkgDirs(ws) : ~\E k \in db.pkgs : k.path = d} IN
       [db EXCEPT !.pkgs = @ \cup {[name |-> d[Len(d)], path |-> d, repo |-> RepoOf(ws, Append(d, "x"))] : d \in new},
                  !.repos = @ \cup {RepoOf(ws, Append(d, "x")) : d \in new}]

EnvTable(db, ws, n, env) == [db EXCEPT !.envs = @ \cup {[n |-> n, ver |-> ws.git, vals |-> env]}]

\* the repository of a module: its package's, else the one recorded whose folder holds it, else the workspace's own, if recorded
InstRepo(db, ws, p) ==
  LET k == {x \in db.pkgs : x.name = PkgOf(ws, p)}
      f == {x \in db.repos : x.path # <<>> /\ IsIn(p, x.path)}
      b == {x \in db.repos : x.path = <<>>} IN
  IF k # {} THEN (CHOOSE x \in k : TRUE).repo.name
  ELSE IF f # {} THEN (CHOOSE x \in f : TRUE).name ELSE IF b # {} THEN (CHOOSE x \in b : TRUE).name ELSE None
Built(ws, p) == \E i \in ws.infs : i.path = p /\ i.guid /\ i.cls = None
InfOf(ws, p) == CHOOSE i \in ws.infs : i.path = p
InstTable(db, ws, n, archs) ==
  LET ps == {ws.comps[k] : k \in {j \in 1..Len(ws.comps) : Built(ws, ws.comps[j])}} IN
  [db EXCEPT !.inst = @ \cup {[env |-> n, path |-> p, arch |-> a, mtname |-> InfOf(ws, p).name, repo |-> InstRepo(db, ws, p),
                               pkg |-> IF \E x \in db.pkgs : x.name = PkgOf(ws, p) THEN PkgOf(ws, p) ELSE None,
                               srcs |-> {InfOf(ws, p).srcs[k] : k \in 1..Len(InfOf(ws, p).srcs)}] : p \in ps, a \in archs},
             !.srcs = AddBare(@, UNION {{InfOf(ws, p).srcs[k] : k \in 1..Len(InfOf(ws, p).srcs)} : p \in ps})]
FvTable(db, ws, n) ==
  [db EXCEPT !.fvs = @ \cup {[env |-> n, infs |-> {p \in {ws.fv[k] : k \in 1..Len(ws.fv)} : \E r \in db.inst : r.env = n /\ r.path = p}]}]

Table(db, ws, t, n, env, archs) ==
  CASE t = "Inf" -> InfTable(db, ws) [] t = "Src" -> SrcTable(db, ws, FALSE) [] t = "SrcStats" -> SrcTable(db, ws, TRUE)
    [] t = "Pkg" -> PkgTable(db, ws) [] t = "Env" -> EnvTable(db, ws, n, env) [] t = "Inst" -> InstTable(db, ws, n, archs)
    [] t = "Fv" -> FvTable(db, ws, n)
\* tables run in order of registration; one that fails leaves nothing behind and ends the parse
RECURSIVE RunTables(_, _, _, _, _, _)
RunTables(db, ws, ts, n, env, archs) ==
  IF ts = <<>> THEN [db |-> db, raised |-> FALSE]
  ELSE IF ts[1] = "Boom" THEN [db |-> db, raised |-> TRUE]
  ELSE RunTables(Table(db, ws, ts[1], n, env, archs), ws, Tail(ts), n, env, archs)
=============================================================================
