----------------------------- MODULE DscContent -----------------------------
(***************************************************************************)
(* What a platform description says: components per architecture, library  *)
(* instances per scope, component overrides, PCDs.  Lines (preprocessed):  *)
(*   [k |-> "section", items |-> seq of [kind, scope]]  kind: "components", *)
(*        "libraryclasses", "pcds", "other"; scope "" means common          *)
(*   [k |-> "comp", path, abs, open]   a module; open: "{" follows          *)
(*   [k |-> "sub", s]                  <Section> inside the braces          *)
(*   [k |-> "lib", cls, path, abs]     Class|Instance                       *)
(*   [k |-> "pcd", n, v]                                                   *)
(*   [k |-> "close"]                   "}"                                  *)
(* A comp line also carries file and ln, the place it stands at.           *)
(***************************************************************************)
EXTENDS Text, TLC

\* pp: the package path that holds the LibPkg packages ("" if that is the workspace)
DStartAt(archs, exists, pp) ==
  [pp |-> pp, archs |-> archs, exists |-> exists, items |-> <<>>, depth |-> 0, sub |-> "", opened |-> 0,
   six |-> <<>>, sixat |-> <<>>, threeat |-> <<>>, three |-> <<>>, other |-> <<>>, libs |-> <<>>, pcds |-> <<>>, cls |-> <<>>,
   scoped |-> <<>>, comps |-> <<>>]

DStart(archs, exists) == DStartAt(archs, exists, "")

Kind(s) == IF Len(s.items) = 0 THEN "none" ELSE s.items[1].kind
Root(s, path) == IF s.pp # "" /\ StartsWith(path, "LibPkg/") THEN s.pp \o "/" ELSE "/ws/"
Raw(s, line) == IF line.abs THEN Root(s, line.path) \o line.path ELSE line.path
\* where a module is named: the file (which may be an included one) and the line in that file
At(s, line) == IF "file" \notin DOMAIN line THEN [path |-> Raw(s, line)] ELSE [file |-> line.file, ln |-> line.ln, path |-> Raw(s, line)]
ScopeOf(item) == IF item.scope = "" THEN "common" ELSE item.scope

\* association lists
KIdx(a, key) == IF \E i \in 1..Len(a) : a[i].key = key THEN CHOOSE i \in 1..Len(a) : a[i].key = key ELSE 0
Put(a, key, v) == IF KIdx(a, key) = 0 THEN Append(a, [key |-> key, v |-> v]) ELSE [a EXCEPT ![KIdx(a, key)].v = v]
Get(a, key, def) == IF KIdx(a, key) = 0 THEN def ELSE a[KIdx(a, key)].v

\* the newest definition is preferred; earlier ones stay available behind it
Prefer(list, x) == <<x>> \o SelectSeq(list, LAMBDA y : y # x)
ScopedKey(item, cls) == ScopeOf(item) \o "." \o Lower(cls)
RECURSIVE AddScoped(_, _, _, _)
AddScoped(sc, items, cls, inst) ==
  IF Len(items) = 0 THEN sc
  ELSE LET key == ScopedKey(Head(items), cls) IN
       AddScoped(Put(sc, key, Prefer(Get(sc, key, <<>>), inst)), Tail(items), cls, inst)

\* architectures a component section item contributes (a module type behind the architecture says nothing more)
ArchPart(scope) == SplitBy(Chars(scope), ".")[1]
ArchsOf(s, item) == IF Str(ArchPart(ScopeOf(item))) = "common" THEN s.archs ELSE <<item.scope>>
CompsFor(s, path) ==
  LET rows(i) == LET a == ArchsOf(s, s.items[i]) IN
                 [j \in 1..Len(a) |-> [path |-> path, arch |-> Lower(a[j]), ov |-> <<>>, nulls |-> <<>>]] IN
  Concat([i \in 1..Len(s.items) |-> rows(i)])

Override(s, line) ==
  LET n == Len(s.comps)
      upd(c) == IF Lower(line.cls) = "null" THEN [c EXCEPT !.nulls = Append(@, line.path)]
                ELSE [c EXCEPT !.ov = Put(@, Lower(line.cls), line.path)] IN
  [s EXCEPT !.comps = [i \in 1..n |-> IF i > n - s.opened THEN upd(@[i]) ELSE @[i]]]

Found(s, line) == IF \E i \in 1..Len(s.exists) : s.exists[i] = line.path THEN Root(s, line.path) \o line.path ELSE "none"
UseLib(s, line) == [s EXCEPT !.libs = Append(@, Raw(s, line)),
                             !.cls = Put(@, line.cls, Append(Get(@, line.cls, <<>>), Found(s, line)))]

DStep(s, line) ==
  CASE line.k = "section" -> [s EXCEPT !.items = line.items]
    [] line.k = "comp" /\ Kind(s) = "components" /\ s.depth = 0 ->
         LET new == CompsFor(s, line.path)
             s1 == CASE ScopeOf(s.items[1]) = "x64" -> [s EXCEPT !.six = Append(@, Raw(s, line)), !.sixat = Append(@, At(s, line))]
                     [] ScopeOf(s.items[1]) = "ia32" -> [s EXCEPT !.three = Append(@, Raw(s, line)), !.threeat = Append(@, At(s, line))]
                     [] OTHER -> [s EXCEPT !.other = Append(@, Raw(s, line))]
         IN [s1 EXCEPT !.comps = @ \o new, !.opened = Len(new), !.depth = IF line.open THEN 1 ELSE 0, !.sub = ""]
    [] line.k = "sub" -> [s EXCEPT !.sub = line.s]
    [] line.k = "close" -> [s EXCEPT !.depth = 0, !.sub = "", !.opened = 0]
    [] line.k = "lib" /\ Kind(s) = "components" /\ s.depth > 0 ->
         IF s.sub = "libraryclasses" THEN Override(UseLib(s, line), line) ELSE UseLib(s, line)
    [] line.k = "lib" /\ Kind(s) = "libraryclasses" ->
         [UseLib(s, line) EXCEPT !.scoped = AddScoped(@, s.items, line.cls, line.path)]
    [] line.k = "pcd" /\ (Kind(s) = "pcds" \/ (Kind(s) = "components" /\ s.depth > 0)) -> [s EXCEPT !.pcds = Append(@, line.n)]
    [] OTHER -> s

RECURSIVE DRun(_, _, _)
DRun(s, lines, i) == IF i > Len(lines) THEN s ELSE DRun(DStep(s, lines[i]), lines, i + 1)

AsSet(a) == {<<a[i].key, a[i].v>> : i \in 1..Len(a)}
=============================================================================
