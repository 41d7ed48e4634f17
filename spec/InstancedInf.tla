---------------------------- MODULE InstancedInf ----------------------------
(***************************************************************************)
(* What a platform build links.  On top of what a platform description     *)
(* says (DscContent), every component of a target architecture pulls in    *)
(* one instance per library class it names, transitively, plus its NULL    *)
(* libraries.  infs: sequence of                                            *)
(*   [path, name, guid (BOOLEAN), cls ("" for a module), phases, mt,        *)
(*    libs: seq of [cls, arch], srcs: seq of [path, arch]]                  *)
(***************************************************************************)
EXTENDS DscContent

\* a module type in the header of a components section has no meaning
Plain(s) == [s EXCEPT !.comps = [i \in 1..Len(@) |-> [@[i] EXCEPT !.arch = Str(ArchPart(@))]]]

InfIdx(infs, path) == CHOOSE i \in 1..Len(infs) : infs[i].path = path
InfOf(infs, path) == infs[InfIdx(infs, path)]
Supports(inf, mt) == Len(inf.phases) = 0 \/ \E i \in 1..Len(inf.phases) : Lower(inf.phases[i]) = Lower(mt)

RECURSIVE FirstFit(_, _, _, _)
FirstFit(list, i, infs, mt) == IF i > Len(list) THEN "none"
                               ELSE IF Supports(InfOf(infs, list[i]), mt) THEN list[i] ELSE FirstFit(list, i + 1, infs, mt)

\* scopes from the most to the least specific
ScopeKeys(arch, mt) == <<arch \o "." \o Lower(mt), "common." \o Lower(mt), arch, "common">>
RECURSIVE Search(_, _, _, _, _, _)
Search(scoped, keys, k, cls, infs, mt) ==
  IF k > Len(keys) THEN "none"
  ELSE LET hit == FirstFit(Get(scoped, keys[k] \o "." \o Lower(cls), <<>>), 1, infs, mt) IN
       IF hit # "none" THEN hit ELSE Search(scoped, keys, k + 1, cls, infs, mt)

\* the instance of a class for component c (a component of DscContent: path, arch, ov, nulls)
Resolve(scoped, infs, c, cls) ==
  LET mt == InfOf(infs, c.path).mt IN
  IF KIdx(c.ov, Lower(cls)) # 0 THEN c.ov[KIdx(c.ov, Lower(cls))].v
  ELSE Search(scoped, ScopeKeys(c.arch, mt), 1, cls, infs, mt)

ForArch(arch, e) == e.arch \in {"common", arch}
SeqSet(x) == {x[i] : i \in 1..Len(x)}
Wanted(inf, arch) == {e.cls : e \in {x \in SeqSet(inf.libs) : ForArch(arch, x)}}
NullLibs(scoped, infs, c) ==
  LET ks == ScopeKeys(c.arch, InfOf(infs, c.path).mt) IN
  SeqSet(c.nulls) \cup UNION {SeqSet(Get(scoped, ks[k] \o ".null", <<>>)) : k \in 1..4}

\* <class, instance> pairs used by the INF at path when it is built into component c
Pairs(scoped, infs, c, path) ==
  {q \in {<<k, Resolve(scoped, infs, c, k)>> : k \in Wanted(InfOf(infs, path), c.arch)} : q[2] # "none"}
  \cup (IF path = c.path THEN {<<"NULL", p>> : p \in NullLibs(scoped, infs, c)} ELSE {})
Used(scoped, infs, c, path) == {q[2] : q \in Pairs(scoped, infs, c, path)}

RECURSIVE Closure(_, _, _, _)
Closure(scoped, infs, c, S) ==
  LET T == S \cup UNION {Used(scoped, infs, c, p) : p \in S} IN IF T = S THEN S ELSE Closure(scoped, infs, c, T)

Built(s, infs, targets) == {i \in 1..Len(s.comps) : s.comps[i].arch \in targets /\ InfOf(infs, s.comps[i].path).cls = ""}

RowFor(scoped, infs, c, all, p) ==
  LET inf == InfOf(infs, p) IN
  [path |-> p, arch |-> c.arch, component |-> c.path, name |-> inf.name,
   links |-> {x \in Used(scoped, infs, c, p) : InfOf(infs, x).guid},
   srcs |-> {e.path : e \in {x \in SeqSet(inf.srcs) : ForArch(c.arch, x)}},
   cls |-> IF p = c.path THEN {"none"} ELSE {k[1] : k \in {q \in UNION {Pairs(scoped, infs, c, x) : x \in all} : q[2] = p}}]
RowsOf(s, infs, c) == LET all == Closure(s.scoped, infs, c, {c.path}) IN
                      {RowFor(s.scoped, infs, c, all, p) : p \in {x \in all : InfOf(infs, x).guid}}
Rows(s, infs, targets) == UNION {RowsOf(s, infs, s.comps[i]) : i \in Built(s, infs, targets)}
\* an image volume holds those of its modules that the platform builds
FvOf(s, infs, targets, fv) == {p \in SeqSet(fv.infs) : \E i \in Built(s, infs, targets) : s.comps[i].path = p /\ InfOf(infs, p).guid}
=============================================================================
