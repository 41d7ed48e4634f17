--------------------------- MODULE InstancedInfMC ---------------------------
(* The link closure as a work list, for every choice of where two library   *)
(* classes are defined; whatever order instances are visited in, the        *)
(* closure is the same and obeys the scope order.                           *)
EXTENDS InstancedInf, Json
CONSTANT Full
VARIABLES cfg, done, todo

Sec(sc) == [k |-> "section", items |-> <<[kind |-> "libraryclasses", scope |-> sc]>>]
Lib(c, p) == [k |-> "lib", cls |-> c, path |-> p, abs |-> FALSE]
Scopes == <<"", "x64", "common.peim", "x64.peim">>
\* instances A0..A3 serve every phase or only DXE, A4 is the override; A* need B, B needs A: a cycle
Inf(p, n, c, ph, mt, libs) == [path |-> p, name |-> n, guid |-> TRUE, cls |-> c, phases |-> ph, mt |-> mt, libs |-> libs,
                               srcs |-> <<[path |-> "P/" \o n \o ".c", arch |-> "common"]>>]
L(c) == [cls |-> c, arch |-> "common"]
AName == <<"A1", "A2", "A3", "A4">>
InfsFor(ph) ==
  [i \in 1..4 |-> Inf("P/" \o AName[i] \o ".inf", AName[i], "LibA", IF ph[i] = 1 THEN <<"DXE_DRIVER">> ELSE <<>>, "BASE", <<L("LibB")>>)]
  \o <<Inf("P/AO.inf", "AO", "LibA", <<>>, "BASE", <<>>),
       Inf("P/B.inf", "B", "LibB", <<>>, "BASE", <<L("LibA"), [cls |-> "LibX", arch |-> "ia32"]>>),
       Inf("P/X.inf", "X", "LibX", <<>>, "BASE", <<>>),
       Inf("P/N.inf", "N", "LibN", <<>>, "BASE", <<L("LibB")>>),
       Inf("P/M.inf", "M", "", <<>>, "PEIM", <<L("LibA")>>)>>
Choices == [def : [1..4 -> 0..2], ov : 0..1, nul : 0..2, arch : {"x64", "ia32"}]
LinesFor(c) ==
  Concat([i \in 1..4 |-> IF c.def[i] = 0 THEN <<>> ELSE <<Sec(Scopes[i]), Lib("LibA", "P/" \o AName[i] \o ".inf")>>])
  \o <<Sec(""), Lib("LibB", "P/B.inf"), Lib("LibX", "P/X.inf")>>
  \o (IF c.nul = 1 THEN <<Sec("x64"), Lib("NULL", "P/N.inf")>> ELSE <<>>)
  \o <<[k |-> "section", items |-> <<[kind |-> "components", scope |-> c.arch]>>],
       [k |-> "comp", path |-> "P/M.inf", abs |-> FALSE, open |-> c.ov = 1 \/ c.nul = 2]>>
  \o (IF c.ov = 1 \/ c.nul = 2 THEN <<[k |-> "sub", s |-> "libraryclasses"]>>
        \o (IF c.ov = 1 THEN <<Lib("LibA", "P/AO.inf")>> ELSE <<>>)
        \o (IF c.nul = 2 THEN <<Lib("NULL", "P/N.inf")>> ELSE <<>>) \o <<[k |-> "close"]>> ELSE <<>>)
Doc(c) == [lines |-> LinesFor(c), infs |-> InfsFor([i \in 1..4 |-> IF c.def[i] = 2 THEN 1 ELSE 0]), archs |-> <<"IA32", "X64">>,
           targets |-> <<"ia32", "x64">>, exists |-> <<>>, fvs |-> <<[name |-> "MAIN", infs |-> <<"P/M.inf">>]>>]

Init == /\ cfg \in {Doc(c) : c \in {x \in Choices : Full \/ (x.arch = "x64" \/ x.nul = 0)}}
        /\ done = {} /\ todo = {"P/M.inf"}
D == DRun(DStart(cfg.archs, cfg.exists), cfg.lines, 1)
C == D.comps[1]
Next == \E p \in todo :
          /\ done' = done \cup {p}
          /\ todo' = (todo \cup Used(D.scoped, cfg.infs, C, p)) \ (done \cup {p})
          /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<<cfg, done, todo>>

\* any visiting order ends in the same set
OrderFree == todo = {} => done = Closure(D.scoped, cfg.infs, C, {"P/M.inf"})
\* at most one instance per class in a component, and only instances that support it, from the first scope that has one
OneInstance == \A i, j \in 1..Len(cfg.infs) : (i # j /\ cfg.infs[i].path \in done /\ cfg.infs[j].path \in done) => cfg.infs[i].cls # cfg.infs[j].cls
Supported == \A i \in 1..5 : cfg.infs[i].path \in done => Supports(cfg.infs[i], "PEIM")
OverrideWins == (\E i \in 1..Len(cfg.lines) : cfg.lines[i].k = "lib" /\ cfg.lines[i].path = "P/AO.inf") =>
                \A i \in 1..4 : cfg.infs[i].path \notin done
ScopeOrder == \A i \in 1..4 : cfg.infs[i].path \in done =>
   \A j \in 1..4 : j > i => ~(\E k \in 1..Len(cfg.lines) : cfg.lines[k].k = "lib" /\ cfg.lines[k].path = cfg.infs[j].path
                              /\ Supports(cfg.infs[j], "PEIM")
                              /\ (j \in {1, 3} \/ C.arch = "x64"))
Emit == (done = {} /\ todo = {"P/M.inf"}) => PrintT("@@" \o ToJson(cfg))
=============================================================================
