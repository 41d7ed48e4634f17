---------------------------- MODULE ModuleFiles ----------------------------
(***************************************************************************)
(* What a module (INF) or package (DEC) file declares.  Lines:             *)
(*   [k |-> "section", kind, archs]   [kind], [kind.arch], [kind.a, kind.b] *)
(*   [k |-> "def", n, v]              n = v                                 *)
(*   [k |-> "class", c, phases]       LIBRARY_CLASS = c|phases (INF)        *)
(*   [k |-> "macro", n, v]            DEFINE n = v (INF)                    *)
(*   [k |-> "entry", m, v]            an entry, $(m) in front if m # ""     *)
(*   [k |-> "guid", n, g]             n = guid (DEC)                        *)
(*   [k |-> "pcd", ts, n, d, t, id, open]  [k |-> "field", ts, n, d]        *)
(*   [k |-> "inner", v]               a line between the braces of a PCD    *)
(*   [k |-> "close"]                                                       *)
(***************************************************************************)
EXTENDS Text, TLC
Kinds == {"packages", "libraryclasses", "protocols", "ppis", "guids", "pcds", "sources", "binaries", "includes"}
MStart(ft) == [ft |-> ft, kind |-> "none", archs |-> <<>>, dict |-> <<>>, class |-> "", phases |-> <<"none">>, macros |-> <<>>,
               lists |-> [q \in Kinds |-> <<>>], scoped |-> <<>>, inpcd |-> FALSE, pkg |-> ""]

MPut(a, key, v) == LET S == {i \in 1..Len(a) : a[i].key = key} IN
                   IF S = {} THEN Append(a, [key |-> key, v |-> v]) ELSE [a EXCEPT ![CHOOSE i \in S : TRUE].v = v]
MHas(a, key) == \E i \in 1..Len(a) : a[i].key = key
MGet(a, key) == a[CHOOSE i \in 1..Len(a) : a[i].key = key].v

\* undefined macros stay as written
Value(s, line) == IF line.m = "" THEN line.v
                  ELSE IF MHas(s.macros, line.m) THEN MGet(s.macros, line.m) \o line.v
                  ELSE "$(" \o line.m \o ")" \o line.v
ArchKeys(s) == {IF s.archs[i] = "" THEN "common" ELSE Lower(s.archs[i]) : i \in 1..Len(s.archs)}
AddTo(s, kind, v) == [s EXCEPT !.lists[kind] = Append(@, v),
                               !.scoped = @ \o <<[kind |-> kind, archs |-> ArchKeys(s), v |-> v]>>]

MStep(s, line) ==
  CASE line.k = "section" -> [s EXCEPT !.kind = line.kind, !.archs = line.archs, !.inpcd = FALSE]
    [] line.k = "macro" -> [s EXCEPT !.macros = MPut(@, line.n, line.v)]
    [] line.k = "def" /\ s.kind = "defines" ->
         [s EXCEPT !.dict = MPut(@, line.n, line.v), !.pkg = IF line.n = "PACKAGE_NAME" /\ @ = "" THEN line.v ELSE @]
    [] line.k = "class" /\ s.kind = "defines" ->
         [s EXCEPT !.class = line.c,
                   !.phases = IF Len(line.phases) = 0 \/ Lower(line.phases[1]) = "base" THEN <<"all">> ELSE line.phases]
    [] line.k = "entry" /\ s.kind \in Kinds -> AddTo(s, s.kind, Value(s, line))
    [] line.k = "guid" /\ s.kind \in {"protocols", "ppis", "guids"} -> AddTo(s, s.kind, <<line.n, line.g, s.pkg>>)
    [] line.k = "lib" /\ s.kind = "libraryclasses" -> AddTo(s, s.kind, <<line.n, line.p, s.pkg>>)
    [] line.k = "pcd" /\ s.kind = "pcds" /\ ~s.inpcd ->
         [AddTo(s, "pcds", <<line.ts, line.n, line.d, line.t, line.id, s.pkg>>) EXCEPT !.inpcd = line.open]
    [] line.k = "field" /\ s.kind = "pcds" /\ ~s.inpcd ->
         AddTo(s, "pcds", <<line.ts, line.n, line.d, "STRUCTURED_PCD", "STRUCTURED_PCD", s.pkg>>)
    [] line.k = "close" -> [s EXCEPT !.inpcd = FALSE]
    [] OTHER -> s

RECURSIVE MRun(_, _, _)
MRun(s, lines, i) == IF i > Len(lines) THEN s ELSE MRun(MStep(s, lines[i]), lines, i + 1)

\* what applies when building for one of archs: entries of sections that are common or name one of them
ForArchs(s, kind, archs) ==
  {s.scoped[i].v : i \in {j \in 1..Len(s.scoped) : s.scoped[j].kind = kind /\ s.scoped[j].archs \cap ({"common"} \cup archs) # {}}}
=============================================================================
