----------------------------- MODULE FdfContent -----------------------------
(***************************************************************************)
(* What a flash description states.  Lines:                                *)
(*  [k |-> "section", kind, names]  kind: "fv" "fd" "defines" "rule" ...    *)
(*  [k |-> "def", n, v]    [DEFINE] n = v                                   *)
(*  [k |-> "inf", v]       INF v                                           *)
(*  [k |-> "file", t, n, open]   FILE t = n {                               *)
(*  [k |-> "sect", t, v]   SECTION t = v      [k |-> "plain", v] any text   *)
(*  [k |-> "guided", t]    SECTION GUIDED t {     [k |-> "close"]           *)
(***************************************************************************)
EXTENDS Text, TLC
FStart == [kind |-> "none", names |-> <<>>, depth |-> 0, cur |-> "", dict |-> <<>>, fvs |-> <<>>, fds |-> {}]
FIdx(a, key) == IF \E i \in 1..Len(a) : a[i].key = key THEN CHOOSE i \in 1..Len(a) : a[i].key = key ELSE 0
FPut(a, key, v) == IF FIdx(a, key) = 0 THEN Append(a, [key |-> key, v |-> v]) ELSE [a EXCEPT ![FIdx(a, key)].v = v]
FGet(a, key, def) == IF FIdx(a, key) = 0 THEN def ELSE a[FIdx(a, key)].v
NewFv == [infs |-> <<>>, files |-> <<>>]
\* apply F to the volume of every name (creating it)
OnFvs(fvs, names, F(_)) ==
  LET g[i \in 0..Len(names)] == IF i = 0 THEN fvs ELSE FPut(g[i - 1], names[i], F(FGet(g[i - 1], names[i], NewFv)))
  IN g[Len(names)]
Touch(s) == [s EXCEPT !.fvs = OnFvs(@, s.names, LAMBDA v : v)]
OnFile(s, F(_)) == [s EXCEPT !.fvs = OnFvs(@, s.names, LAMBDA v :
                      [v EXCEPT !.files = FPut(@, s.cur, F(FGet(@, s.cur, [type |-> "", sects |-> <<>>, guided |-> {}])))])]
FStep(s, line) ==
  IF line.k = "section" THEN [s EXCEPT !.kind = line.kind, !.names = line.names]
  ELSE IF s.kind = "defines" THEN IF line.k = "def" THEN [s EXCEPT !.dict = FPut(@, line.n, line.v)] ELSE s
  ELSE IF line.k = "def" /\ line.local THEN s
  ELSE IF s.kind = "fd" THEN [s EXCEPT !.fds = @ \cup Range(s.names)]
  ELSE IF s.kind # "fv" THEN s
  ELSE CASE s.depth = 0 /\ line.k = "inf" -> [s EXCEPT !.fvs = OnFvs(@, s.names, LAMBDA v : [v EXCEPT !.infs = Append(@, line.v)])]
         [] s.depth = 0 /\ line.k = "file" ->
              LET s1 == [s EXCEPT !.cur = line.n] IN
              [OnFile(s1, LAMBDA f : [f EXCEPT !.type = line.t]) EXCEPT !.depth = IF line.open THEN 1 ELSE 0]
         [] s.depth > 0 /\ line.k = "sect" ->
              OnFile(s, LAMBDA f : [f EXCEPT !.sects = FPut(@, line.t, Append(FGet(@, line.t, <<>>), line.v))])
         [] s.depth > 0 /\ line.k = "guided" -> [OnFile(s, LAMBDA f : [f EXCEPT !.guided = @ \cup {line.t}]) EXCEPT !.depth = s.depth + 1]
         [] line.k = "close" -> [s EXCEPT !.depth = s.depth - 1]
         [] OTHER -> Touch(s)
RECURSIVE FRun(_, _, _)
FRun(s, lines, i) == IF i > Len(lines) THEN s ELSE FRun(FStep(s, lines[i]), lines, i + 1)
=============================================================================
