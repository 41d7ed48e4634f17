------------------------------ MODULE Preproc ------------------------------
(***************************************************************************)
(* The line-by-line preprocessing of EDK2 build description files:         *)
(* conditional stack, macro environment, include stack, section tracking.  *)
(*                                                                         *)
(* A program is                                                            *)
(*   [files  |-> sequence of [path, dir, lines],                           *)
(*    main   |-> path of the first file,                                   *)
(*    roots  |-> directories searched before / after the current one,      *)
(*    inputs |-> sequence of [n, p] (caller supplied macros)]              *)
(* A text is a sequence of pieces [m |-> is it a $(macro)?, v |-> ..].     *)
(* A line is a record with field k:                                        *)
(*   if, elif (e: expression tokens), ifdef, ifndef (n), else, endif,      *)
(*   include (p), section (s, p), define (n, p), pcd (n, v), text (p)      *)
(*                                                                         *)
(* One Step consumes one line of the innermost open file.                  *)
(***************************************************************************)
EXTENDS Expr

(* ------------------------------------------------------------------ macros *)
Lit(s) == [m |-> FALSE, v |-> s]
Mac(s) == [m |-> TRUE, v |-> s]
RECURSIVE Render(_)
Render(p) == IF Len(p) = 0 THEN "" ELSE (IF p[1].m THEN "$(" \o p[1].v \o ")" ELSE p[1].v) \o Render(Tail(p))

\* environments are sequences of [n |-> name, p |-> text], at most one entry per name
Idx(env, n) == IF \E i \in 1..Len(env) : env[i].n = n THEN CHOOSE i \in 1..Len(env) : env[i].n = n ELSE 0
Bind(env, n, p) == LET i == Idx(env, n) IN IF i = 0 THEN Append(env, [n |-> n, p |-> p]) ELSE [env EXCEPT ![i].p = p]
\* caller supplied definitions win
Defined(inp, env, n) == Idx(inp, n) # 0 \/ Idx(env, n) # 0
RawValue(inp, env, n) == IF Idx(inp, n) # 0 THEN inp[Idx(inp, n)].p ELSE env[Idx(env, n)].p
Value(inp, env, n) ==
  LET p == RawValue(inp, env, n) r == Render(p) IN
  IF \E i \in 1..Len(p) : p[i].m /\ p[i].v = n THEN <<>>        \* self reference
  ELSE IF Len(r) \in {4, 5} /\ Upper(r) \in {"TRUE", "FALSE"} THEN <<Lit(Upper(r))>> ELSE p
\* one round of replacement; undef: what an undefined macro becomes (<<>> keeps the reference)
RECURSIVE Expand(_, _, _, _)
Expand(p, inp, env, zero) ==
  IF Len(p) = 0 THEN <<>>
  ELSE LET h == Head(p) IN
       (IF ~h.m THEN <<h>>
        ELSE IF Defined(inp, env, h.v) THEN Value(inp, env, h.v)
        ELSE IF zero THEN <<Lit("0")>> ELSE <<h>>) \o Expand(Tail(p), inp, env, zero)

(* -------------------------------------------------------------- conditionals *)
\* pcds: values of PCDs usable in conditionals.  A conditional line is expanded as a line (undefined macros
\* become 0) and its expression once more; an expression evaluated on its own is expanded once.
ExpandN(p, inp, env, n) == Expand(IF n = 2 THEN Expand(p, inp, env, TRUE) ELSE p, inp, env, FALSE)
StillOpen(tok, inp, env, rounds) ==
  tok.k = "val" /\ ~tok.pcd /\ LET x == ExpandN(tok.p, inp, env, rounds) IN \E i \in 1..Len(x) : x[i].m
ExprTok(tok, inp, env, pcds, rounds) ==
  IF tok.k # "val" THEN tok
  ELSE IF tok.pcd /\ Idx(pcds, tok.p[1].v) # 0 THEN [k |-> "val", q |-> tok.q, s |-> Render(pcds[Idx(pcds, tok.p[1].v)].p)]
  ELSE [k |-> "val", q |-> tok.q, s |-> Render(ExpandN(tok.p, inp, env, rounds))]
ExprToks(e, inp, env, pcds, rounds) == Tokens([i \in 1..Len(e) |-> ExprTok(e[i], inp, env, pcds, rounds)])
\* "T", "F", "E" or "U"
CondVerdict(e, inp, env, pcds, rounds) ==
  LET ts == ExprToks(e, inp, env, pcds, rounds) IN
  IF \E i \in 1..Len(e) : StillOpen(e[i], inp, env, rounds) THEN "U" ELSE
  IF Denote(ts).t = "malformed" THEN MachineVerdict(ts) ELSE Verdict(ts)

\* conditional stack: [v |-> this branch is taken, done |-> some branch of the chain was taken]
Active(cond) == \A i \in 1..Len(cond) : cond[i].v
PushIf(cond, b) == Append(cond, [v |-> b, done |-> b])
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
ElseIf(cond, b) == Append(Front(cond), IF Last(cond).done THEN [v |-> FALSE, done |-> TRUE] ELSE [v |-> b, done |-> b])
Else(cond) == Append(Front(cond), [v |-> ~Last(cond).done, done |-> TRUE])
IsCond(line) == line.k \in {"if", "elif", "ifdef", "ifndef", "else", "endif"}
\* [ok, cond, un]: conditional stack after a directive; un: the outcome is not promised
CondStep(cond, line, inp, env, pcds, rounds) ==
  LET Res(c) == [ok |-> TRUE, un |-> FALSE, cond |-> c]
      Fail == [ok |-> FALSE, un |-> FALSE, cond |-> cond]
      Open_ == [ok |-> TRUE, un |-> TRUE, cond |-> cond]
  IN CASE line.k = "if" ->
            LET v == CondVerdict(line.e, inp, env, pcds, rounds) IN
            IF v = "U" THEN Open_ ELSE IF v = "E" THEN Fail ELSE Res(PushIf(cond, v = "T"))
       [] line.k = "elif" ->
            IF Len(cond) = 0 THEN Fail
            ELSE IF Last(cond).done THEN Res(ElseIf(cond, FALSE))
            ELSE LET v == CondVerdict(line.e, inp, env, pcds, rounds) IN
                 IF v = "U" THEN Open_ ELSE IF v = "E" THEN Fail ELSE Res(ElseIf(cond, v = "T"))
       [] line.k = "ifdef" -> Res(PushIf(cond, Defined(inp, env, line.n)))
       [] line.k = "ifndef" -> Res(PushIf(cond, ~Defined(inp, env, line.n)))
       [] line.k = "else" -> IF Len(cond) = 0 THEN Fail ELSE Res(Else(cond))
       [] line.k = "endif" -> IF Len(cond) = 0 THEN Fail ELSE Res(Front(cond))

(* ------------------------------------------------------------------- includes *)
FileAt(prog, path) == IF \E i \in 1..Len(prog.files) : prog.files[i].path = path
                      THEN CHOOSE i \in 1..Len(prog.files) : prog.files[i].path = path ELSE 0
\* workspace, then the directory of the file holding the reference, then the package paths in order
Candidates(prog, rel, dir) ==
  IF StartsWith(rel, "/") THEN <<rel>> ELSE
  <<prog.ws \o "/" \o rel, dir \o "/" \o rel>> \o [i \in 1..Len(prog.pps) |-> prog.pps[i] \o "/" \o rel]
Resolve(prog, rel, dir) ==
  LET c == Candidates(prog, rel, dir)
      hit == {i \in 1..Len(c) : FileAt(prog, c[i]) # 0}
  IN IF hit = {} THEN 0 ELSE FileAt(prog, c[CHOOSE i \in hit : \A j \in hit : i <= j])

(* ----------------------------------------------------------------- the machine *)
\* mode: "def" (DSC definition pass), "dsc" (DSC main pass), "fdf"
Start(prog, mode, env) ==
  [mode |-> mode, stack |-> <<[f |-> FileAt(prog, prog.main), pc |-> 1]>>, cond |-> <<>>, env |-> env, dict |-> <<>>,
   pcds |-> <<>>, sect |-> "", out |-> <<>>, seen |-> <<FileAt(prog, prog.main)>>, st |-> "run"]

Finished(s) == s.st # "run"
Rounds(mode) == 2
Halt(s, why) == [s EXCEPT !.st = why]
Advance(s) == [s EXCEPT !.stack[Len(s.stack)].pc = @ + 1]

RECURSIVE ResolveAll(_, _, _)
ResolveAll(inp, env, i) ==
  IF i > Len(env) THEN env ELSE ResolveAll(inp, [env EXCEPT ![i].p = Expand(@, inp, env, FALSE)], i + 1)

SectKind(line) == Upper(line.s)
IsVarSection(mode, sect) == IF mode = "def" THEN sect \in {"DEFINES", "BUILDOPTIONS"} ELSE FALSE
Emitted(line, prog, s) ==
  LET X(p) == Render(Expand(p, prog.inputs, s.env, FALSE)) IN
  CASE line.k = "section" -> "[" \o line.s \o (IF line.q = "" THEN "" ELSE "." \o line.q) \o "]"
    [] line.k = "define" -> (IF line.kw THEN "DEFINE " ELSE "") \o line.n \o (IF X(line.p) = "" THEN " =" ELSE " = " \o X(line.p))
    [] line.k = "pcd" -> line.n \o "|" \o X(line.p)
    [] OTHER -> X(line.p)

IncludeStep(prog, s, line, rel) ==
  LET dirf == IF s.mode = "fdf" THEN s.stack[1].f ELSE Last(s.stack).f
      f == Resolve(prog, rel, prog.files[dirf].dir) IN
  IF f = 0 THEN Halt(s, "err")
  ELSE LET a == Advance(s) IN
       [a EXCEPT !.stack = Append(@, [f |-> f, pc |-> 1]),
                 !.seen = IF \E i \in 1..Len(@) : @[i] = f THEN @ ELSE Append(@, f)]

\* a line may stand there several times in a row
Times(line, x) == IF Has(line, "times") THEN [i \in 1..line.times |-> x] ELSE <<x>>
Step(prog, s) ==
  LET top == Last(s.stack) lines == prog.files[top.f].lines IN
  IF top.pc > Len(lines)
  THEN IF Len(s.stack) = 1 THEN Halt(s, "ok") ELSE [s EXCEPT !.stack = Front(@)]
  ELSE
  LET line == lines[top.pc]
      \* the definition pass learns PCD values from every line; the main pass from active ones
      s0 == IF s.mode = "def" /\ line.k = "pcd" THEN [s EXCEPT !.pcds = Bind(@, line.n, line.p)] ELSE s
  IN
  IF IsCond(line)
  THEN LET r == CondStep(s0.cond, line, prog.inputs, s0.env, s0.pcds, Rounds(s.mode)) IN
       IF r.un THEN Halt(s0, "any") ELSE IF ~r.ok THEN Halt(s0, "err")
       ELSE Advance([s0 EXCEPT !.cond = r.cond])
  ELSE IF ~Active(s0.cond) THEN Advance(s0)
  ELSE LET X(p) == Expand(p, prog.inputs, s0.env, FALSE) IN
  IF line.k = "include" THEN IncludeStep(prog, s0, line, Render(X(line.p)))
  ELSE CASE s.mode = "def" ->
         Advance(IF line.k = "section" THEN [s0 EXCEPT !.sect = SectKind(line)]
                 ELSE IF line.k = "define" /\ IsVarSection("def", s0.sect)
                 THEN [s0 EXCEPT !.env = ResolveAll(prog.inputs, Bind(@, line.n, X(line.p)), 1)]
                 \* a line that assigns nothing has no meaning there
                 ELSE IF line.k # "section" /\ IsVarSection("def", s0.sect) THEN Halt(s0, "any")
                 ELSE s0)
    [] s.mode = "dsc" ->
         LET s1 == [s0 EXCEPT !.out = @ \o Times(line, Emitted(line, prog, s0))] IN
         Advance(IF line.k = "section" THEN [s1 EXCEPT !.sect = SectKind(line)]
                 ELSE IF line.k = "pcd" /\ StartsWith(s1.sect, "PCDS") THEN [s1 EXCEPT !.pcds = Bind(@, line.n, X(line.p))]
                 ELSE s1)
    [] s.mode = "fdf" ->
         Advance(IF line.k = "section"
                 THEN [s0 EXCEPT !.sect = SectKind(line) \o (IF line.q = "" THEN "" ELSE "." \o line.q), !.env = s0.dict]
                 ELSE IF line.k = "define"
                 THEN IF s0.sect = "DEFINES"
                      THEN [s0 EXCEPT !.dict = Bind(@, line.n, X(line.p)), !.env = Bind(@, line.n, X(line.p))]
                      ELSE IF line.kw THEN [s0 EXCEPT !.env = Bind(@, line.n, X(line.p))] ELSE s0
                 ELSE IF line.k = "text" /\ StartsWith(s0.sect, "FV.")
                 THEN [s0 EXCEPT !.out = @ \o Times(line, [fv |-> SubSeq(s0.sect, 4, Len(s0.sect)), t |-> Render(X(line.p))])]
                 ELSE s0)

RECURSIVE Run(_, _)
Run(prog, s) == IF Finished(s) THEN s ELSE Run(prog, Step(prog, s))

\* a DSC file is read twice: definitions first, whose final values hold throughout the second reading
RunDsc(prog, env) ==
  LET d == Run(prog, Start(prog, "def", env)) IN
  IF d.st # "ok" THEN d
  ELSE LET r == Run(prog, Start(prog, "dsc", d.env)) IN
       [r EXCEPT !.seen = d.seen \o SelectSeq(r.seen, LAMBDA f : \A i \in 1..Len(d.seen) : d.seen[i] # f)]
RunFdf(prog) == Run(prog, Start(prog, "fdf", <<>>))
=============================================================================
