----------------------------- MODULE IncludeMC -----------------------------
(***************************************************************************)
(* Every placement of two included files over the searched directories:    *)
(* the include stack machine emits exactly the textual inlining.           *)
(***************************************************************************)
EXTENDS Preproc, Json
VARIABLES prog, s

T(x) == [k |-> "text", p |-> <<Lit(x)>>]
Inc(x) == [k |-> "include", p |-> <<Lit(x)>>]
Dirs == {"/ws", "/ws/Plat", "/ws/Plat/sub", "/ws/Pkgs", "/ws/Common"}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Main(again) == [path |-> "/ws/Plat/P.x", dir |-> "/ws/Plat",
         lines |-> <<T("m1"), Inc(again), T("m2"), Inc("b.inc"), T("m3")>>]
AFile(d) == [path |-> d \o "/a.inc", dir |-> d, lines |-> <<T(d \o ":a1"), Inc("b.inc"), T(d \o ":a2")>>]
BFile(d) == [path |-> d \o "/b.inc", dir |-> d, lines |-> <<T(d \o ":b")>>]
Prog(A, B, again) ==
  LET a == SetSeq(A) b == SetSeq(B) IN
  [files |-> <<Main(again)>> \o [i \in 1..Len(a) |-> AFile(a[i])] \o [i \in 1..Len(b) |-> BFile(b[i])],
   main |-> "/ws/Plat/P.x", ws |-> "/ws", pps |-> <<"/ws/Pkgs", "/ws/Common">>, inputs |-> <<>>]

\* textual inlining; "?" marks an include that names nothing
RECURSIVE Flat(_, _, _)
Flat(pr, f, i) ==
  LET ls == pr.files[f].lines IN
  IF i > Len(ls) THEN <<>>
  ELSE IF ls[i].k = "text" THEN <<ls[i].p[1].v>> \o Flat(pr, f, i + 1)
  ELSE LET g == Resolve(pr, ls[i].p[1].v, pr.files[f].dir) IN
       (IF g = 0 THEN <<"?">> ELSE Flat(pr, g, 1)) \o Flat(pr, f, i + 1)
UntilBad(out) == IF \E i \in 1..Len(out) : out[i] = "?"
                 THEN SubSeq(out, 1, (CHOOSE i \in 1..Len(out) : out[i] = "?" /\ \A j \in 1..(i - 1) : out[j] # "?") - 1)
                 ELSE out

Init == /\ \E A \in SUBSET Dirs, B \in SUBSET Dirs, again \in {"a.inc", "sub/a.inc"} : prog = Prog(A, B, again)
        /\ s = Start(prog, "dsc", <<>>)
Next == ~Finished(s) /\ s' = Step(prog, s) /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, s>>

Inlined == LET flat == Flat(prog, 1, 1) IN
  /\ s.st = "ok" => s.out = flat
  /\ s.st = "err" => s.out = UntilBad(flat) /\ s.out # flat
  /\ s.st = "run" => Len(s.out) <= Len(UntilBad(flat)) /\ SubSeq(UntilBad(flat), 1, Len(s.out)) = s.out
StackBounded == Len(s.stack) <= 3
Emit == Finished(s) => PrintT("@@" \o ToJson(prog))
=============================================================================
