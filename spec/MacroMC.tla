----------------------------- MODULE MacroMC -----------------------------
(***************************************************************************)
(* Every short program of definitions, redefinitions, sections, PCD values,*)
(* conditions and uses of two macros and a PCD, block by block.            *)
(***************************************************************************)
EXTENDS Preproc, Json
CONSTANTS MaxLen, Mode
VARIABLES hist, inp, open, res

Sect(s, q) == [k |-> "section", s |-> s, q |-> q]
Def(n, p) == [k |-> "define", kw |-> TRUE, n |-> n, p |-> p]
Txt == [k |-> "text", p |-> <<Lit("t-"), Mac("A"), Lit("-"), Mac("B")>>, pre |-> IF Mode = "fdf" THEN "INF " ELSE ""]
V(p) == [k |-> "val", q |-> FALSE, pcd |-> FALSE, p |-> p]
Eq == [k |-> "op", s |-> "=="]
Pcd == "gTokenSpaceGuid.PcdOne"
Values == [A1 |-> <<"A", <<Lit("1")>>>>, A2 |-> <<"A", <<Lit("2")>>>>, AB |-> <<"A", <<Lit("x"), Mac("B")>>>>,
           B3 |-> <<"B", <<Lit("true")>>>>, AA |-> <<"A", <<Mac("A"), Lit("y")>>>>]
Conds == [ifdefA |-> [k |-> "ifdef", n |-> "A"], ifndefB |-> [k |-> "ifndef", n |-> "B"],
          ifA |-> [k |-> "if", e |-> <<V(<<Mac("A")>>), Eq, V(<<Lit("2")>>)>>],
          ifU |-> [k |-> "if", e |-> <<V(<<Mac("B")>>)>>],
          ifP |-> [k |-> "if", e |-> <<[V(<<Lit(Pcd)>>) EXCEPT !.pcd = TRUE], Eq, V(<<Lit("1")>>)>>]]
\* the lines a block stands for
Block(b) ==
  CASE b[1] = "cond" -> <<Conds[b[2]]>>
    [] b[1] = "endif" -> <<[k |-> "endif"]>>
    [] b[1] = "use" -> <<Txt>>
    [] b[1] = "sect" -> <<Sect("FV", "ALT")>>
    [] b[1] = "pcd" -> <<Sect("PcdsFixedAtBuild", ""), [k |-> "pcd", n |-> Pcd, p |-> <<Lit(b[2])>>], Sect("UserExtensions", "p")>>
    [] b[1] = "local" -> <<Def(Values[b[2]][1], Values[b[2]][2])>>
    [] OTHER -> <<Sect("Defines", ""), Def(Values[b[2]][1], Values[b[2]][2]),
                  IF Mode = "dsc" THEN Sect("UserExtensions", "z") ELSE Sect("FV", "MAIN")>>
IsDef(b) == b[1] \in {"local", "global"}
IsIf(b) == b[1] = "cond"
Blocks == {<<"cond", c>> : c \in DOMAIN Conds} \cup {<<"endif", "">>, <<"use", "">>} \cup {<<"global", v>> : v \in DOMAIN Values}
          \cup (IF Mode = "dsc" THEN {<<"pcd", "0">>, <<"pcd", "1">>} ELSE {<<"sect", "">>} \cup {<<"local", v>> : v \in DOMAIN Values})
RECURSIVE Flatten(_)
Flatten(h) == IF Len(h) = 0 THEN <<>> ELSE Block(h[1]) \o Flatten(Tail(h))
Start0 == IF Mode = "dsc" THEN <<Sect("Defines", ""), [Def("SUPPORTED_ARCHITECTURES", <<Lit("X64")>>) EXCEPT !.kw = FALSE], Sect("UserExtensions", "z")>>
          ELSE <<Sect("FV", "MAIN")>>
Prog(h, in) == [files |-> <<[path |-> "/ws/P.x", dir |-> "/ws", lines |-> Start0 \o Flatten(h) \o <<Txt>>]>>,
            main |-> "/ws/P.x", ws |-> "/ws", pps |-> <<"/ws/Pkgs", "/ws/Common">>, inputs |-> in]
ResultOf(h, in) == LET r == IF Mode = "dsc" THEN RunDsc(Prog(h, in), <<>>) ELSE RunFdf(Prog(h, in)) IN
  [st |-> r.st, text |-> IF Len(r.out) = 0 THEN "" ELSE IF Mode = "dsc" THEN r.out[Len(r.out)] ELSE r.out[Len(r.out)].t]

Init == hist = <<>> /\ open = 0 /\ res = [st |-> "open", text |-> ""] /\ inp \in {<<>>, <<[n |-> "A", p |-> <<Lit("2")>>]>>, <<[n |-> "B", p |-> <<Lit("FALSE")>>]>>}
Next == /\ Len(hist) < MaxLen
        /\ \E b \in Blocks :
             /\ b[1] = "endif" => open > 0 /\ ~IsIf(hist[Len(hist)])      \* empty branches say nothing
             /\ open' = open + (IF IsIf(b) THEN 1 ELSE IF b[1] = "endif" THEN -1 ELSE 0)
             /\ Len(hist) + 1 + open' <= MaxLen
             /\ open' <= 2
             /\ hist' = Append(hist, b)
        /\ res' = IF open' = 0 THEN ResultOf(hist', inp) ELSE [st |-> "open", text |-> ""]
        /\ UNCHANGED inp
Spec == Init /\ [][Next]_<<hist, inp, open, res>>

Full == res.st = "ok"
FinalText == res.text
Plain == \A i \in 1..Len(hist) : ~IsIf(hist[i])
Defs(n) == {i \in 1..Len(hist) : IsDef(hist[i]) /\ Values[hist[i][2]][1] = n}
\* only a condition on a self referring (so empty) macro is malformed
Ok == res.st \in {"ok", "any", "open"} \/ \E i \in 1..Len(hist) : IsDef(hist[i]) /\ hist[i][2] = "AA"
\* what the caller gave is never overridden
CallerWins == (Full /\ Len(inp) = 1 /\ inp[1].n = "A") => StartsWith(FinalText, "t-2-")
\* without conditions the last definition wins (in an FDF unless a section came after a local one)
LastWins == (Full /\ Plain /\ Len(inp) = 0 /\ Defs("A") # {}) =>
  LET i == CHOOSE i \in Defs("A") : \A j \in Defs("A") : j <= i IN
  (hist[i][2] \in {"A1", "A2"} /\ hist[i][1] = "global" /\ (\A j \in 1..Len(hist) : ~(j > i /\ IsDef(hist[j]) /\ hist[j][1] = "local")))
    => StartsWith(FinalText, IF hist[i][2] = "A1" THEN "t-1-" ELSE "t-2-")
\* a local definition is gone in the next section
Scoped == (Full /\ Plain /\ Len(inp) = 0 /\ Mode = "fdf" /\ (\A i \in Defs("A") : hist[i][1] = "local") /\ Len(hist) > 0 /\ hist[Len(hist)][1] = "sect")
            => StartsWith(FinalText, "t-$(A)-")
Stays == (Full /\ Len(inp) = 0 /\ Defs("B") = {} /\ Defs("A") = {}) => FinalText = "t-$(A)-$(B)"
Emit == (open = 0 /\ Len(hist) = MaxLen) => PrintT("@@" \o ToJson([mode |-> Mode, prog |-> Prog(hist, inp)]))
=============================================================================
