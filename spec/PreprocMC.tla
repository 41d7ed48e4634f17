----------------------------- MODULE PreprocMC -----------------------------
(***************************************************************************)
(* Every sequence of conditional directives up to a bound, against the     *)
(* declarative reading of nested chains: a position is active iff in every *)
(* open chain the current branch is the first branch whose condition holds.*)
(***************************************************************************)
EXTENDS Preproc, Json
CONSTANTS MaxLen, MaxDepth
VARIABLES hist, cond

Num(n) == <<[k |-> "val", q |-> FALSE, pcd |-> FALSE, p |-> <<Lit(n)>>]>>
Env == <<[n |-> "DEF", p |-> <<Lit("")>>]>>
Dirs == {[k |-> "if", e |-> Num("1")], [k |-> "if", e |-> Num("0")],
         [k |-> "elif", e |-> Num("1")], [k |-> "elif", e |-> Num("0")],
         [k |-> "ifdef", n |-> "DEF"], [k |-> "ifdef", n |-> "UND"],
         [k |-> "ifndef", n |-> "DEF"], [k |-> "ifndef", n |-> "UND"],
         [k |-> "else"], [k |-> "endif"]}

\* declarative: the condition a directive contributes as a branch of its chain
BranchCond(d) == CASE d.k \in {"if", "elif"} -> d.e[1].p[1].v = "1"
                   [] d.k = "ifdef" -> d.n = "DEF" [] d.k = "ifndef" -> d.n # "DEF" [] d.k = "else" -> TRUE
\* open chains after h: sequence of sequences of branch conditions
RECURSIVE Open(_)
Open(h) == IF Len(h) = 0 THEN <<>>
           ELSE LET o == Open(Front(h)) d == Last(h) IN
                IF d.k = "endif" THEN Front(o)
                ELSE IF d.k \in {"elif", "else"} THEN Append(Front(o), Append(Last(o), BranchCond(d)))
                ELSE Append(o, <<BranchCond(d)>>)
Taken(chain) == Last(chain) /\ \A i \in 1..(Len(chain) - 1) : ~chain[i]
ActiveDecl(h) == \A i \in 1..Len(Open(h)) : Taken(Open(h)[i])
\* the innermost open chain already had its else
RECURSIVE HadElse(_, _)
HadElse(h, depth) == IF Len(h) = 0 THEN FALSE
  ELSE LET d == Last(h) IN
       IF d.k = "endif" THEN HadElse(Front(h), depth + 1)
       ELSE IF d.k \in {"if", "ifdef", "ifndef"} THEN (IF depth = 0 THEN FALSE ELSE HadElse(Front(h), depth - 1))
       ELSE IF d.k = "else" /\ depth = 0 THEN TRUE ELSE HadElse(Front(h), depth)

Init == hist = <<>> /\ cond = <<>>
Next == \E d \in Dirs :
  /\ Len(hist) < MaxLen
  /\ (d.k \in {"elif", "else", "endif"}) => Len(cond) > 0
  /\ (d.k \in {"elif", "else"}) => ~HadElse(hist, 0)
  /\ LET r == CondStep(cond, d, <<>>, Env, <<>>, 1) IN
     /\ r.ok /\ cond' = r.cond
     /\ Len(r.cond) <= MaxDepth
     /\ Len(hist) + 1 + Len(r.cond) <= MaxLen
  /\ hist' = Append(hist, d)
Spec == Init /\ [][Next]_<<hist, cond>>

MachineIsDeclarative == Active(cond) = ActiveDecl(hist)
DepthAgrees == Len(cond) = Len(Open(hist))
\* at most one branch of a chain is ever taken: done is never lost while the chain is open
OneBranch == [][\A i \in 1..Min2(Len(cond), Len(cond')) :
                  (Len(cond') >= Len(cond) /\ Len(hist') > Len(hist) /\ cond[i].done /\ hist'[Len(hist')].k # "endif") => cond'[i].done]_<<hist, cond>>
Emit == (Len(hist) > 0 /\ Len(cond) = 0) => PrintT("@@" \o ToJson(hist))
=============================================================================
