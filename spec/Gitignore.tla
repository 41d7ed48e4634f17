----------------------------- MODULE Gitignore -----------------------------
(***************************************************************************)
(* Gitignore rules and the walk that honours them.  Patterns and names are *)
(* sequences of characters; a path is a sequence of names.                 *)
(***************************************************************************)
EXTENDS Text, TLC

\* ---- names: *, ?, [set] ---------------------------------------------------
\* end of the bracket expression opened at i, or 0
RECURSIVE BracketEnd(_, _)
BracketEnd(p, j) == IF j > Len(p) THEN 0 ELSE IF p[j] = "]" THEN j ELSE BracketEnd(p, j + 1)
ClassEnd(p, i) == LET a == IF i + 1 <= Len(p) /\ p[i + 1] = "!" THEN i + 2 ELSE i + 1
                      b == IF a <= Len(p) /\ p[a] = "]" THEN a + 1 ELSE a IN BracketEnd(p, b)
Code(c) == IF c \in LowerSet THEN 97 + (CHOOSE i \in 1..26 : LowerSeq[i] = c)
           ELSE IF c \in UpperSet THEN 65 + (CHOOSE i \in 1..26 : UpperSeq[i] = c)
           ELSE IF c \in DecSet THEN 48 + HexVal[c] ELSE 0
RECURSIVE InClass(_, _, _)
InClass(cs, c, i) ==
  IF i > Len(cs) THEN FALSE
  ELSE IF i + 2 <= Len(cs) /\ cs[i + 1] = "-"
       THEN (Code(cs[i]) <= Code(c) /\ Code(c) <= Code(cs[i + 2])) \/ InClass(cs, c, i + 3)
  ELSE cs[i] = c \/ InClass(cs, c, i + 1)
RECURSIVE NameMatch(_, _, _, _)
NameMatch(p, i, n, j) ==
  IF i > Len(p) THEN j > Len(n)
  ELSE IF p[i] = "*" THEN NameMatch(p, i + 1, n, j) \/ (j <= Len(n) /\ NameMatch(p, i, n, j + 1))
  ELSE IF j > Len(n) THEN FALSE
  ELSE IF p[i] = "?" THEN NameMatch(p, i + 1, n, j + 1)
  ELSE IF p[i] = "[" /\ ClassEnd(p, i) > 0
       THEN LET e == ClassEnd(p, i) neg == p[i + 1] = "!"
                body == SubSeq(p, IF neg THEN i + 2 ELSE i + 1, e - 1) IN
            (InClass(body, n[j], 1) # neg) /\ NameMatch(p, e + 1, n, j + 1)
  ELSE p[i] = n[j] /\ NameMatch(p, i + 1, n, j + 1)
Glob(p, n) == NameMatch(p, 1, n, 1)

\* ---- paths: ** spans directories ------------------------------------------
Stars(s) == Len(s) >= 2 /\ \A i \in 1..Len(s) : s[i] = "*"
RECURSIVE SegMatch(_, _, _, _)
SegMatch(ps, i, path, j) ==
  IF i > Len(ps) THEN j > Len(path)
  ELSE IF Stars(ps[i]) THEN IF i = Len(ps) THEN j <= Len(path)
                           ELSE SegMatch(ps, i + 1, path, j) \/ (j <= Len(path) /\ SegMatch(ps, i, path, j + 1))
  ELSE j <= Len(path) /\ Glob(ps[i], path[j]) /\ SegMatch(ps, i + 1, path, j + 1)

\* ---- rules ------------------------------------------------------------------
\* blanks at the end do not count, but for the one behind a backslash
RECURSIVE TrimTail(_)
TrimTail(cs) == LET n == Len(cs) IN
                IF n = 0 \/ cs[n] # " " THEN cs
                ELSE IF n > 1 /\ cs[n - 1] = "\\" THEN cs ELSE TrimTail(SubSeq(cs, 1, n - 1))
RECURSIVE Unescape(_)
Unescape(cs) == IF Len(cs) < 2 THEN cs
                ELSE IF cs[1] = "\\" /\ cs[2] = " " THEN <<" ">> \o Unescape(SubSeq(cs, 3, Len(cs)))
                ELSE <<cs[1]>> \o Unescape(Tail(cs))
NoRule == [rule |-> FALSE]
RuleOf(line) ==
  LET l0 == TrimTail(line) IN
  IF l0 = <<>> \/ l0[1] = "#" THEN NoRule
  ELSE LET neg == l0[1] = "!"
           l1 == IF neg THEN Tail(l0) ELSE l0
           l2 == IF Len(l1) > 1 /\ l1[1] = "\\" /\ l1[2] \in {"#", "!"} THEN Tail(l1) ELSE l1
           donly == l2 # <<>> /\ l2[Len(l2)] = "/"
           l3 == IF donly THEN SubSeq(l2, 1, Len(l2) - 1) ELSE l2
           anch == \E i \in 1..Len(l3) : l3[i] = "/"
           l4 == IF l3 # <<>> /\ l3[1] = "/" THEN Tail(l3) ELSE l3 IN
       IF l4 = <<>> THEN NoRule
       ELSE [rule |-> TRUE, neg |-> neg, donly |-> donly, segs |-> IF anch THEN SplitBy(Unescape(l4), "/") ELSE <<Chars("**"), Unescape(l4)>>]
RuleMatch(r, path, isdir) == (isdir \/ ~r.donly) /\ SegMatch(r.segs, 1, path, 1)
RulesOf(lines) == SelectSeq([i \in 1..Len(lines) |-> RuleOf(lines[i])], LAMBDA r : r.rule)
\* the last rule that matches decides
Ignored(rules, path, isdir) ==
  LET hits == {i \in 1..Len(rules) : RuleMatch(rules[i], path, isdir)} IN
  hits # {} /\ ~rules[CHOOSE i \in hits : \A j \in hits : j <= i].neg
\* a file is visited when neither it nor a directory above it is ignored
Visited(rules, path) == ~Ignored(rules, path, FALSE)
                        /\ \A k \in 1..(Len(path) - 1) : ~Ignored(rules, SubSeq(path, 1, k), TRUE)
\* a pattern for directories also names a file: not decided here
\* (nor are files in a folder that a later pattern re-includes after a pattern for directories)
Open(rules, path) ==
  \/ \E i \in 1..Len(rules) : rules[i].donly /\ SegMatch(rules[i].segs, 1, path, 1)
  \/ \E k \in 1..(Len(path) - 1) : LET dir == SubSeq(path, 1, k) IN
        ~Ignored(rules, dir, TRUE) /\ \E i \in 1..Len(rules) : rules[i].donly /\ ~rules[i].neg /\ RuleMatch(rules[i], dir, TRUE)

\* ---- what a file contributes to the GUID list -------------------------------
\* [path, kind ("dec" | "inf" | other), protos, ppis, guids : sequences of [n, g], own : <<>> or <<[n, g]>>]
Up2(x) == [n |-> x.n, g |-> Upper(x.g)]
Contrib(f) ==
  CASE f.kind = "dec" -> [i \in 1..Len(f.protos) |-> Up2(f.protos[i])] \o [i \in 1..Len(f.ppis) |-> Up2(f.ppis[i])]
                         \o [i \in 1..Len(f.guids) |-> Up2(f.guids[i])] \o [i \in 1..Len(f.own) |-> Up2(f.own[i])]
    [] f.kind = "inf" -> [i \in 1..Len(f.own) |-> Up2(f.own[i])]
    [] OTHER -> <<>>
CPath(f) == [i \in 1..Len(f.path) |-> Chars(f.path[i])]
Listing(rules, files) == {i \in 1..Len(files) : Visited(rules, CPath(files[i])) /\ Contrib(files[i]) # <<>>}
=============================================================================
