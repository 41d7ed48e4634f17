---------------------------- MODULE DscContentMC ----------------------------
EXTENDS DscContent, Json
CONSTANT MaxLen
VARIABLES hist, s

Sec(items) == [k |-> "section", items |-> items]
It(kd, sc) == [kind |-> kd, scope |-> sc]
Lines == {Sec(<<It("components", "x64")>>), Sec(<<It("components", "")>>),
          Sec(<<It("libraryclasses", "")>>), Sec(<<It("libraryclasses", "x64.peim"), It("libraryclasses", "ia32")>>),
          [k |-> "comp", path |-> "P/A.inf", abs |-> FALSE, open |-> FALSE, file |-> "", ln |-> 0],
          [k |-> "comp", path |-> "P/B.inf", abs |-> FALSE, open |-> TRUE, file |-> "", ln |-> 0],
          [k |-> "sub", s |-> "libraryclasses"], [k |-> "sub", s |-> "pcdsfixedatbuild"],
          [k |-> "lib", cls |-> "L", path |-> "P/L1.inf", abs |-> FALSE],
          [k |-> "lib", cls |-> "l", path |-> "P/L2.inf", abs |-> FALSE],
          [k |-> "lib", cls |-> "NULL", path |-> "P/N.inf", abs |-> FALSE],
          [k |-> "close"]}
Last2(h) == IF Len(h) = 0 THEN [k |-> "none"] ELSE h[Len(h)]
\* syntactically sensible continuations
Sensible(l) ==
  CASE l.k = "section" -> s.depth = 0
    [] l.k = "comp" -> Kind(s) = "components" /\ s.depth = 0
    [] l.k = "sub" -> s.depth = 1 /\ Last2(hist).k \in {"comp", "lib"}
    [] l.k = "lib" -> Kind(s) = "libraryclasses" \/ (s.depth = 1 /\ s.sub = "libraryclasses")
    [] l.k = "close" -> s.depth = 1

Init == hist = <<>> /\ s = DStart(<<"IA32", "X64">>, <<"P/L1.inf">>)
Next == \E l \in Lines : Len(hist) < MaxLen /\ Sensible(l) /\ hist' = Append(hist, l) /\ s' = DStep(s, l)
Spec == Init /\ [][Next]_<<hist, s>>

\* ---- declarative readings of the history
SectAt(i) == LET S == {j \in 1..i : hist[j].k = "section"} IN
             IF S = {} THEN <<>> ELSE hist[CHOOSE j \in S : \A m \in S : m <= j].items
Opener(i) == LET S == {j \in 1..i : hist[j].k = "comp"} IN CHOOSE j \in S : \A m \in S : m <= j
InBraces(i) == \E j \in 1..i : hist[j].k = "comp" /\ hist[j].open /\ ~\E m \in (j + 1)..i : hist[m].k \in {"close", "comp", "section"}
Defs(key) == {i \in 1..Len(hist) : hist[i].k = "lib" /\ ~InBraces(i) /\
                \E t \in 1..Len(SectAt(i)) : SectAt(i)[t].kind = "libraryclasses" /\ ScopedKey(SectAt(i)[t], hist[i].cls) = key}
Newest(S) == CHOOSE i \in S : \A j \in S : j <= i
\* every scope lists exactly the instances defined for it, the newest first
ScopedComplete == \A k \in 1..Len(s.scoped) :
   LET v == s.scoped[k].v D == Defs(s.scoped[k].key) IN
   /\ {v[i] : i \in 1..Len(v)} = {hist[i].path : i \in D}
   /\ Cardinality({v[i] : i \in 1..Len(v)}) = Len(v)
   /\ v[1] = hist[Newest(D)].path
\* overrides belong to the component whose braces they stand in
OverridesLocal == \A c \in 1..Len(s.comps) :
   /\ \A o \in 1..Len(s.comps[c].ov) : \E i \in 1..Len(hist) :
        hist[i].k = "lib" /\ InBraces(i) /\ hist[Opener(i)].path = s.comps[c].path /\ hist[i].path = s.comps[c].ov[o].v
   /\ s.comps[c].path = "P/A.inf" => s.comps[c].ov = <<>> /\ s.comps[c].nulls = <<>>
\* one component per architecture of its section
CompsPerArch == Len(s.comps) = SumSeq([i \in 1..Len(hist) |->
   IF hist[i].k # "comp" THEN 0 ELSE IF SectAt(i)[1].scope = "" THEN 2 ELSE 1])
LibsCount == Len(s.libs) = Cardinality({i \in 1..Len(hist) : hist[i].k = "lib"})
Emit == (Len(hist) = MaxLen /\ s.depth = 0) => PrintT("@@" \o ToJson(hist))
=============================================================================
