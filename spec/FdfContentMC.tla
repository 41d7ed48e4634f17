---------------------------- MODULE FdfContentMC ----------------------------
EXTENDS FdfContent, Json
CONSTANT MaxLen
VARIABLES hist, s
Sec(kd, n) == [k |-> "section", kind |-> kd, names |-> n]
Lines == {Sec("fv", <<"A">>), Sec("fv", <<"B">>), Sec("fd", <<"A">>), Sec("rule", <<"R">>), Sec("fv", <<"A", "C">>),
          [k |-> "inf", v |-> "P/a.inf"], [k |-> "inf", v |-> "RuleOverride = X P/b.inf"],
          [k |-> "file", t |-> "FREEFORM", n |-> "G1", open |-> TRUE], [k |-> "file", t |-> "RAW", n |-> "G2", open |-> FALSE],
          [k |-> "sect", t |-> "UI", v |-> "u"], [k |-> "sect", t |-> "RAW", v |-> "r.bin"], [k |-> "guided", t |-> "EE"],
          [k |-> "close"], [k |-> "def", n |-> "BlockSize", v |-> "1", local |-> FALSE]}
Sensible(l) == CASE l.k = "section" -> s.depth = 0
   [] l.k = "def" -> s.depth = 0 /\ s.kind # "none"
   [] l.k = "inf" -> s.kind = "fv" /\ s.depth = 0
   [] l.k = "file" -> s.kind = "fv" /\ s.depth = 0 /\ Len(s.names) = 1 /\ FIdx(FGet(s.fvs, s.names[1], NewFv).files, l.n) = 0
   [] l.k \in {"sect", "guided"} -> s.depth \in 1..2
   [] l.k = "close" -> s.depth > 0
Init == hist = <<>> /\ s = FStart
Next == \E l \in Lines : Len(hist) < MaxLen /\ Sensible(l) /\ hist' = Append(hist, l) /\ s' = FStep(s, l)
Spec == Init /\ [][Next]_<<hist, s>>
HeadAt(i) == LET S == {j \in 1..i : hist[j].k = "section"} IN hist[CHOOSE j \in S : \A m \in S : m <= j]
\* a volume lists exactly the INF lines below its headers
InfsExact == \A v \in 1..Len(s.fvs) : Len(s.fvs[v].v.infs) = Cardinality({i \in 1..Len(hist) : hist[i].k = "inf" /\ \E n \in Range(HeadAt(i).names) : n = s.fvs[v].key})
FilesExact == SumSeq([v \in 1..Len(s.fvs) |-> Len(s.fvs[v].v.files)]) = Cardinality({i \in 1..Len(hist) : hist[i].k = "file"})
SectsExact == SumSeq([v \in 1..Len(s.fvs) |-> SumSeq([f \in 1..Len(s.fvs[v].v.files) |-> SumSeq([t \in 1..Len(s.fvs[v].v.files[f].v.sects) |-> Len(s.fvs[v].v.files[f].v.sects[t].v)])])])
              = Cardinality({i \in 1..Len(hist) : hist[i].k = "sect"})
Emit == (Len(hist) = MaxLen /\ s.depth = 0) => PrintT("@@" \o ToJson(hist))
=============================================================================
