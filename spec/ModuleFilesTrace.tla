-------------------------- MODULE ModuleFilesTrace --------------------------
EXTENDS ModuleFiles, Conform
SetOfSeq(x) == {x[i] : i \in 1..Len(x)}
Pairs(a) == {<<a[i].key, a[i].v>> : i \in 1..Len(a)}
TwoFields(s) == s.kind
FS(ev) ==
  LET r == MRun(MStart(ev.ft), ev.lines, 1) o == ev.obs IN
  [s |-> [nil |-> TRUE],
   exp |-> [dict |-> r.dict, lists |-> r.lists, class |-> r.class, phases |-> r.phases, scoped |-> r.scoped],
   ok |-> /\ o.st = "ok"
          /\ Pairs(o.dict) = Pairs(r.dict)
          /\ \A q \in DOMAIN o.lists : o.lists[q] = r.lists[q]
          /\ ev.ft = "inf" =>
               /\ o.class = r.class
               /\ o.phases = (IF r.phases = <<"none">> THEN <<>> ELSE r.phases)
               /\ \A i \in 1..Len(ev.asks) :
                    LET a == {Lower(ev.asks[i][j]) : j \in 1..Len(ev.asks[i])} IN
                    /\ SetOfSeq(o.libs[i]) = ForArchs(r, "libraryclasses", a) /\ Len(o.libs[i]) = Cardinality(SetOfSeq(o.libs[i]))
                    /\ SetOfSeq(o.srcs[i]) = ForArchs(r, "sources", a) /\ Len(o.srcs[i]) = Cardinality(SetOfSeq(o.srcs[i]))]
FN(st, ev) == [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
