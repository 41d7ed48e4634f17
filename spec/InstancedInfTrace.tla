-------------------------- MODULE InstancedInfTrace --------------------------
EXTENDS InstancedInf, Conform
\* an observed row is one the specification allows if it differs at most in which of the admissible classes it names
Same(o, r) == /\ o.path = r.path /\ o.arch = r.arch /\ o.component = r.component /\ o.name = r.name
              /\ SeqSet(o.links) = r.links /\ Len(o.links) = Cardinality(r.links)
              /\ SeqSet(o.srcs) = r.srcs /\ Len(o.srcs) = Cardinality(r.srcs) /\ o.cls \in r.cls
Check(w, ev) ==
  LET d == Plain(DRun(DStart(w.archs, w.exists), ev.lines, 1))
      t == SeqSet(ev.targets)
      want == Rows(d, w.infs, t)
      o == ev.obs IN
  [s |-> w,
   exp |-> [rows |-> want, fvs |-> [i \in 1..Len(ev.fvs) |-> FvOf(d, w.infs, t, ev.fvs[i])]],
   ok |-> /\ o.st = "ok" /\ o.kept
          /\ Len(o.rows) = Cardinality(want)
          /\ \A i \in 1..Len(o.rows) : o.rows[i].own /\ \E r \in want : Same(o.rows[i], r)
          /\ \A r \in want : \E i \in 1..Len(o.rows) : Same(o.rows[i], r)
          /\ Len(o.fvs) = Len(ev.fvs)
          /\ \A i \in 1..Len(ev.fvs) : /\ o.fvs[i].name = ev.fvs[i].name /\ o.fvs[i].own
                                        /\ SeqSet(o.fvs[i].infs) = FvOf(d, w.infs, t, ev.fvs[i])]
IS(ev) == Check([archs |-> ev.archs, exists |-> ev.exists, infs |-> ev.infs], ev)
\* a further parse into the same database: its own rows, and those of the earlier parses as they were
IN0(st, ev) == Check(st, ev)
=============================================================================
