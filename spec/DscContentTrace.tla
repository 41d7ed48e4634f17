-------------------------- MODULE DscContentTrace --------------------------
EXTENDS DscContent, Conform
SetOf(x) == {x[i] : i \in 1..Len(x)}
Comp(c) == [path |-> c.path, arch |-> c.arch, nulls |-> c.nulls, ov |-> AsSet(c.ov)]
Seqs(x) == [i \in 1..Len(x) |-> x[i]]
DS(ev) ==
  LET r == DRun(DStartAt(ev.archs, ev.exists, ev.pp), ev.lines, 1) o == ev.obs IN
  [s |-> [nil |-> TRUE],
   exp |-> [sixat |-> r.sixat, threeat |-> r.threeat, six |-> r.six, three |-> r.three, other |-> r.other, libs |-> r.libs, pcds |-> r.pcds, cls |-> r.cls,
            scoped |-> r.scoped, comps |-> r.comps],
   ok |-> /\ o.st = "ok"
          /\ o.sixat = r.sixat /\ o.threeat = r.threeat
          /\ o.six = r.six /\ o.three = r.three /\ o.other = r.other /\ o.libs = r.libs /\ o.pcds = r.pcds
          /\ AsSet(o.cls) = AsSet(r.cls)
          /\ AsSet(o.scoped) = AsSet(r.scoped)
          /\ [i \in 1..Len(o.comps) |-> Comp(o.comps[i])] = [i \in 1..Len(r.comps) |-> Comp(r.comps[i])]]
DN(st, ev) == [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
