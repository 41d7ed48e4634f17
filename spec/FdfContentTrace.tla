-------------------------- MODULE FdfContentTrace --------------------------
EXTENDS FdfContent, Conform
KV(a) == {<<a[i].key, a[i].v>> : i \in 1..Len(a)}
FileOf(f) == <<f.type, KV(f.sects), {f.guided[i] : i \in 1..Len(f.guided)}>>
FileEx(f) == <<f.type, KV(f.sects), f.guided>>
ObsFvs(a) == {<<a[i].key, a[i].infs, {<<a[i].files[j].key, FileOf(a[i].files[j].v)>> : j \in 1..Len(a[i].files)}>> : i \in 1..Len(a)}
ExpFvs(a) == {<<a[i].key, a[i].v.infs, {<<a[i].v.files[j].key, FileEx(a[i].v.files[j].v)>> : j \in 1..Len(a[i].v.files)}>> : i \in 1..Len(a)}
GS(ev) == LET r == FRun(FStart, ev.lines, 1) o == ev.obs IN
  [s |-> [nil |-> TRUE], exp |-> [dict |-> r.dict, fvs |-> r.fvs, fds |-> r.fds],
   ok |-> /\ o.st = "ok" /\ KV(o.dict) = KV(r.dict) /\ ObsFvs(o.fvs) = ExpFvs(r.fvs) /\ {o.fds[i] : i \in 1..Len(o.fds)} = r.fds]
GN(st, ev) == [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
