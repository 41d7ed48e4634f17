---------------------------- MODULE SigListTrace ----------------------------
EXTENDS SigList, Conform
US(ev) == [s |-> [n \in {"a", "b", "c", "d"} |-> New("sha256")], ok |-> TRUE, exp |-> "any"]
\* what the harness shows of a list
Show(l) == [t |-> l.t, ls |-> l.ls, hs |-> l.hs, sz |-> l.sz, data |-> l.data]
ShowAll(ls) == [i \in 1..Len(ls) |-> Show(ls[i])]
Res(st, n, r, ev) == LET e == [ok |-> r.ok, l |-> Show(r.l)] IN [s |-> [st EXCEPT ![n] = r.l], exp |-> e, ok |-> ev.obs = e]
\* an entry on its own: made from content, or read from where the stream stands
Entry(ev) ==
  LET rest == From(ev.b, ev.pos + 1)  sha == ev.t = "sha256"
      \* an entry of a certificate reads as many bytes as it is told, one of a digest the size of a digest
      Read(n) == [ok |-> n >= 16 /\ n <= Len(rest), o |-> At(rest, 1, 16), d |-> At(rest, 17, n - 16), pos |-> ev.pos + n]
      Made(d) == [ok |-> TRUE, o |-> ev.o, d |-> d, pos |-> Len(ev.b)]
      no == [ok |-> FALSE]
      r == CASE ev.how \in {"create", "factory"} /\ ev.t = "other" -> no
             [] ev.how = "new" -> IF sha /\ Len(rest) # 32 THEN no ELSE Made(rest)
             [] ev.how \in {"createfs", "create"} -> Made(IF sha THEN ev.hash ELSE rest)
             [] OTHER -> IF ~sha THEN (IF ev.size >= 16 /\ ev.size <= Len(rest) THEN Read(ev.size) ELSE no)
                         ELSE IF Len(rest) < 48 \/ (ev.how = "factory" /\ ev.size # 48) THEN no ELSE Read(48) IN
  IF ~r.ok THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, o |-> r.o, d |-> r.d, b |-> r.o \o r.d, w |-> r.o \o r.d, total |-> 16 + Len(r.d), pos |-> r.pos, sha |-> sha, b2 |-> ev.o2 \o r.d]
UN(st, ev) ==
  CASE ev.k = "new" -> Res(st, ev.n, Yes(New(ev.t)), ev)
    [] ev.k = "header" -> Res(st, ev.n, SetHeader(st[ev.n], ev.size), ev)
    [] ev.k = "add" -> Res(st, ev.n, Add(st[ev.n], ev.e), ev)
    [] ev.k = "merge" ->
         LET r == Merge(st[ev.n], st[ev.m]) IN
         IF r.ok THEN Res(st, ev.n, r, ev)
         \* a refused merge changes nothing, but may have settled that there is no header
         ELSE LET e == [ok |-> FALSE, l |-> Show(r.l)] IN
              [s |-> [st EXCEPT ![ev.n].hs = ev.obs.l.hs], exp |-> e, ok |-> ev.obs.l.hs \in {0, r.l.hs} /\ [ev.obs EXCEPT !.l.hs = r.l.hs] = e]
    [] ev.k = "sort" ->
         LET r == Sort(st[ev.n], ev.dedupe) e == [l |-> Show(r.l), dup |-> Show(DupList(r.l, r.dup))] IN
         [s |-> [st EXCEPT ![ev.n] = r.l], exp |-> e, ok |-> ev.obs = e]
    [] ev.k = "encode" ->
         IF st[ev.n].t = "unknown" THEN [s |-> st, exp |-> "any", ok |-> ev.obs.ok] ELSE
         LET l == st[ev.n] e == IF CanEncode(l) THEN [ok |-> TRUE, b |-> Enc(l)] ELSE [ok |-> FALSE, b |-> <<>>] IN
         [s |-> st, exp |-> e, ok |-> ev.obs = e]
    [] ev.k = "decode" ->
         LET r == Dec(ev.b) e == [ok |-> r.ok, l |-> Show(r.l), n |-> r.n] IN
         [s |-> IF r.ok THEN [st EXCEPT ![ev.n] = r.l] ELSE st, exp |-> e, ok |-> IF r.ok THEN ev.obs = e ELSE ~ev.obs.ok]
    [] ev.k = "db" ->
         LET ls == [i \in 1..Len(ev.ns) |-> st[ev.ns[i]]] IN
         IF ~CanonOk(ls) THEN [s |-> st, exp |-> "refused", ok |-> ~ev.obs.ok]
         ELSE IF ~CanonDefined(ls) THEN [s |-> st, exp |-> "any", ok |-> TRUE]
         ELSE LET r == Canon(ls)
                  e == [ok |-> TRUE, canon |-> ShowAll(r.canon), dupes |-> ShowAll(r.dupes), cb |-> EncAll(r.canon), after |-> ShowAll(ls)] IN
              [s |-> st, exp |-> e, ok |-> ev.obs = e]
    [] ev.k = "entry" -> LET e == Entry(ev) IN [s |-> st, exp |-> e, ok |-> ev.obs = e]
    [] ev.k = "dbdecode" ->
         LET r == DecDb(ev.b) e == [ok |-> r.ok, ls |-> ShowAll(r.ls), b |-> IF r.ok THEN ev.b ELSE <<>>] IN
         [s |-> st, exp |-> e, ok |-> ev.obs = e]
    [] OTHER -> [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
