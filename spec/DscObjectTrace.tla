--------------------------- MODULE DscObjectTrace ---------------------------
EXTENDS DscObject, Conform
US(ev) == [s |-> Empty, ok |-> TRUE, exp |-> "any"]
Set(q) == {q[i] : i \in 1..Len(q)}
\* what was read from the file: sections [h, blocks [l, subs [h, lines]]]
SeenBlock(b) == <<b.l, {<<b.subs[i].h, Set(b.subs[i].lines)>> : i \in {j \in 1..Len(b.subs) : b.subs[j].lines # <<>>}}>>
Seen(secs) == {<<secs[i].h, {SeenBlock(secs[i].blocks[j]) : j \in 1..Len(secs[i].blocks)}>> : i \in {k \in 1..Len(secs) : secs[k].blocks # <<>>}}
NoDouble(secs) == /\ \A i, j \in 1..Len(secs) : secs[i].h = secs[j].h => i = j
                  /\ \A i \in 1..Len(secs) : \A j, k \in 1..Len(secs[i].blocks) : secs[i].blocks[j] = secs[i].blocks[k] => j = k
Good(r, ok) == r = "any" \/ (r = "ok") = ok
UN(st, ev) ==
  CASE ev.k \in {"add", "addto", "open", "look"} ->
         LET x == Do(st, [op |-> ev.k] @@ ev) IN
         IF ev.k = "look" THEN
           LET y == Look(st, ev.w, ev.sec) IN
           [s |-> x.st, exp |-> [ok |-> x.r, items |-> y.items], ok |-> Good(x.r, ev.obs.ok) /\ (x.r = "ok" => Set(ev.obs.items) = y.items /\ Len(ev.obs.items) = Cardinality(y.items))]
         ELSE [s |-> IF ev.k = "open" /\ x.r = "any" THEN [st EXCEPT !.d[ev.w][At(st.d[ev.w], Sec(ev.sec))] = [sec |-> Sec(ev.sec), sure |-> TRUE, items |-> IF ev.obs.ok THEN PutAll({}, ev.items, 1) ELSE {}]] ELSE x.st,
               exp |-> x.r, ok |-> Good(x.r, ev.obs.ok)]
    [] ev.k = "all" -> [s |-> st, exp |-> st.s, ok |-> \A w \in SetNames : Set(ev.obs[w]) = st.s[w] /\ Len(ev.obs[w]) = Cardinality(st.s[w])]
    [] ev.k = "seceq" ->
         LET a == Sec(ev.a)  b == Sec(ev.b)  v == a[1] # "no" /\ b[1] # "no" IN
         [s |-> st, exp |-> [ok |-> v, eq |-> v /\ a = b], ok |-> ev.obs.ok = v /\ (v => ev.obs.eq = (a = b) /\ (a = b => ev.obs.hash))]
    [] ev.k = "itemeq" ->
         LET v == Valid(ev.a) /\ Valid(ev.b)  e == v /\ SameThing(ev.a, ev.b) IN
         [s |-> st, exp |-> [ok |-> v, eq |-> e], ok |-> ev.obs.ok = v /\ (v => ev.obs.eq = e /\ (e => ev.obs.hash))]
    [] ev.k = "same" ->
         LET r == Same(st, RunAll(Empty, ev.ops, 1)) IN
         [s |-> st, exp |-> r, ok |-> r = "any" \/ (r = "yes") = ev.obs.eq]
    [] ev.k = "write" ->
         LET want == {x \in File(st) : x[2] # {}} IN
         [s |-> st, exp |-> want, ok |-> ev.obs.ok /\ NoDouble(ev.obs.secs) /\ Seen(ev.obs.secs) = want]
    [] OTHER -> [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
