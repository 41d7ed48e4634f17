----------------------------- MODULE SigListMC -----------------------------
(* Two signature lists built step by step: every order of header, entries, merges and sorts. *)
EXTENDS SigList, Json
CONSTANT MaxOps
VARIABLES lists, hist, added
vars == <<lists, hist, added>>
Owner(i) == Rep(i, 16)
\* entries: two values with two owners, and a certificate of its own size
E(v, o, t) == [o |-> Owner(o), d |-> IF t = "sha256" THEN Rep(v, 32) ELSE <<v, v>>]
Types == {"sha256", "x509"}
Init == /\ lists \in [{"a", "b"} -> {New(t) : t \in Types}]
        /\ hist = <<[op |-> "new", n |-> "a", t |-> lists["a"].t], [op |-> "new", n |-> "b", t |-> lists["b"].t]>>
        /\ added = [n \in {"a", "b"} |-> {}]
Op(o, n, r) == /\ Len(hist) < MaxOps + 2 /\ hist' = Append(hist, o) /\ lists' = [lists EXCEPT ![n] = r.l]
Next == \/ \E n \in {"a", "b"}, s \in {48, 18} : lists[n].hs = -1 /\ Op([op |-> "header", n |-> n, size |-> s], n, SetHeader(lists[n], s)) /\ UNCHANGED added
        \/ \E n \in {"a", "b"}, v \in {1, 2}, o \in {1, 2} :
             LET e == E(v, o, lists[n].t) IN
             /\ lists[n].sz # 0 /\ Op([op |-> "add", n |-> n, e |-> e], n, Add(lists[n], e))
             /\ added' = IF Add(lists[n], e).ok THEN [added EXCEPT ![n] = @ \cup {e.d}] ELSE added
        \/ /\ Op([op |-> "merge", n |-> "a", m |-> "b"], "a", Merge(lists["a"], lists["b"]))
           /\ added' = IF Merge(lists["a"], lists["b"]).ok THEN [added EXCEPT !["a"] = @ \cup added["b"]] ELSE added
        \/ \E dd \in BOOLEAN : Len(lists["a"].data) > 1 /\ Op([op |-> "sort", n |-> "a", dedupe |-> dd], "a", Sort(lists["a"], dd)) /\ UNCHANGED added
Spec == Init /\ [][Next]_vars
View == <<lists, added, Len(hist)>>
\* declared sizes always agree with the contents
Sizes == \A n \in DOMAIN lists : LET l == lists[n] IN l.ls = Head28 + l.sz * Len(l.data) \/ (l.data = <<>> /\ l.ls = Head28)
Uniform == \A n \in DOMAIN lists : \A i \in 1..Len(lists[n].data) : EntrySize(lists[n].data[i]) = lists[n].sz
NothingLost == \A n \in DOMAIN lists : {lists[n].data[i].d : i \in 1..Len(lists[n].data)} = added[n]
RoundTrip == \A n \in DOMAIN lists : CanEncode(lists[n]) =>
   LET r == Dec(Enc(lists[n])) IN r.ok /\ r.n = lists[n].ls /\ r.l = [lists[n] EXCEPT !.has = TRUE]
Seq2 == <<lists["a"], lists["b"]>>
CanonFacts == (CanonOk(Seq2) /\ CanonDefined(Seq2)) =>
  LET c == Canon(Seq2)
      all == Cat([i \in 1..Len(c.canon) |-> c.canon[i].data])
      dup == Cat([i \in 1..Len(c.dupes) |-> c.dupes[i].data]) IN
  /\ Canon(c.canon) = [canon |-> c.canon, dupes |-> <<>>]
  /\ Len(all) + Len(dup) = Len(Seq2[1].data) + Len(Seq2[2].data)
  /\ {all[i].d : i \in 1..Len(all)} = {Seq2[1].data[i].d : i \in 1..Len(Seq2[1].data)} \cup {Seq2[2].data[i].d : i \in 1..Len(Seq2[2].data)}
  /\ \A i \in 1..Len(all) : \A j \in 1..Len(all) : i # j => all[i].d # all[j].d
  /\ {dup[i].d : i \in 1..Len(dup)} \subseteq {all[i].d : i \in 1..Len(all)}
  /\ DecDb(EncAll(c.canon)).ok /\ EncAll(DecDb(EncAll(c.canon)).ls) = EncAll(c.canon)
Emit == Len(hist) = MaxOps + 2 => PrintT("@@" \o ToJson(hist))
=============================================================================
