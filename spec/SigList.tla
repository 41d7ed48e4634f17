------------------------------ MODULE SigList ------------------------------
(***************************************************************************)
(* EFI signature lists and signature databases: building, merging,         *)
(* sorting, the canonical form, and the byte layout.                       *)
(* A list: [t type, ls declared total size, hs header size (-1: not set),  *)
(*          sz size of an entry (raw: its bytes if huge), has entries array exists, data entries].  *)
(* An entry: [o owner, d data].                                            *)
(***************************************************************************)
EXTENDS Bytes, TLC
Head28 == 28
TypeGuid == [sha256 |-> <<38, 22, 196, 193, 76, 80, 146, 64, 172, 169, 65, 249, 54, 147, 67, 40>>,
             x509 |-> <<161, 89, 192, 165, 228, 148, 167, 74, 135, 181, 171, 21, 92, 43, 240, 114>>,
             other |-> <<146, 164, 210, 59, 192, 150, 121, 64, 180, 32, 252, 249, 142, 241, 3, 237>>]
TypeOf(g) == IF \E t \in DOMAIN TypeGuid : TypeGuid[t] = g THEN CHOOSE t \in DOMAIN TypeGuid : TypeGuid[t] = g ELSE "unknown"
New(t) == [t |-> t, ls |-> Head28, hs |-> -1, sz |-> 0, raw |-> <<>>, has |-> FALSE, data |-> <<>>]
EntrySize(e) == 16 + Len(e.d)

\* every operation yields [l list, ok whether it is accepted]
Yes(l) == [l |-> l, ok |-> TRUE]
No(l) == [l |-> l, ok |-> FALSE]
SetHeader(l, size) == IF l.hs # -1 \/ l.sz # 0 \/ l.has THEN No(l) ELSE Yes([l EXCEPT !.hs = 0, !.sz = size])
Add(l, e) == IF l.sz = 0 \/ l.sz # EntrySize(e) THEN No(l)
             ELSE Yes([l EXCEPT !.has = TRUE, !.data = Append(@, e), !.ls = @ + l.sz])
Merge(l, m) == IF l.t # m.t \/ l.hs > 0 \/ m.hs > 0 THEN No(l)
               ELSE LET k == [l EXCEPT !.hs = 0] IN
                    IF m.ls = Head28 THEN Yes(k)
                    ELSE IF m.t # "sha256" THEN No(l)
                    ELSE Yes([k EXCEPT !.has = TRUE, !.data = @ \o m.data, !.ls = @ + m.ls - Head28, !.sz = IF l.data = <<>> THEN m.sz ELSE @, !.raw = IF l.data = <<>> THEN m.raw ELSE @])

\* stable insertion sort by data alone
RECURSIVE Insert(_, _)
Insert(s, e) == IF s = <<>> \/ ~LessB(e.d, s[Len(s)].d) THEN Append(s, e)
                ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), e), s[Len(s)])
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
\* positions of a sorted sequence that repeat the data before them
Repeats(s) == {i \in 2..Len(s) : s[i].d = s[i - 1].d}
Pick(s, keep) == LET RECURSIVE go(_)
                     go(i) == IF i > Len(s) THEN <<>> ELSE (IF i \in keep THEN <<s[i]>> ELSE <<>>) \o go(i + 1)
                 IN go(1)
\* [l sorted list, dup entries removed from it]
Sort(l, dedupe) ==
  LET s == Sorted(l.data)
      r == IF dedupe THEN Repeats(s) ELSE {} IN
  [l |-> [l EXCEPT !.data = Pick(s, (1..Len(s)) \ r), !.ls = @ - l.sz * Cardinality(r)], dup |-> Pick(s, r)]
DupList(l, dup) == [t |-> l.t, ls |-> Head28 + l.sz * Len(dup), hs |-> l.hs, sz |-> IF dup = <<>> THEN 0 ELSE l.sz, raw |-> <<>>, has |-> TRUE, data |-> dup]

CanEncode(l) == l.hs # -1
Enc(l) == TypeGuid[l.t] \o LEn(l.ls, 4) \o LEn(l.hs, 4) \o (IF l.sz = Huge THEN l.raw ELSE LEn(l.sz, 4)) \o Cat([i \in 1..Len(l.data) |-> l.data[i].o \o l.data[i].d])
EncAll(ls) == Cat([i \in 1..Len(ls) |-> Enc(ls[i])])

\* reading a list from the start of b: [ok, l, n bytes used]
Bad == [ok |-> FALSE, l |-> New("other"), n |-> 0]
Dec(b) ==
  IF Len(b) < Head28 THEN Bad
  ELSE LET t == TypeOf(At(b, 1, 16)) ls == RdLE(b, 17, 4) hs == RdLE(b, 21, 4) sz == RdLE(b, 25, 4) IN
       IF ls > Len(b) \/ ls < Head28 \/ hs # 0 THEN Bad
       ELSE LET rem == ls - Head28 IN
            IF rem = 0 THEN [ok |-> TRUE, l |-> [t |-> t, ls |-> ls, hs |-> 0, sz |-> sz, raw |-> IF sz = Huge THEN At(b, 25, 4) ELSE <<>>, has |-> TRUE, data |-> <<>>], n |-> ls]
            ELSE IF sz = 0 \/ t \notin {"sha256", "x509"} THEN Bad
            ELSE IF rem % sz # 0 \/ (t = "sha256" /\ sz # 48) \/ sz < 16 THEN Bad
            ELSE [ok |-> TRUE, n |-> ls,
                  l |-> [t |-> t, ls |-> ls, hs |-> 0, sz |-> sz, raw |-> <<>>, has |-> TRUE,
                         data |-> [i \in 1..(rem \div sz) |-> [o |-> At(b, Head28 + 1 + (i - 1) * sz, 16), d |-> At(b, Head28 + 17 + (i - 1) * sz, sz - 16)]]]]
\* a database is the concatenation of lists
RECURSIVE DecDb(_)
DecDb(b) == IF b = <<>> THEN [ok |-> TRUE, ls |-> <<>>]
            ELSE LET r == Dec(b) IN
                 IF ~r.ok THEN [ok |-> FALSE, ls |-> <<>>]
                 ELSE LET q == DecDb(From(b, r.n + 1)) IN IF ~q.ok THEN q ELSE [ok |-> TRUE, ls |-> <<r.l>> \o q.ls]

\* canonical form: one sorted SHA256 list without repetitions, then the certificates in order without repetitions
NonEmpty(ls) == LET RECURSIVE go(_)
                    go(i) == IF i > Len(ls) THEN <<>> ELSE (IF ls[i].data # <<>> THEN <<ls[i]>> ELSE <<>>) \o go(i + 1)
                IN go(1)
OfType(ls, t) == LET RECURSIVE go(_)
                     go(i) == IF i > Len(ls) THEN <<>> ELSE (IF ls[i].t = t THEN <<ls[i]>> ELSE <<>>) \o go(i + 1)
                 IN go(1)
CanonDefined(ls) == \A i \in 1..Len(ls) : ls[i].t = "x509" => Len(ls[i].data) <= 1
CanonOk(ls) == \A i \in 1..Len(ls) : ls[i].data # <<>> => ls[i].t \in {"sha256", "x509"}
Canon(ls) ==
  LET live == NonEmpty(ls)
      sha == OfType(live, "sha256")
      x == OfType(live, "x509")
      all == Cat([i \in 1..Len(sha) |-> sha[i].data])
      s == Sort([t |-> "sha256", ls |-> Head28 + 48 * Len(all), hs |-> 0, sz |-> 48, raw |-> <<>>, has |-> TRUE, data |-> all], TRUE)
      xs == Sorted([i \in 1..Len(x) |-> [d |-> x[i].data[1].d, l |-> x[i]]])
      rep == Repeats(xs)
      lists(k) == LET p == Pick(xs, k) IN [i \in 1..Len(p) |-> p[i].l]
  IN [canon |-> (IF sha = <<>> THEN <<>> ELSE <<s.l>>) \o lists((1..Len(xs)) \ rep),
      dupes |-> (IF s.dup = <<>> THEN <<>> ELSE <<DupList(s.l, s.dup)>>) \o lists(rep)]
=============================================================================
