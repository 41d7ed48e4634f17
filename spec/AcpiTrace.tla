----------------------------- MODULE AcpiTrace -----------------------------
EXTENDS Acpi, Conform
\* d: the table holds what is not decided (a structure with an entry the documents do not define)
None == [h |-> <<>>, subs |-> <<>>, d |-> FALSE]
US(ev) == [s |-> None, ok |-> TRUE, exp |-> "any"]
SameXml(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i].t = y[i].t /\ Len(x[i].a) = Len(y[i].a) /\ {x[i].a[j] : j \in 1..Len(x[i].a)} = {y[i].a[j] : j \in 1..Len(y[i].a)}
Result(st, e, x, ev) ==
  [s |-> st, exp |-> e @@ [xml |-> x],
   ok |-> /\ DOMAIN ev.obs = DOMAIN e \cup {"xml"}
          /\ \A k \in DOMAIN e : ev.obs[k] = e[k]
          /\ SameXml(x, ev.obs.xml)]
Is(st, e, ev) == [s |-> st, exp |-> e, ok |-> ev.obs = e]
\* a written IVRS table: the bytes, and the reports if its texts are plain
Shown(t, ev) ==
  LET e == [ok |-> TRUE, b |-> Table(t), bit |-> (t.h[37] \div 2) % 2 = 1, n |-> Len(t.subs)] IN
  IF ev.full THEN IF PlainTable(t) THEN Result(t, e @@ [dump |-> Dump(t)], Xml(t), ev) ELSE [s |-> t, ok |-> FALSE, exp |-> "no reports"] ELSE Is(t, e, ev)
Refused(st, r, ev) == IF "odd" \in DOMAIN r /\ r.odd THEN [s |-> st, ok |-> TRUE, exp |-> "any"] ELSE Is(st, [ok |-> FALSE], ev)
UN(st, ev) ==
  CASE ev.k = "read" ->
         LET r == Read(ev.b) IN IF r.ok THEN Shown(r.t @@ None, ev) ELSE IF "odd" \in DOMAIN r /\ r.odd THEN [s |-> [None EXCEPT !.d = TRUE], ok |-> TRUE, exp |-> "any"] ELSE Is(None, [ok |-> FALSE], ev)
    [] ev.k = "new" -> Is([None EXCEPT !.h = ev.h], [ok |-> TRUE, b |-> ev.h], ev)
    [] ev.k = "sub" ->   \* a structure is read, entries are added to it, and it is added to the table
         LET r == Sub(ev.b) IN
         IF st.d THEN [s |-> st, ok |-> TRUE, exp |-> "any"]
         ELSE IF ~r.ok THEN Refused(st, r, ev)
         ELSE LET es == EntriesFrom(ev.e, <<>>) IN
              IF ~es.ok THEN [s |-> st, ok |-> TRUE, exp |-> "any"]
              ELSE Shown([st EXCEPT !.subs = Append(@, [r.s EXCEPT !.d = @ \o es.d])], ev)
    [] ev.k = "dmar" ->
         LET r == DRead(ev.b) IN
         IF ~r.ok THEN Is(None, [ok |-> FALSE], ev)
         ELSE LET e == [ok |-> TRUE, bit |-> (r.t.h[38] \div 4) % 2 = 1, andd |-> Andds(r.t), paths |-> RPaths(r.t), rmrr |-> Expected(r.t, ev.golden)] IN
              IF ev.full THEN IF PlainD(r.t) THEN Result(None, e @@ [dump |-> DDump(r.t)], DXml(r.t), ev) ELSE [s |-> st, ok |-> FALSE, exp |-> "no reports"] ELSE Is(None, e, ev)
    [] OTHER -> [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
