--------------------------- MODULE FirmwareTrace ---------------------------
EXTENDS Firmware, Conform
\* the objects of a history: o one of each kind that holds something, "none" otherwise
US(ev) == [s |-> [o |-> [none |-> TRUE]], ok |-> TRUE, exp |-> "any"]
Is(s, e, ev) == [s |-> [o |-> s], exp |-> e, ok |-> ev.obs = e]
Free(st) == [s |-> st, exp |-> "any", ok |-> TRUE]
Lost == [none |-> TRUE]
Known(st) == ~Has(st.o, "none")
PlainObs(t, fs) == [ok |-> TRUE, fs |-> fs, x |-> Extra(t, fs), pos |-> TRUE, ser |-> IF t = "fvext" THEN <<>> ELSE Cat(fs)]
VarObs(v) == [r |-> "ok", fs |-> v.fs, name |-> v.name, data |-> v.data, pos |-> TRUE]
BmpObs(v) == [fs |-> v.fs, colors |-> v.colors, pad |-> v.pad, data |-> v.data]
UN(st, ev) ==
  CASE ev.k = "load" ->
         LET r == Load(ev.t, From(ev.b, ev.off + 1)) IN
         IF r.ok THEN Is([fs |-> r.fs], PlainObs(ev.t, r.fs), ev) ELSE Is(Lost, [ok |-> FALSE], ev)
    [] ev.k = "set" ->
         IF ~Known(st) THEN Free(st)
         ELSE LET fs == [st.o.fs EXCEPT ![Index(ev.t, ev.f)] = ev.v] IN Is([st.o EXCEPT !.fs = fs], [ser |-> IF ev.t = "fvext" THEN <<>> ELSE Cat(fs)], ev)
    [] ev.k = "newvar" -> LET v == NewVar(ev.t, ev.g) IN Is(v, [fs |-> v.fs], ev)
    [] ev.k = "loadvar" ->
         LET r == LoadVar(ev.t, From(ev.b, ev.off + 1)) IN
         CASE r.r = "ok" -> Is(r.v, VarObs(r.v), ev)
           [] r.r = "eof" -> Is(Lost, [r |-> "eof", pos |-> TRUE], ev)
           [] r.r = "refused" -> Is(Lost, [r |-> "refused"], ev)
           [] OTHER -> Free([o |-> Lost])
    [] ev.k = "setvar" -> IF ~Known(st) THEN Free(st) ELSE Is([st.o EXCEPT !.fs[Index(ev.t, ev.f)] = ev.v], [done |-> TRUE], ev)
    [] ev.k = "name" -> IF ~Known(st) THEN Free(st) ELSE Is(SetName(st.o, ev.us), [done |-> TRUE], ev)
    [] ev.k = "data" -> IF ~Known(st) THEN Free(st) ELSE Is(SetData(st.o, ev.d), [done |-> TRUE], ev)
    [] ev.k = "var" ->
         IF ~Known(st) \/ ~st.o.named \/ ~st.o.full THEN Free(st)
         ELSE LET v == st.o IN
              Is(v, [size |-> VarSize(v), pad |-> VarPad(v), total |-> VarSize(v) + VarPad(v), packed |-> UnitBytes(v.name) \o <<0, 0>>, ser |-> VarBytes(v), padded |-> VarPadded(v)], ev)
    [] ev.k = "newbmp" -> Is(NewBmp, BmpObs(NewBmp), ev)
    [] ev.k = "loadbmp" ->
         LET r == Bmp(From(ev.b, ev.off + 1)) IN
         IF r.sure THEN (IF r.ok THEN Is(r.v, [ok |-> TRUE, v |-> BmpObs(r.v), w |-> BmpBytes(r.v)], ev) ELSE Is(Lost, [ok |-> FALSE], ev))
         \* longer headers: whether they are read is not decided, but what is read is written again
         ELSE [s |-> [o |-> Lost], exp |-> [ok |-> "any", w |-> From(ev.b, ev.off + 1)], ok |-> ~ev.obs.ok \/ ev.obs.w = From(ev.b, ev.off + 1)]
    [] ev.k = "setbmp" -> IF ~Known(st) THEN Free(st) ELSE LET v == [st.o EXCEPT !.fs[Index("bmp", ev.f)] = ev.v] IN Is(v, [w |-> BmpBytes(v)], ev)
    [] ev.k = "print" -> IF ~Known(st) THEN Free(st) ELSE Is(st.o, [colors |-> Len(st.o.colors), w |-> BmpBytes(st.o)], ev)
    [] ev.k = "attrs" ->
         IF ev.s = "" THEN Free(st)
         ELSE IF ~AttrOk(ev.s) THEN Is(st.o, [ok |-> FALSE], ev)
         ELSE LET n == AttrValue(ev.s) IN Is(st.o, [ok |-> TRUE, n |-> <<n, 0, 0, 0>>, short |-> AttrText(n, 2), long |-> AttrText(n, 3)], ev)
    [] ev.k = "attrn" -> Is(st.o, [n |-> ev.n, short |-> AttrText(ev.n[1], 2), long |-> AttrText(ev.n[1], 3), at |-> 4], ev)
    [] ev.k = "status" -> Is(st.o, [s |-> Status(ev.b), hex |-> Status(ev.b)], ev)
    [] OTHER -> [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
