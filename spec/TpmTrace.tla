------------------------------ MODULE TpmTrace -----------------------------
EXTENDS Tpm, Conform
US(ev) == [s |-> [tag |-> <<0, 0>>, code |-> <<0, 0, 0, 0>>, els |-> <<>>], ok |-> TRUE, exp |-> "any"]
Is(st, e, ev) == [s |-> st, exp |-> e, ok |-> ev.obs = e]
Size(st) == 10 + Len(ElsBytes(st.els))
UN(st, ev) ==
  CASE ev.k = "policy" ->
         LET e == IF ~Built(ev.c) THEN [built |-> FALSE]
                  ELSE IF IsPrim(ev.c) THEN [built |-> TRUE, b |-> PrimBytes(ev.c)]
                  ELSE IF ~Valid(ev.c) THEN [built |-> TRUE, valid |-> FALSE]
                  ELSE [built |-> TRUE, valid |-> TRUE, d |-> Digest(ev.h, ev.n, ev.c), twice |-> TRUE] IN Is(st, e, ev)
    [] ev.k = "new" -> Is([tag |-> ev.tag, code |-> ev.code, els |-> <<>>], [b |-> CommandBytes([tag |-> ev.tag, code |-> ev.code, els |-> <<>>]), n |-> 10], ev)
    [] ev.k = "add" ->
         LET s == [st EXCEPT !.els = Append(@, ev.e)] IN
         IF Fits(ev.e) THEN Is(s, [ok |-> TRUE, n |-> Size(s)], ev) ELSE Is(st, [ok |-> FALSE], ev)
    [] ev.k = "data" ->  \* the content of an element changes later
         LET s == [st EXCEPT !.els[ev.i] = [k |-> "2b", d |-> ev.d]] IN Is(s, [n |-> Size(s)], ev)
    [] ev.k = "stream" -> Is(st, [b |-> CommandBytes(st)], ev)
    [] ev.k = "code" -> Is(st, [code |-> IF Known(ev.name) THEN Code(ev.name) ELSE -1], ev)
    [] ev.k = "string" -> Is(st, [name |-> NameOf(Commands, ev.n)], ev)
    [] ev.k = "response" -> Is(st, [r |-> Response(ev.n), s |-> Simple(ev.n)], ev)
    [] ev.k = "hello" -> Is(st, [plat |-> Hello, tpm |-> <<>>], ev)
    [] ev.k = "send" ->
         LET a == Answer(ev.reply) IN Is(st, [sent |-> Request(ev.d), r |-> IF a.ok THEN [ok |-> TRUE, d |-> a.d] ELSE [ok |-> FALSE]], ev)
    [] ev.k = "startup" ->
         LET a == Answer(ev.reply) IN Is(st, [sent |-> Request(Startup(ev.type)), r |-> IF a.ok THEN [ok |-> TRUE, d |-> a.d] ELSE [ok |-> FALSE]], ev)
    [] OTHER -> [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
