---------------------------- MODULE AuthVarTrace ----------------------------
EXTENDS AuthVar, Conform
US(ev) == [s |-> [name |-> <<>>, guid |-> <<>>, attrs |-> 0, time |-> <<>>, payload |-> <<>>, cert |-> <<>>, hash |-> <<>>, has |-> FALSE, var |-> <<>>], ok |-> TRUE, exp |-> "any"]
Is(st, e, ev) == [s |-> st, exp |-> e, ok |-> ev.obs = e]
Refused == [ok |-> FALSE]
UN(st, ev) ==
  CASE ev.k = "time" -> Is(st, [b |-> EncTime(ev.t)], ev)
    [] ev.k = "timedecode" -> Is(st, IF TimeOk(ev.b) THEN [ok |-> TRUE, t |-> TimeAt(ev.b)] ELSE Refused, ev)
    [] ev.k = "guidcert" -> \* certificate data set again and again
         LET s == [st EXCEPT !.cert = ev.d] IN Is(s, [len |-> 24 + Len(ev.d), b |-> EncGuidCert(ev.d), data |-> ev.d], ev)
    [] ev.k = "guiddecode" ->
         IF GuidCertOk(ev.b) THEN LET c == GuidCert(ev.b) IN
              Is(st, [ok |-> TRUE, len |-> c.len, data |-> c.data, rest |-> IF ev.how = "bytes" THEN c.rest ELSE <<>>, pos |-> IF ev.how = "bytes" THEN 0 ELSE c.len, b |-> CertBytes(ev.b)], ev)
         ELSE Is(st, Refused, ev)
    [] ev.k = "pkcs1new" -> Is([st EXCEPT !.hash = <<>>, !.has = FALSE, !.cert = <<>>], [ok |-> TRUE], ev)
    [] ev.k = "pkcs1hash" -> Is([st EXCEPT !.hash = ev.h], [ok |-> TRUE], ev)
    [] ev.k = "pkcs1add" ->
         IF st.has \/ st.hash = <<>> THEN Is(st, Refused, ev)
         ELSE Is([st EXCEPT !.has = TRUE, !.cert = ev.d], [ok |-> TRUE, b |-> EncPkcs1(st.hash, ev.d)], ev)
    [] ev.k = "pkcs1decode" ->
         IF Pkcs1Ok(ev.b) THEN LET c == Pkcs1(ev.b) IN Is(st, [ok |-> TRUE, len |-> c.len, data |-> c.data, pos |-> c.len, hash |-> At(ev.b, 9, 16), b |-> CertBytes(ev.b)], ev)
         ELSE Is(st, Refused, ev)
    [] ev.k = "factory" ->
         LET k == CertKind(ev.b) IN
         Is(st, IF k = "refused" THEN Refused ELSE IF k = "none" THEN [ok |-> TRUE, kind |-> "none", data |-> <<>>] ELSE [ok |-> TRUE, kind |-> k, data |-> Cert(ev.b).data], ev)
    [] ev.k = "vardecode" ->
         LET k == VarKind(ev.b) IN
         IF k = "none" THEN [s |-> st, exp |-> "any", ok |-> TRUE]
         ELSE IF k = "refused" THEN Is(st, Refused, ev)
         ELSE LET v == Var(ev.b) e == [ok |-> TRUE, time |-> v.time, cert |-> v.cert, payload |-> v.payload, lists |-> v.lists, size |-> Len(v.payload),
                                       b |-> EncVar(v.time, CertBytes(From(ev.b, 17)), v.payload)] IN
              [s |-> [st EXCEPT !.var = (IF "b" \in DOMAIN ev.obs THEN At(ev.obs.b, 1, 16) ELSE <<>>) \o CertBytes(From(ev.b, 17))], exp |-> e, ok |-> ev.obs = e \/ (~TimePlain(ev.b) /\ [ev.obs EXCEPT !.b = At(@, 1, 7) \o At(e.b, 8, 9) \o From(@, 17)] = e)]
    [] ev.k = "setpayload" -> \* another payload for the variable just decoded
         Is(st, [payload |-> ev.d, lists |-> IF ev.d # <<>> /\ DecDb(ev.d).ok THEN Len(DecDb(ev.d).ls) ELSE -1, size |-> Len(ev.d), b |-> st.var \o ev.d], ev)
    [] ev.k = "builder" ->
         LET s == [st EXCEPT !.name = ev.name, !.guid = ev.guid, !.attrs = ev.attrs, !.time = ev.time, !.payload = ev.payload] IN
         Is(s, [digest |-> Digest(ev.name, ev.guid, ev.attrs, ev.time, ev.payload)], ev)
    [] ev.k = "payload" ->
         \* nothing, or no bytes at all, leaves the payload as it was; an empty stream empties it
         LET p == IF ev.how # "stream" /\ ev.d = <<>> THEN st.payload ELSE ev.d IN
         Is([st EXCEPT !.payload = p], [digest |-> Digest(st.name, st.guid, st.attrs, st.time, p), payload |-> p,
             lists |-> IF p # <<>> /\ DecDb(p).ok THEN Len(DecDb(p).ls) ELSE -1], ev)
    [] ev.k = "finalize" ->
         \* the signature, valid for exactly the digest, is the certificate data of the variable
         LET e == [digest |-> Digest(st.name, st.guid, st.attrs, st.time, st.payload), valid |-> TRUE, info |-> ~ev.omit, certs |-> ev.certs,
                   b |-> EncVar(st.time, EncGuidCert(ev.sig), st.payload), same |-> TRUE] IN Is(st, e, ev)
    [] ev.k = "attrs" ->
         IF ev.how = "str" /\ ~AttrParseOk(ev.names) THEN Is(st, Refused, ev)
         ELSE LET v == IF ev.how = "str" THEN AttrParse(ev.names) ELSE ev.v IN
              Is(st, [ok |-> TRUE, v |-> v, b |-> LEn(v, 4), short |-> AttrShown(v, AttrNames), long |-> AttrShown(v, AttrLong)], ev)
    [] OTHER -> [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
