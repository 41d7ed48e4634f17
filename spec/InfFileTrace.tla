---------------------------- MODULE InfFileTrace ----------------------------
EXTENDS InfFile, Conform
US(ev) == [s |-> [kind |-> "nothing"], ok |-> TRUE, exp |-> "any"]
Set(q) == {q[i] : i \in 1..Len(q)}
Good(r, ok) == r = "any" \/ (r = "ok") = ok
Once(secs) == /\ \A i, j \in 1..Len(secs) : secs[i].h = secs[j].h => i = j
              /\ \A i \in 1..Len(secs) : \A j, k \in 1..Len(secs[i].lines) : secs[i].lines[j] = secs[i].lines[k] => j = k
Seen(secs) == {<<secs[i].h, Set(secs[i].lines)>> : i \in 1..Len(secs)}
Kept(F, but) == {x \in F : x[1] # but}
SameGuid(a, b) == Lower(a) = b
\* GUIDs may be written in either case; so may anything else that holds one be compared
LowAll(F) == {<<x[1], {Lower(l) : l \in x[2]}>> : x \in F}
Attr(s, o) == /\ o.name = s.name /\ o.provider = s.provider /\ o.mfg = (IF s.mfg = "-" THEN s.provider ELSE s.mfg) /\ Lower(o.guid) = s.guid /\ o.arch = s.arch /\ o.desc = s.desc /\ o.version = s.version
              /\ (s.hex # "" => o.hex = "0x" \o s.hex) /\ (s.date # "-" => o.date = s.date) /\ o.integ = (IF s.integ = "-" THEN "" ELSE s.integ)
Odd(s) == s.guid = "?" \/ s.hex = ""
UN(st, ev) ==
  CASE ev.k = "one" ->
         LET x == OneNew(ev) IN
         [s |-> IF ev.obs.ok THEN [kind |-> "one", o |-> x.s] ELSE st, exp |-> x, ok |-> Good(x.r, ev.obs.ok) /\ ((ev.obs.ok /\ x.r = "ok") => Attr(x.s, ev.obs))]
    [] ev.k = "set" /\ st.kind = "one" ->
         LET x == OneSet(st.o, ev.a, ev.v)  n == IF ev.obs.ok THEN x.s ELSE st.o IN
         [s |-> [kind |-> "one", o |-> n], exp |-> [r |-> x.r, o |-> n], ok |-> Good(x.r, ev.obs.ok) /\ (Odd(n) \/ Attr(n, ev.obs))]
    [] ev.k = "make" /\ st.kind = "one" ->
         LET F == OneFile(st.o, ev.base, ev.rollback) IN
         [s |-> st, exp |-> F, ok |-> Odd(st.o) \/ (ev.obs.ok /\ Once(ev.obs.secs) /\ LowAll(Seen(ev.obs.secs)) = LowAll(F) /\ \A x \in F : x[1] = "Strings" => x \in Seen(ev.obs.secs))]
    [] ev.k = "many" ->
         LET x == ManyNew(ev) IN [s |-> IF ev.obs.ok THEN [kind |-> "many", o |-> x.s] ELSE st, exp |-> x, ok |-> Good(x.r, ev.obs.ok)]
    [] ev.k \in {"fw", "str", "src"} /\ st.kind = "many" ->
         LET x == CASE ev.k = "fw" -> ManyFw(st.o, ev) [] ev.k = "str" -> ManyStr(st.o, ev.w, ev.key, ev.v) [] OTHER -> ManySrc(st.o, ev.file) IN
         [s |-> [kind |-> "many", o |-> IF ev.obs.ok THEN x.s ELSE x.no], exp |-> x.r, ok |-> Good(x.r, ev.obs.ok)]
    [] ev.k = "text" /\ st.kind = "many" ->
         LET F == ManyFile(st.o)  S == Seen(ev.obs.secs)  must == FwFiles(st.o) \cup st.o.files  odd == \E i \in 1..Len(st.o.fws) : Odd(st.o.fws[i]) IN
         [s |-> st, exp |-> [file |-> F, source |-> must],
          ok |-> odd \/ (st.o.non = {}) \/
            /\ ev.obs.ok /\ Once(ev.obs.secs) /\ LowAll(Kept(S, "SourceDisksFiles")) = LowAll(F)
            /\ \A x \in F : x[1] = "Strings" => x \in S
            /\ HasSection(S, "SourceDisksFiles") /\ Source(must) \subseteq Body(S, "SourceDisksFiles") /\ Body(S, "SourceDisksFiles") \subseteq Source(must \cup st.o.stray)]
    [] ev.k = "cat" ->
         LET r == CatArch(ev.arch) # "" /\ CatOs(ev.os) # ""  n == [arch |-> CatArch(ev.arch), os |-> CatOs(ev.os)] IN
         [s |-> IF r THEN [kind |-> "cat", o |-> n] ELSE st, exp |-> n, ok |-> ev.obs.ok = r /\ (r => ev.obs.arch = n.arch /\ ev.obs.os = n.os)]
    [] ev.k = "catset" /\ st.kind = "cat" ->
         LET x == CatSet(st.o, ev.a, ev.v)  n == IF x.r = "ok" THEN x.s ELSE st.o IN
         [s |-> [kind |-> "cat", o |-> n], exp |-> n, ok |-> Good(x.r, ev.obs.ok) /\ ev.obs.arch = n.arch /\ ev.obs.os = n.os]
    [] ev.k = "makecat" /\ st.kind = "cat" ->
         LET good == ev.tool /\ ev.code = 0 /\ ev.makes IN
         [s |-> st, exp |-> [ok |-> good, args |-> CatArgs(st.o)],
          ok |-> /\ ev.obs.ok = good /\ (ev.obs.ok => ev.obs.ret = 0)
                 /\ Len(ev.obs.calls) = (IF ev.tool THEN 1 ELSE 0)
                 /\ \A i \in 1..Len(ev.obs.calls) : ev.obs.calls[i].args = CatArgs(st.o) /\ ev.obs.calls[i].here]
    [] OTHER -> [s |-> st, ok |-> st.kind = "nothing", exp |-> "no step"]
=============================================================================
