------------------------------- MODULE LogMC -------------------------------
(* Handlers under every short history of records and reads; reports under every short history; threads that log at once. *)
EXTENDS Log, Json
CONSTANTS MaxOps, MaxRep, Threads, Msgs
VARIABLES kind, ops, hs, rep, th
vars == <<kind, ops, hs, rep, th>>
H(k, l, d, f, s) == [kind |-> k, level |-> l, deny |-> d, fmt |-> f, strip |-> s, text |-> <<>>, pos |-> 0, def |-> 7, paint |-> FALSE, cells |-> <<>>, at |-> Fresh(7)]
W(l, d, f, def) == [H("win", l, d, f, TRUE) EXCEPT !.def = def, !.paint = TRUE, !.at = Fresh(def)]
Sets == {<<H("string", 30, "", "plain", FALSE), H("color", 0, "b", "color", FALSE)>>, <<H("color", 20, "a", "color", TRUE), H("file", 0, "", "azure", FALSE)>>,
         <<H("string", 0, "", "color", FALSE), H("color", 10, "", "azure", TRUE), H("file", 40, "b", "plain", FALSE)>>,
         <<W(0, "", "color", 7), H("color", 0, "", "color", FALSE)>>, <<W(20, "b", "color", 143)>>, <<W(0, "", "azure", 121)>>}
Recs == {[name |-> n, level |-> l, logger |-> g, msg |-> m, bad |-> FALSE] : <<n, l>> \in {<<"DEBUG", 10>>, <<"ERROR", 40>>, <<"NOTE", 25>>}, g \in {"a", "b"}, m \in {<<104, 105>>, <<27, 91, 51, 49, 109, 120, 10, 121>>}}
Texts == {<<97>>, <<32, 60, 97, 62, 38, 34, 10, 39, 32>>, <<>>}
NoTh == [pc |-> <<>>, lock |-> 0, out |-> <<>>]
Init == /\ ops = <<>> /\ rep = <<>>
        /\ \/ kind = "log" /\ hs \in Sets /\ th = NoTh
           \/ kind = "report" /\ hs = <<>> /\ th = NoTh
           \/ kind = "threads" /\ hs = <<>> /\ th = [pc |-> [t \in 1..Threads |-> [i |-> 1, at |-> "idle"]], lock |-> 0, out |-> <<>>]
Do(o) == ops' = Append(ops, o)
Log1 == /\ kind = "log" /\ Len(ops) < MaxOps /\ UNCHANGED <<kind, rep, th>>
        /\ \/ \E r \in Recs : Do([op |-> "log", r |-> r]) /\ hs' = EmitAll(hs, r)
           \/ \E i \in 1..Len(hs) : hs[i].kind = "string" /\ hs[i].text # <<>> /\
                \/ Do([op |-> "start", h |-> i]) /\ hs' = [hs EXCEPT ![i].pos = 0]
                \/ Do([op |-> "end", h |-> i]) /\ hs' = [hs EXCEPT ![i].pos = Len(hs[i].text)]
                \/ \E n \in {-1, 1} : Do([op |-> "read", h |-> i, hint |-> n]) /\ hs' = [hs EXCEPT ![i].pos = LinesFrom(hs[i].text, hs[i].pos, n, 0).p]
Rep1 == /\ kind = "report" /\ Len(ops) < MaxRep /\ UNCHANGED <<kind, hs, th>>
        /\ \/ Len(rep) < 2 /\ \E n \in Texts : Do([op |-> "suite", name |-> n, pkg |-> <<112>>]) /\ rep' = Append(rep, [name |-> Strip(n), pkg |-> <<112>>, cases |-> <<>>])
           \/ \E i \in 1..Len(rep) :
                \/ Len(rep[i].cases) < 2 /\ Do([op |-> "case", s |-> i, name |-> <<110>>, cls |-> <<99>>]) /\ rep' = [rep EXCEPT ![i].cases = Append(@, NewCase(<<110>>, <<99>>))]
                \/ \E j \in 1..Len(rep[i].cases) :
                     \/ \E st \in {"failed", "error", "skipped", "success"} : LET r == Set(rep[i].cases[j], st, <<109>>, <<116>>) IN
                          Do([op |-> "set", s |-> i, c |-> j, st |-> st, msg |-> <<109>>, type |-> <<116>>]) /\ rep' = [rep EXCEPT ![i].cases[j] = r.c]
                     \/ \E w \in {"out", "err"} : \E t \in Texts : Do([op |-> w, s |-> i, c |-> j, msg |-> t])
                          /\ rep' = [rep EXCEPT ![i].cases[j] = IF w = "out" THEN [@ EXCEPT !.out = @ \o Logged(t)] ELSE [@ EXCEPT !.err = @ \o Logged(t)]]
\* a thread takes the lock, writes the line in two parts and releases it
Thr1 == /\ kind = "threads" /\ UNCHANGED <<kind, ops, hs, rep>>
        /\ \E t \in 1..Threads : LET p == th.pc[t] IN
             \/ p.at = "idle" /\ p.i <= Msgs /\ th.lock = 0 /\ th' = [th EXCEPT !.lock = t, !.pc[t].at = "text"]
             \/ p.at = "text" /\ th' = [th EXCEPT !.out = Append(@, <<"text", t, p.i>>), !.pc[t].at = "nl"]
             \/ p.at = "nl" /\ th' = [th EXCEPT !.out = Append(@, <<"nl", t, p.i>>), !.pc[t] = [i |-> p.i + 1, at |-> "idle"], !.lock = 0]
Next == Log1 \/ Rep1 \/ Thr1
Spec == Init /\ [][Next]_vars
\* stripping leaves no control sequence and is stable
Clear == \A i \in 1..Len(hs) : hs[i].strip => Stripped(hs[i].text) = hs[i].text
\* what is not stripped holds what is, plus control sequences
Same == kind = "log" => \A i, j \in 1..Len(hs) : (hs[i].strip /\ ~hs[j].strip /\ hs[i].level = hs[j].level /\ hs[i].deny = hs[j].deny /\ hs[i].fmt = hs[j].fmt) => hs[i].text = Stripped(hs[j].text)
\* without seeking, every record that passes is one more whole message
Kept == (kind = "log" /\ \A k \in 1..Len(ops) : ops[k].op = "log") =>
  \A i \in 1..Len(hs) : LET P == SelectSeq(ops, LAMBDA o : Passes(hs[i], o.r) /\ o.r.level >= hs[i].level)
                            T[n \in 0..Len(P)] == IF n = 0 THEN <<>> ELSE T[n - 1] \o (LET t == Format(P[n].r, hs[i].fmt) \o Nl IN IF hs[i].strip THEN Stripped(t) ELSE t) IN hs[i].text = T[Len(P)]
\* every character on the console has its attribute, a console bright from the beginning stays so, and only codes of the messages stay selected
Shown == \A i \in 1..Len(hs) : hs[i].kind = "win" =>
  /\ Len(hs[i].cells) = Len(hs[i].text)
  /\ \A k \in 1..Len(hs[i].cells) : hs[i].cells[k] \in 0..255 /\ Bit(hs[i].cells[k], 8) >= Bit(hs[i].def, 8) /\ Bit(hs[i].cells[k], 128) >= Bit(hs[i].def, 128)
Range(q) == {q[k] : k \in 1..Len(q)}
Settled == (kind = "log" /\ \A k \in 1..Len(ops) : ops[k].op = "log" /\ (27 \in Range(ops[k].r.msg) => ops[k].r.level >= 30)) =>
  \A i \in 1..Len(hs) : (hs[i].kind = "win" /\ hs[i].fmt = "color") => hs[i].at = Fresh(hs[i].def)
Counts == kind = "report" => \A i \in 1..Len(rep) : LET x == SuiteXml(rep[i], i) IN x.tests = x.errors + x.failures + x.skipped + Count(rep[i], "success") + Count(rep[i], "new")
Once == [][\A i \in 1..Len(rep) : \A j \in 1..Len(rep[i].cases) : rep[i].cases[j].st # "new" => rep'[i].cases[j].st = rep[i].cases[j].st]_vars
Whole == kind = "threads" => \A k \in 1..Len(th.out) : th.out[k][1] = "nl" => (k > 1 /\ th.out[k - 1] = <<"text", th.out[k][2], th.out[k][3]>>)
Merged == (kind = "threads" /\ \A t \in 1..Threads : th.pc[t].i > Msgs) =>
  LET q == SelectSeq(th.out, LAMBDA x : x[1] = "nl") IN IsMerge([k \in 1..Len(q) |-> [t |-> q[k][2], i |-> q[k][3]]], [t \in 1..Threads |-> Msgs])
Emit == ((kind = "log" /\ Len(ops) = MaxOps) \/ (kind = "report" /\ Len(ops) = MaxRep)) => PrintT("@@" \o ToJson([kind |-> kind, ops |-> ops, hs |-> [i \in 1..Len(hs) |-> [hs[i] EXCEPT !.text = <<>>, !.pos = 0, !.cells = <<>>]]]))
=============================================================================
