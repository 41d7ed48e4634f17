------------------------------- MODULE EdkDbMC -------------------------------
(* Histories of edits, registrations, parses and reopenings of one workspace. *)
EXTENDS EdkDb, Json
CONSTANT MaxOps
VARIABLES ws, db, tabs, n, hist, before
vars == <<ws, db, tabs, n, hist, before>>
A == [path |-> <<"P", "A.inf">>, name |-> "A", guid |-> TRUE, cls |-> None, mt |-> "PEIM", libs |-> <<"L">>, srcs |-> <<<<"P", "a.c">>, <<"P", "s.c">>>>]
B == [path |-> <<"P", "B.inf">>, name |-> "B", guid |-> TRUE, cls |-> "BL", mt |-> "BASE", libs |-> <<"L", "M">>, srcs |-> <<<<"P", "s.c">>>>]
S(l) == [path |-> <<"P", "s.c">>, known |-> TRUE, lines |-> l]
Init == ws = [EmptyWs EXCEPT !.comps = <<A.path>>, !.fv = <<A.path>>] /\ db = EmptyDb /\ tabs = <<>> /\ n = 0 /\ hist = <<>> /\ before = EmptyDb
Op(o) == hist' = Append(hist, o) /\ Len(hist) < MaxOps
Idle == UNCHANGED <<db, tabs, n, before>>
Edit == \/ \E i \in {A, B} : i \notin ws.infs /\ ws' = AddInf(ws, i) /\ Op([op |-> "inf", i |-> i]) /\ Idle
        \/ \E l \in {<<"MIT", "code">>, <<"code">>} : S(l) \notin ws.srcs /\ ws' = PutSrc(ws, S(l)) /\ Op([op |-> "src", s |-> S(l)]) /\ Idle
Reg == \E t \in {"Inf", "Src", "Env", "Boom"} : Len(tabs) < 3 /\ (t \in {"Boom", "Env"} => t \notin Range(tabs))
         /\ tabs' = Append(tabs, t) /\ Op([op |-> "register", t |-> t]) /\ UNCHANGED <<ws, db, n, before>>
Parse == /\ tabs # <<>> /\ n < 3
         /\ LET r == RunTables(db, ws, tabs, n + 1, <<>>, {"X64"}) IN db' = r.db
         /\ n' = n + 1 /\ before' = db /\ Op([op |-> "parse"]) /\ UNCHANGED <<ws, tabs>>
Reopen == n > 0 /\ tabs # <<>> /\ tabs' = <<>> /\ Op([op |-> "reopen"]) /\ UNCHANGED <<ws, db, n, before>>
Next == Edit \/ Reg \/ Parse \/ Reopen
Spec == Init /\ [][Next]_vars
UniquePaths == \A x \in db.infs : \A y \in db.infs : x.path = y.path => x = y
NothingLost == before.infs \subseteq db.infs /\ DOMAIN before.srcs \subseteq DOMAIN db.srcs /\ before.envs \subseteq db.envs
EnvPerParse == Cardinality(db.envs) <= n
\* parsing again without edits in between changes nothing but the list of environments
Again == tabs # <<>> =>
  LET r == RunTables(db, ws, tabs, n + 1, <<>>, {"X64"}) q == RunTables(r.db, ws, tabs, n + 2, <<>>, {"X64"}) IN
  /\ q.db.infs = r.db.infs /\ q.db.srcs = r.db.srcs /\ q.raised = r.raised
SourcesKnown == \A x \in db.infs : x.srcs \subseteq DOMAIN db.srcs
Emit == (Len(hist) = MaxOps /\ hist[MaxOps].op = "parse") => PrintT("@@" \o ToJson(hist))
=============================================================================
