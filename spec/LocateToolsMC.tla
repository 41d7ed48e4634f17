--------------------------- MODULE LocateToolsMC ---------------------------
(* A search through the directories that hold a tool, in every order, keeping the best so far; the histories of vswhere; every way a query can end. *)
EXTENDS LocateTools, TLC, Json
CONSTANT MaxDirs
VARIABLES kind, dirs, cur, host, best, have, ops
vars == <<kind, dirs, cur, host, best, have, ops>>
D(v, a) == (IF v = "" THEN <<>> ELSE <<v>>) \o (IF a = "" THEN <<"bin">> ELSE <<a>>)
Cands == {D(v, a) : v \in {"", "9.9.9.9", "10.0.2.0", "10.0.10.0", "10.0.10.7"}, a \in {"", "x64", "x86", "ARM64"}} \cup {<<"10.0.2.0", "10.0.10.0", "x64">>, <<"x64", "arm">>, <<"i386">>}
Hosts == {[os |-> "Windows", arch |-> "x86", bits |-> "64"], [os |-> "Windows", arch |-> "x86", bits |-> "32"], [os |-> "Windows", arch |-> "ARM", bits |-> "64"]}
World0 == [dirs |-> <<[name |-> "a", has |-> FALSE], [name |-> "b", has |-> FALSE]>>, vs |-> [code |-> 0, lines |-> <<"/I/1", "/I/2">>], bats |-> {"/I/2"}, vc |-> [code |-> 0, env |-> <<<<"Path", "x;">>, <<"Foo", "1">>>>], sdk |-> <<>>, kits |-> <<>>, host |-> [os |-> "Windows", arch |-> "x86", bits |-> "64"]]
Init == /\ best = <<>> /\ ops = <<>> /\ have = FALSE
        /\ \/ kind = "scan" /\ dirs = <<>> /\ cur \in {<<>>, <<10, 0, 2>>, <<10, 0, 10>>} /\ host \in Hosts
           \/ kind = "where" /\ dirs \in {World0.dirs, [World0.dirs EXCEPT ![2].has = TRUE], <<[name |-> "a", has |-> TRUE], [name |-> "b", has |-> TRUE]>>} /\ cur = <<>> /\ host \in {World0.host, [World0.host EXCEPT !.os = "Linux"]}
           \/ kind = "query" /\ cur = <<>> /\ dirs = <<>> /\ host = World0.host
\* rank: of the SDK in use, then by version
Better(d, b) == IF IsCurrent(b, cur) THEN FALSE ELSE IF IsCurrent(d, cur) THEN TRUE ELSE Less(Top(Versions(b)), Top(Versions(d)))
Scan == /\ kind = "scan" /\ Len(dirs) < MaxDirs
        /\ \E d \in Cands : (\A i \in 1..Len(dirs) : dirs[i] # d) /\ dirs' = Append(dirs, d) /\ best' = (IF GoodArch(host, d) /\ (best = <<>> \/ Better(d, best)) THEN d ELSE best)
        /\ UNCHANGED <<kind, cur, host, have, ops>>
Call == /\ kind = "where" /\ Len(ops) < 3
        /\ \E dl \in {"good", "bad", "http", "url", "cut"}, s \in BOOLEAN :
             LET x == Where([World0 EXCEPT !.dirs = dirs, !.host = host], have, dl, s) IN ops' = Append(ops, [dl |-> dl, strict |-> s]) /\ have' = x.have
        /\ UNCHANGED <<kind, dirs, cur, host, best>>
Ask == /\ kind = "query" /\ Len(ops) = 0
       /\ \E keys \in {<<"PATH">>, <<"path", "foo">>, <<"bar">>, <<>>}, arch \in {"-", "x86"}, product \in {"-", "P.X"}, ver \in {"-", "VS2022", "vs2015"}, vc \in {"-", "14.1"}, vs \in {"ok", "fail", "none", "nobat"}, code \in {0, 1} :
            ops' = <<[keys |-> keys, arch |-> arch, product |-> product, ver |-> ver, vc |-> vc, vs |-> vs, code |-> code]>>
       /\ UNCHANGED <<kind, dirs, cur, host, best, have>>
Next == Scan \/ Call \/ Ask
Spec == Init /\ [][Next]_vars
Found == kind = "scan" => LET B == Best({dirs[i] : i \in 1..Len(dirs)}, host, cur) IN IF B = {} THEN best = <<>> ELSE best \in B
\* what is kept was a good download; nothing but vswhere of the library or of PATH is named
Kept == kind = "where" => (have => \E i \in 1..Len(ops) : ops[i].dl = "good")
W(o) == [World0 EXCEPT !.vs = [code |-> IF o.vs = "fail" THEN 1 ELSE 0, lines |-> IF o.vs = "none" THEN <<>> ELSE @.lines], !.bats = IF o.vs = "nobat" THEN {} ELSE @, !.vc.code = o.code]
Ends == (kind = "query" /\ Len(ops) = 1) => LET o == ops[1]  q == Query(W(o), TRUE, "good", o.keys, o.arch, o.product, o.ver, o.vc, ";") IN
  /\ (q.r[1] = "vars") = (o.ver # "vs2015" /\ o.vs = "ok" /\ o.code = 0 /\ o.keys # <<"bar">>)
  /\ Len(q.ran) = (IF o.ver # "vs2015" /\ o.vs = "ok" THEN 1 ELSE 0)
  /\ (q.r[1] = "vars" => Cardinality(q.r[2]) = Len(o.keys))
Emit == /\ (kind = "scan" /\ Len(dirs) = MaxDirs) => PrintT("@@" \o ToJson([kind |-> kind, dirs |-> dirs, cur |-> cur, host |-> host, ops |-> ops]))
        /\ (kind = "where" /\ Len(ops) = 3) => PrintT("@@" \o ToJson([kind |-> kind, dirs |-> dirs, cur |-> cur, host |-> host, ops |-> ops]))
        /\ (kind = "query" /\ Len(ops) = 1) => PrintT("@@" \o ToJson([kind |-> kind, dirs |-> dirs, cur |-> cur, host |-> host, ops |-> ops]))
=============================================================================
