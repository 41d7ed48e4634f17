---------------------------- MODULE ProcessTrace ----------------------------
EXTENDS Process, Conform
Places(c) == [c EXCEPT !.places = Range(@)]
RunExp(c) ==
  [res |-> Outcome(c), stream |-> IF c.stream THEN Delivered(c) ELSE <<>>, file |-> IF c.file THEN Delivered(c) ELSE <<>>, log |-> Logged(c), level |-> TRUE]
\* after an output that cannot be decoded, what came before it was delivered
RunOk(c, o) ==
  LET e == RunExp(c) IN
  /\ o.res = e.res /\ o.level
  /\ o.stream = e.stream /\ o.log = e.log
  /\ o.file = e.file
  /\ o.seen = [Seen(c) EXCEPT !.args = c.args]
ScriptExp(c) == LET s == Script(Places(c)) IN
  IF s = "" THEN [res |-> "failed", ran |-> ""] ELSE [res |-> Outcome(c), ran |-> s]
Undecided(c) == Script(Places(c)) = "" /\ "work" \in Range(c.places)
US(ev) ==
  LET c == ev.c o == ev.obs z == [nil |-> TRUE] IN
  CASE ev.do = "run" -> [s |-> z, exp |-> [RunExp(c) EXCEPT !.level = Seen(c)], ok |-> RunOk(c, o)]
    [] ev.do = "script" -> [s |-> z, exp |-> [out |-> RunExp(c), script |-> ScriptExp(c)],
         ok |-> \/ Undecided(c)
                \/ IF Script(Places(c)) = "" THEN o.res \notin {"rc 0"} /\ o.ran = ""
                   ELSE RunOk(c, o) /\ o.ran = Script(Places(c))]
    [] ev.do = "remove" ->
         LET e == [raised |-> IF c.ignore THEN FALSE ELSE ~c.there \/ ~Removed(c.fails), gone |-> ~c.there \/ Removed(c.fails), outside |-> TRUE, links |-> TRUE] IN
         [s |-> z, exp |-> e, ok |-> IF c.ignore THEN ~o.raised /\ o.outside /\ o.links /\ (c.fails = <<>> => o.gone) ELSE o = e]
    [] ev.do = "sign" ->
         LET ran == c.tool
             args == IF ~ran THEN <<>> ELSE IF c.kind = "detached" THEN DetachedArgs(c) ELSE CatalogArgs(c)
             res == IF ~c.tool THEN "rc -1" ELSE IF c.rc # 0 THEN "rc " \o ToString(c.rc)
                    ELSE IF c.kind = "detached" /\ ~c.made THEN "raise" ELSE "rc 0"
             e == [res |-> res, args |-> args, moved |-> c.kind = "detached" /\ res = "rc 0", cwd |-> ran /\ c.kind = "catalog"] IN
         [s |-> z, exp |-> e, ok |-> o.res = res /\ o.args = args /\ (c.kind = "detached" => o.moved = e.moved) /\ (e.cwd => o.cwd)]
UN(st, ev) == [s |-> st, ok |-> FALSE, exp |-> "no step"]
=============================================================================
