------------------------------ MODULE Process ------------------------------
(***************************************************************************)
(* Running commands and scripts, and removing trees.                        *)
(* A run: [cap, lines, errs, rc, raise, ...]; a line of output is           *)
(* [s text, n repetitions, bad: followed by a byte that is no UTF-8,        *)
(*  nl: ends with a line feed].  Output is kept run-length encoded:         *)
(* [s, n, nl].                                                              *)
(***************************************************************************)
EXTENDS Text, TLC

\* ---- output ------------------------------------------------------------------
BadAs(errs) == CASE errs = "replace" -> "<FFFD>" [] errs = "ignore" -> "" [] errs = "backslashreplace" -> "\\xff" [] OTHER -> "?"
Strict(c) == c.errs = "strict"
FirstBad(c) == LET B == {i \in 1..Len(c.lines) : c.lines[i].bad} IN IF Strict(c) /\ B # {} THEN CHOOSE i \in B : \A j \in B : i <= j ELSE 0
Shown(c) == [i \in 1..Len(c.lines) |-> [s |-> c.lines[i].s \o (IF c.lines[i].bad THEN BadAs(c.errs) ELSE ""), n |-> c.lines[i].n, nl |-> c.lines[i].nl]]
\* neighbours of equal text are one run
RECURSIVE Merge(_)
Merge(q) == IF Len(q) < 2 THEN q
            ELSE IF q[1].s = q[2].s /\ q[1].nl /\ q[2].nl THEN Merge(<<[q[1] EXCEPT !.n = @ + q[2].n]>> \o SubSeq(q, 3, Len(q)))
            ELSE <<q[1]>> \o Merge(Tail(q))
Delivered(c) == IF ~c.cap THEN <<>> ELSE Merge(IF FirstBad(c) = 0 THEN Shown(c) ELSE SubSeq(Shown(c), 1, FirstBad(c) - 1))
\* the log has whole lines without trailing blanks
Logged(c) == LET q == Delivered(c) IN Merge(SelectSeq([i \in 1..Len(q) |-> [q[i] EXCEPT !.nl = TRUE, !.s = Str(RStrip(Chars(@)))]], LAMBDA x : x.s # ""))
\* what the call returns: a return code, "raise", or "decode" (output that cannot be decoded)
Outcome(c) == IF c.cap /\ FirstBad(c) # 0 THEN "raise" ELSE IF c.raise /\ c.rc # 0 THEN "raise" ELSE "rc " \o ToString(c.rc)
\* ---- what the child sees -------------------------------------------------------
Seen(c) == [args |-> c.args, cwd |-> IF c.wd = "" THEN "cur" ELSE c.wd,
            mark |-> IF c.env = "none" THEN "parent" ELSE IF c.env = "mark" THEN "given" ELSE "unset"]

\* ---- finding a script ----------------------------------------------------------
\* places: where a file of that name is: "abs" (the given path itself), "cur", then directories of the search path
First(q, S) == LET H == {i \in 1..Len(q) : q[i] \in S} IN IF H = {} THEN "" ELSE q[CHOOSE i \in H : \A j \in H : i <= j]
Script(c) == IF c.how = "abs" THEN (IF "abs" \in c.places THEN "abs" ELSE "")
             ELSE IF "cur" \in c.places THEN "cur" ELSE First(c.path, c.places)

\* ---- removing a tree -----------------------------------------------------------
\* fails: how often removing an entry fails before it works; an attempt tries each entry twice, there are three attempts
Forever == 99
RECURSIVE Given(_)
Given(fs) == IF Len(fs) = 0 THEN 0 ELSE (fs[1] \div 2) + Given(Tail(fs))
Removed(fs) == (\A i \in 1..Len(fs) : fs[i] < Forever) /\ Given(fs) <= 2
\* ---- signing -------------------------------------------------------------------
DetachedArgs(c) == <<"sign", "/fd", "sha256", "/p7ce", "DetachedSignedData", "/p7co", c.oid, "/p7", c.out, "/f", c.pfx>>
                   \o (IF c.eku = "" THEN <<>> ELSE <<"/u", c.eku>>) \o (IF c.pass = "" THEN <<>> ELSE <<"/p", c.pass>>) \o <<"/debug", "/v", c.file>>
CatalogArgs(c) == <<"sign", "/a", "/fd", "SHA256", "/f", c.pfx>> \o (IF c.pass = "" THEN <<>> ELSE <<"/p", c.pass>>) \o <<"/debug", "/v", c.file>>
=============================================================================
