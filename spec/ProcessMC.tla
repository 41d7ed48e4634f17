----------------------------- MODULE ProcessMC -----------------------------
(* The child, the pipe, the reader thread and the caller, in every interleaving. *)
EXTENDS Process, Json
CONSTANTS MaxLines, Room
VARIABLES c, wrote, pipe, open, child, reader, got, caller
vars == <<c, wrote, pipe, open, child, reader, got, caller>>

Line(i, bad) == [s |-> "o:" \o ToString(i), n |-> 1, bad |-> bad, nl |-> TRUE]
Configs == {[cap |-> cap, lines |-> [i \in 1..n |-> Line(i, i = b)], errs |-> e, rc |-> r, raise |-> x] :
              cap \in BOOLEAN, n \in 0..MaxLines, b \in 0..MaxLines, e \in {"strict", "replace"}, r \in {0, 3}, x \in BOOLEAN}
Init == /\ c \in Configs /\ wrote = 0 /\ pipe = <<>> /\ open = TRUE /\ child = "run" /\ got = <<>> /\ caller = "wait"
        /\ reader = IF c.cap THEN "run" ELSE "none"
\* uncaptured output goes nowhere; a closed pipe ends the child
Write == /\ child = "run" /\ wrote < Len(c.lines)
         /\ IF ~c.cap THEN wrote' = wrote + 1 /\ UNCHANGED <<pipe, child>>
            ELSE IF ~open THEN child' = "broken" /\ UNCHANGED <<wrote, pipe>>
            ELSE Len(pipe) < Room /\ pipe' = Append(pipe, wrote + 1) /\ wrote' = wrote + 1 /\ UNCHANGED child
         /\ UNCHANGED <<c, open, reader, got, caller>>
Exit == child = "run" /\ wrote = Len(c.lines) /\ child' = "ended" /\ UNCHANGED <<c, wrote, pipe, open, reader, got, caller>>
Read == /\ reader = "run" /\ pipe # <<>>
        /\ pipe' = Tail(pipe)
        /\ IF Strict(c) /\ c.lines[pipe[1]].bad THEN reader' = "failed" /\ open' = FALSE /\ UNCHANGED got
           ELSE got' = Append(got, pipe[1]) /\ UNCHANGED <<reader, open>>
        /\ UNCHANGED <<c, wrote, child, caller>>
Eof == reader = "run" /\ pipe = <<>> /\ child # "run" /\ reader' = "ended" /\ UNCHANGED <<c, wrote, pipe, open, child, got, caller>>
Waited == caller = "wait" /\ child # "run" /\ caller' = "join" /\ UNCHANGED <<c, wrote, pipe, open, child, reader, got>>
Joined == caller = "join" /\ reader # "run"
          /\ caller' = (IF reader = "failed" \/ (c.raise /\ c.rc # 0) THEN "raise" ELSE "rc " \o ToString(c.rc))
          /\ UNCHANGED <<c, wrote, pipe, open, child, reader, got>>
Next == Write \/ Exit \/ Read \/ Eof \/ Waited \/ Joined
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == caller \notin {"wait", "join"}
Ends == <>Done
Stuck == Done \/ ENABLED Next
InOrder == \A i \in 1..Len(got) : got[i] = i
AsSpecified == Done => caller = Outcome(c) /\ Len(got) = Len(Delivered(c))
Emit == (Done /\ \A i \in 1..Len(c.lines) : TRUE) => PrintT("@@" \o ToJson(c))
=============================================================================
