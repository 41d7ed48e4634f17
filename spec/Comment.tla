------------------------------ MODULE Comment ------------------------------
(***************************************************************************)
(* Comments of description files: a # outside quotes starts one.  A quote  *)
(* is closed by the same quote character; a backslash makes the next       *)
(* character an ordinary one.                                              *)
(***************************************************************************)
EXTENDS Text, TLC
CStart == [out |-> <<>>, q |-> "", esc |-> FALSE, cut |-> FALSE]
CStep(s, c) ==
  IF s.cut THEN s
  ELSE IF c \in {"\"", "'"} /\ ~s.esc
       THEN [s EXCEPT !.out = Append(@, c), !.q = IF @ = "" THEN c ELSE IF @ = c THEN "" ELSE @]
  ELSE IF c = "#" /\ s.q = "" THEN [s EXCEPT !.cut = TRUE]
  ELSE [s EXCEPT !.out = Append(@, c), !.esc = (c = "\\" /\ ~s.esc)]
RECURSIVE CRun(_, _, _)
CRun(s, cs, i) == IF i > Len(cs) THEN s ELSE CRun(CStep(s, cs[i]), cs, i + 1)
StripComment(cs) == Strip(CRun(CStart, cs, 1).out)
=============================================================================
