------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Trace validation.  A trace is a sequence of events recorded from the    *)
(* real code (one JSON object per line).  Every event carries the          *)
(* arguments of a call of the implementation and, under "obs", what the    *)
(* call was observed to do.  TrStart / TrStep are supplied by the area     *)
(* module and are built from the very same operators and actions that the  *)
(* area's state machine uses; each returns                                 *)
(*      [s |-> next specification state, exp |-> what must be observed,    *)
(*       ok |-> whether the observation is allowed].                       *)
(* An event the specification does not allow is reported and the rest of   *)
(* that history is skipped (up to the next "start").                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS TrStart(_), TrStep(_, _)

ConfEvents == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES confPos, confState, confDead

CInit == confPos = 1 /\ confState = [nil |-> TRUE] /\ confDead = FALSE

ConfReport(r) == PrintT("@@" \o ToJson([l |-> confPos, exp |-> r.exp]))

CNext ==
  /\ confPos <= Len(ConfEvents)
  /\ confPos' = confPos + 1
  /\ LET e == ConfEvents[confPos] IN
     IF confDead /\ e.k # "start"
     THEN UNCHANGED <<confState, confDead>>
     ELSE /\ PrintT("@at " \o ToString(confPos))
          /\ LET r == IF e.k = "start" THEN TrStart(e) ELSE TrStep(confState, e) IN
             IF r.ok THEN confState' = r.s /\ confDead' = FALSE
             ELSE ConfReport(r) /\ confState' = [nil |-> TRUE] /\ confDead' = TRUE
  /\ (confPos # Len(ConfEvents) \/ PrintT("@done " \o ToString(confPos)))

CSpec == CInit /\ [][CNext]_<<confPos, confState, confDead>>
=============================================================================
