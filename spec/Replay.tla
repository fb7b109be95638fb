------------------------------- MODULE Replay -------------------------------
(* Validates recorded executions: every event of the trace has to be a step   *)
(* that the specification (Start, Step) allows.  Step yields the next state   *)
(* and an empty string, or the reason why the specification forbids the event. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Start(_), Step(_, _)
VARIABLES l, st, dead

Trace == ndJsonDeserialize(IOEnv.TRACE)

RInit == l = 0 /\ st = [none |-> TRUE] /\ dead = TRUE

RNext ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     IF e.op = "scn" THEN st' = Start(e) /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET r == Step(st, e) IN
          IF r.why = "" THEN st' = r.s /\ UNCHANGED dead
          ELSE /\ PrintT("REJECT " \o ToJson([n |-> e.n, line |-> l + 1, why |-> r.why, op |-> e.op]))
               /\ UNCHANGED st /\ dead' = TRUE
  /\ l + 1 = Len(Trace) => PrintT("END " \o ToString(l + 1))

RSpec == RInit /\ [][RNext]_<<l, st, dead>>
=============================================================================
