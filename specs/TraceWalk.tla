----------------------------- MODULE TraceWalk -----------------------------
(* Common part of the trace specifications.  A trace specification walks every
   recorded trace in the file named by the environment variable KV_CASES.  Each trace
   is a record with a field `ops`, a sequence of events; an event carries what the real
   code was seen to do in `out`.  A trace specification defines

     InitState(c)       the model state at the start of trace c
     StepOf(c, st, e)   [st |-> next state, out |-> what the model allows to be seen]
     Agrees(o, e)       whether what was recorded in event e is what the model allows

   and  Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars.
   A trace stops at its first disagreement with a BADCASE line. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.KV_CASES)
VARIABLES idx, pos, st, verdict
wvars == <<idx, pos, st, verdict>>

WalkInit(InitState(_)) ==
  /\ idx \in 1..Len(Cases) /\ pos = 1 /\ verdict = "run"
  /\ st = InitState(Cases[idx])
WalkNext(StepOf(_, _, _), Agrees(_, _)) ==
  /\ verdict = "run" /\ UNCHANGED idx
  /\ IF pos > Len(Cases[idx].ops)
     THEN verdict' = "done" /\ UNCHANGED <<pos, st>>
     ELSE LET e == Cases[idx].ops[pos]
              r == StepOf(Cases[idx], st, e)
          IN IF Agrees(r.out, e)
             THEN pos' = pos + 1 /\ st' = r.st /\ UNCHANGED verdict
             ELSE /\ verdict' = "bad" /\ UNCHANGED <<pos, st>>
                  /\ PrintT("BADCASE " \o ToString(idx) \o " " \o ToString(pos) \o " " \o ToString(r.out))
=============================================================================
