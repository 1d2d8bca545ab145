----------------------------- MODULE Trace_Detect -----------------------------
EXTENDS Detect, TraceWalk
InitState(c) == [size |-> c.size, pieces |-> c.pieces]
Enabled(e) == {e.formats[i] : i \in DOMAIN e.formats}
StepOf(c, s, e) == [st |-> s, out |-> [k |-> "ok", found |-> Detected(s, Enabled(e))]]
Agrees(o, e) == /\ e.out.k = "ok"
                /\ {e.out.found[i] : i \in DOMAIN e.out.found} = o.found
                /\ Len(e.out.found) = Cardinality(o.found)
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars
=============================================================================
