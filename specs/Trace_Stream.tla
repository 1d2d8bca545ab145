----------------------------- MODULE Trace_Stream -----------------------------
(* Streams over given bytes: c.data followed by zeros up to c.size. *)
EXTENDS Stream, TraceWalk
InitState(c) == StreamInit
Given(c, p, n) ==
  IF BFits(p) /\ BSmall(p) < Len(c.data)
  THEN LET i == BSmall(p) IN [k \in 1..n |-> IF i + k <= Len(c.data) THEN c.data[i + k] ELSE 0]
  ELSE [k \in 1..n |-> 0]
StepOf(c, s, e) == StreamStep(c.size, LAMBDA p, n: Given(c, p, n), s, e)
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, StreamAgrees)]_wvars
=============================================================================
