--------------------------- MODULE Trace_StreamRuns ---------------------------
(* Streams over long contents, which are given and shown as runs of equal bytes: c.runs is
   the sequence of <<position, byte>> at which another byte starts, and each event shows the
   runs <<byte, count>> of what it read. *)
EXTENDS Stream, TraceWalk
InitState(c) == StreamInit
Runs(c, p, n) ==
  LET end == BAdd(p, BInt(n))
      from(i) == IF BLess(c.runs[i].at, p) THEN p ELSE c.runs[i].at
      to(i) == IF i < Len(c.runs) /\ BLess(c.runs[i + 1].at, end) THEN c.runs[i + 1].at ELSE end
      in == SelectSeq([i \in 1..Len(c.runs) |-> i], LAMBDA i: BLess(from(i), to(i)))
  IN [j \in 1..Len(in) |-> <<c.runs[in[j]].v, BSmall(BSub(to(in[j]), from(in[j])))>>]
StepOf(c, s, e) == StreamStep(c.size, LAMBDA p, n: Runs(c, p, n), s, e)
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, StreamAgrees)]_wvars
=============================================================================
