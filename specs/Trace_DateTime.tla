--------------------------- MODULE Trace_DateTime ---------------------------
EXTENDS DateTime, TraceWalk
InitState(c) == IF "first" \in DOMAIN c THEN Civil(c.first) ELSE <<>>
\* A `days` event: the dates of the next `count` days, from the successor machine.
DaysFrom(t, count) == FoldLeft(LAMBDA a, i: [t |-> NextDay(a.t), out |-> Append(a.out, DateText(a.t))],
                               [t |-> t, out |-> <<>>], [i \in 1..count |-> i])
StepOf(c, s, e) == IF "count" \in DOMAIN e
                   THEN LET r == DaysFrom(s, e.count) IN [st |-> r.t, out |-> r.out]
                   ELSE [st |-> s, out |-> Rendered(c.kind, e)]
Agrees(o, e) == o = e.out
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars
=============================================================================
