----------------------------- MODULE Trace_Utf8 -----------------------------
EXTENDS Utf8, TraceWalk
InitState(c) == "-"
Verdict(e) == CASE e.op = "decode" -> Utf8Matches(e.data, e.out)
                [] e.op = "stream" -> B64Stream(e.data, e.white, e.out)
                [] e.op = "context" -> B64Context(e.data, e.size, e.out)
Model(e) == IF e.op = "decode" THEN ToString(Utf8Decode(e.data))
            ELSE ToString(B64Bytes(B64Scan(e.data, IF e.op = "stream" THEN e.white ELSE FALSE, 1, <<>>).digits))
StepOf(c, s, e) == [st |-> s, out |-> IF Verdict(e) THEN "ok" ELSE Model(e)]
Agrees(o, e) == o = "ok"
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars
=============================================================================
