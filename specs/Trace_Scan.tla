------------------------------ MODULE Trace_Scan ------------------------------
EXTENDS Scan, TraceWalk
InitState(c) == <<>>
Sigs(c) == {c.sigs[i] : i \in DOMAIN c.sigs}
Rows(r) == {<<p, r[p]>> : p \in DOMAIN r}
StepOf(c, s, e) ==
  CASE e.op = "buf" -> [st |-> Present(s, e.off, e.data), out |-> {}]
    [] e.op = "result" -> [st |-> s, out |-> Rows(Report(Sigs(c), c.size, s))]
Agrees(o, e) ==
  IF e.op = "buf" THEN e.out = <<>>
  ELSE /\ {e.out[i][1] : i \in DOMAIN e.out} = {r[1] : r \in o}
       /\ \A i \in DOMAIN e.out : \E r \in o : r[1] = e.out[i][1] /\ e.out[i][2] \in r[2]
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars
=============================================================================
