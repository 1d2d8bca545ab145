---------------------------- MODULE Trace_Paths ----------------------------
EXTENDS Paths, TraceWalk
InitState(c) == Root
Refused(e) == "refused" \in DOMAIN e.out /\ e.out.refused
StepOf(c, s, e) ==
  LET next == CASE e.op = "parse" -> Parse(c.kind, e.text)
                [] e.op = "comps" -> e.names
                [] e.op = "join" -> IF Refused(e) THEN s ELSE Joined(s, e.names)
                [] e.op = "push" -> Append(s, e.name)
                [] e.op = "parent" -> Parent(s)
                [] OTHER -> s
      mayRefuse == e.op = "join" /\ ~MustTake(c.kind, e.form)
      v == View(c.kind, next)
  IN [st |-> next,
      out |-> [f \in DOMAIN v \cup {"same", "refused"} |->
                CASE f = "same" -> TRUE
                  [] f = "refused" -> Refused(e) /\ mayRefuse
                  [] OTHER -> v[f]]]
Agrees(o, e) == \A f \in DOMAIN e.out : f \in DOMAIN o /\ o[f] = e.out[f]
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars
=============================================================================
