----------------------------- MODULE Trace_Layout -----------------------------
EXTENDS Layout, TraceWalk
InitState(c) == "-"
\* an entry of types that are not integers was read from one of the places e.at[i]
EntryAgrees(x, e) ==
  /\ x.name = e.name /\ x.vals = e.vals
  /\ Len(x.at) = Len(e.at)
  /\ \A i \in DOMAIN x.at : \E j \in DOMAIN e.at[i] : e.at[i][j] = <<x.at[i], x.order>> \/ e.at[i][j] = <<x.at[i], "any">>
  /\ x.hex = e.hex
StepOf(c, s, e) ==
  [st |-> s,
   out |-> CASE e.op = "debug" -> [k |-> "shown", entries |-> Shown(c.layout, e.data), data |-> <<>>]
             [] e.op = "read" -> ReadAt(c.layout, e.data, e.pos) @@ [entries |-> <<>>]
             [] e.op = "int" -> [k |-> "int", data |-> BitsAt(e.data, e.off, e.w, e.order), entries |-> <<>>]]
Agrees(o, e) ==
  /\ o.k = e.out.k
  /\ o.data = e.out.data
  /\ Len(o.entries) = Len(e.out.entries)
  /\ \A i \in DOMAIN o.entries : EntryAgrees(o.entries[i], e.out.entries[i])
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars
=============================================================================
