----------------------------- MODULE Trace_Codec -----------------------------
EXTENDS Codec, TraceWalk
InitState(c) == "-"
StepOf(c, s, e) ==
  [st |-> s,
   out |-> IF e.op = "decode"
           THEN IF DecodeMatches(c.enc, e.data, e.out) THEN "ok" ELSE ToString(Decode(c.enc, e.data))
           ELSE IF EncodeMatches(c.enc, e.data, e.out) THEN "ok"
                ELSE ToString([i \in DOMAIN e.data |-> IF e.data[i] \in Mapped[c.enc] THEN "mapped" ELSE "not mapped"])]
Agrees(o, e) == o = "ok"
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars
=============================================================================
