---- MODULE Trace_Lz ----
EXTENDS Lz, Lzx, TraceWalk
Init0(c) == 0
Judge(e) == CASE e.method = "adc" -> Adc(e.data, e.cap)
              [] e.method = "lzvn" -> Lzvn(e.data, e.cap)
              [] e.method = "lznt1" -> Lznt1(e.data, e.cap)
              [] e.method = "lzfse" -> Lzfse(e.data, e.cap)
              [] e.method = "lzx" -> Lzx(e.data, e.cap)
StepOf(c, s, e) == [st |-> 0, out |-> IF e.op = "whole" THEN e.want ELSE Judge(e)]
Agrees(o, e) ==
  IF e.op = "whole" THEN o = e.out
  ELSE IF e.method = "lzx" THEN LzxAgrees(o, e.out)
  ELSE CASE e.out.k = "ok" -> (o.k = "ok" \/ o.lax) /\ e.out.n = Len(o.out) /\ e.out.data = o.out
         [] e.out.k = "err" -> o.k = "err" \/ o.lax
         [] OTHER -> FALSE
Spec == WalkInit(Init0) /\ [][WalkNext(StepOf, Agrees)]_wvars
====
