---- MODULE Trace_Flate ----
(* Every event is a decompression: of bytes, which the specification decompresses itself,
   or of a stream written by an independent compressor from known data. *)
EXTENDS Inflate, Bunzip, TraceWalk
Init0(c) == 0
Judge(e) == CASE e.method = "deflate" -> Deflate(e.data, e.cap)
              [] e.method = "zlib" -> Zlib(e.data, e.cap)
              [] e.method = "bzip2" -> Bunzip(e.data, e.cap)
StepOf(c, s, e) == [st |-> 0, out |-> IF e.op = "whole" THEN e.want ELSE Judge(e)]
Agrees(o, e) ==
  IF e.op = "whole" THEN o = e.out
  ELSE CASE e.out.k = "ok" -> o.k = "ok" /\ e.out.n = Len(o.out) /\ e.out.data = o.out
         [] e.out.k = "err" -> o.k = "err" \/ o.lax
         [] OTHER -> FALSE
Spec == WalkInit(Init0) /\ [][WalkNext(StepOf, Agrees)]_wvars
====
