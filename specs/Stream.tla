------------------------------- MODULE Stream -------------------------------
(* A data stream: a cursor over one fixed sequence of `size` bytes.  The state is the
   range in which the cursor is; it is a single position except after a failed exact
   read, which may have consumed what was left. *)
EXTENDS Big
StreamInit == [lo |-> B0, hi |-> B0]
At(p) == [lo |-> p, hi |-> p]
Left(size, p) == IF BLess(p, size) THEN BSub(size, p) ELSE B0
Target(size, p, e) ==
  CASE e.from = "start" -> e.off
    [] e.from = "current" -> BAdd(p, e.off)
    [] e.from = "end" -> BAdd(size, e.off)
\* What an event may show in state s, and the state after it.  Bytes(p, n) are the n bytes
\* at position p of the sequence.
StreamStep(size, Bytes(_, _), s, e) ==
  LET Fail(st) == [st |-> st, out |-> [k |-> "err"]]
      Read(p) == LET n == BMin(Left(size, p), e.n) IN
        [st |-> At(BAdd(p, BInt(n))), out |-> [k |-> "ok", pos |-> p, data |-> IF n = 0 THEN <<>> ELSE Bytes(p, n)]]
      Exact(p) == LET n == BMin(Left(size, p), e.n) IN
        IF n = e.n THEN Read(p) ELSE Fail([lo |-> p, hi |-> BAdd(p, BInt(n))])
      \* offsets beyond the end and 2^49: platforms have limits
      Moved(p, Then(_)) ==
        LET t == Target(size, p, e) IN
        IF BNeg(t) THEN Fail(s)
        ELSE IF t[1] >= 2 /\ BLess(size, t) /\ e.out.k = "err" THEN
          \* (a failed exact read may be either kind of failure)
          Fail(IF e.op # "exact_at" THEN s ELSE IF BLess(t, s.lo) THEN [lo |-> t, hi |-> s.hi] ELSE [lo |-> s.lo, hi |-> t])
        ELSE Then(t)
  IN CASE e.op = "size" -> [st |-> s, out |-> [k |-> "ok", pos |-> size, data |-> <<>>]]
       [] e.op = "tell" -> IF e.out.k = "ok" /\ BLeq(s.lo, e.out.pos) /\ BLeq(e.out.pos, s.hi)
                           THEN [st |-> At(e.out.pos), out |-> e.out]
                           ELSE [st |-> s, out |-> [k |-> "ok", pos |-> s.lo, data |-> <<>>]]
       [] e.op = "read" -> Read(s.lo)
       [] e.op = "exact" -> Exact(s.lo)
       [] e.op = "seek" -> Moved(s.lo, LAMBDA t: [st |-> At(t), out |-> [k |-> "ok", pos |-> t, data |-> <<>>]])
       [] e.op = "read_at" -> Moved(s.lo, Read)
       [] e.op = "exact_at" -> Moved(s.lo, Exact)
\* Reads that do not seek do not report a position.
StreamAgrees(o, e) ==
  /\ o.k = e.out.k
  /\ o.k = "ok" =>
       /\ e.op \in {"size", "tell", "seek", "exact_at"} => e.out.pos = o.pos
       /\ e.op \in {"read", "exact", "read_at", "exact_at"} => e.out.data = o.data
=============================================================================
