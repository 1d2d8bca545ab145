------------------------------ MODULE MC_Stream ------------------------------
(* All histories of a small stream: what is read is always the part of the sequence at the
   cursor, splitting a read changes nothing, and failing operations move nothing beyond what
   they may consume.  The histories of full length are printed: they are replayed against
   the real streams. *)
EXTENDS Stream, TLC, Json
CONSTANTS Size, MaxOps
VARIABLES s, hist
Content == [i \in 1..Size |-> 10 + i]
Bytes(p, n) == SubSeq(Content, BSmall(p) + 1, BSmall(p) + n)
Offs == {-2, -1, 0, 1}
Ops == {[op |-> "read", n |-> n] : n \in {0, 1, 2, Size + 1}}
  \cup {[op |-> "exact", n |-> n] : n \in {1, 2}}
  \cup {[op |-> o, from |-> f, off |-> d, n |-> n] : o \in {"seek"}, f \in {"current", "end"}, d \in Offs, n \in {0}}
  \cup {[op |-> "seek", from |-> "start", off |-> d, n |-> 0] : d \in {0, 1, Size, Size + 2}}
  \cup {[op |-> o, from |-> f, off |-> d, n |-> 2] : o \in {"read_at", "exact_at"}, f \in {"current", "end"}, d \in {-2, 1}}
Ev(o) == IF o.op \in {"read", "exact"} THEN o @@ [out |-> [k |-> "ok"]]
         ELSE [op |-> o.op, from |-> o.from, off |-> BInt(o.off), n |-> o.n, out |-> [k |-> "ok"]]
Step(st, o) == StreamStep(BInt(Size), Bytes, st, Ev(o))
Init == s = StreamInit /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E o \in Ops:
          /\ s.lo = s.hi \/ (o.op = "seek" /\ o.from # "current")
          /\ s' = Step(s, o).st /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<s, hist>>
InRange == ~BNeg(s.lo) /\ BLeq(s.lo, s.hi)
Settled == s.lo = s.hi
Rd(st, n) == Step(st, [op |-> "read", n |-> n])
SplitReads == Settled => \A n, m \in 0..(Size + 1):
  LET a == Rd(s, n) b == Rd(a.st, m) c == Rd(s, n + m)
  IN c.out.data = a.out.data \o b.out.data /\ c.st = b.st
SeeksAdd == Settled => \A d, f \in Offs:
  LET Sk(st, x) == Step(st, [op |-> "seek", from |-> "current", off |-> x, n |-> 0])
      a == Sk(s, d) b == Sk(a.st, f) c == Sk(s, d + f)
  IN a.out.k = "ok" /\ b.out.k = "ok" => c.out.k = "ok" /\ c.st = b.st
FailedSeeksDoNotMove == Settled => \A o \in Ops:
  LET r == Step(s, o) IN o.op = "seek" /\ r.out.k = "err" => r.st = s
ExactIsRead == Settled => \A n \in 0..(Size + 1):
  LET r == Rd(s, n) x == Step(s, [op |-> "exact", n |-> n])
  IN (x.out.k = "ok" <=> Len(r.out.data) = n) /\ (x.out.k = "ok" => x = r)
Emit == Len(hist) = MaxOps => PrintT("HIST " \o ToJson(hist))
=============================================================================
