------------------------------- MODULE Disk -------------------------------
(* Storage media images: a format's tables say for every sector of the guest disk where it is
   stored, as <<file, sector of that file>>, or that it is zero, Zero.  Stored sectors have
   contents that tell where they are (Pattern), so that what a reader returns tells what it
   read.  A trace is a history of opening an image, which shows metadata, and of stream
   operations on its layers. *)
EXTENDS Stream, TLC
Zero == <<-1, 0>>
\* byte f of sector s of file id
Pattern(id, s, f) == (57 * id + 13 * (s % 251) + 7 * ((s \div 251) % 241) + f + 101 * (f \div 256)) % 256
StoredByte(w, f) == IF w[1] = -1 THEN 0 ELSE Pattern(w[1], w[2], f)
\* sector and offset of position p, below 1 TiB, in sectors of 512 bytes
SectorOf(p) == p[2] * 32768 + (p[3] \div 512)
OffsetIn(p) == p[3] % 512
\* n bytes at position p of a disk whose sectors are stored at Where(_)
DiskBytes(Where(_), p, n) ==
  LET s == SectorOf(p) o == OffsetIn(p)
      w == TLCEval([k \in 0..(o + n - 1) \div 512 |-> Where(s + k)])
  IN [i \in 1..n |-> StoredByte(w[(o + i - 1) \div 512], (o + i - 1) % 512)]
ImageInit(n) == [k \in 0..n - 1 |-> StreamInit]
\* Opens: whether the image opens, Meta: what it then shows, Size(k): size of layer k,
\* Bytes(k, p, n): n bytes at position p of layer k
ImageStep(Opens, Meta, Size(_), Bytes(_, _, _), st, e) ==
  IF e.op = "open" THEN [st |-> st, out |-> IF Opens THEN [k |-> "ok", meta |-> Meta] ELSE [k |-> "err"]]
  ELSE LET r == StreamStep(Size(e.layer), LAMBDA p, n: Bytes(e.layer, p, n), st[e.layer], e)
       IN [st |-> [st EXCEPT ![e.layer] = r.st], out |-> r.out]
ImageAgrees(o, e) ==
  IF e.op = "open" THEN o.k = e.out.k /\ (o.k = "ok" => o.meta = e.out.meta)
  ELSE StreamAgrees(o, e)
---------------------------------------------------------------------------
(* What is stored at Broken cannot be read: a read that needs it fails; where that leaves the
   cursor is open, between where it was and where it would have been. *)
Broken == <<-2, 0>>
Needs(Where(_), p, n) == n > 0 /\ \E s \in SectorOf(p)..SectorOf(BAdd(p, BInt(n - 1))): Where(s) = Broken
ReadOps == {"read", "exact", "read_at", "exact_at"}
BrokenStep(Where(_), s, r, e) ==
  IF e.op \in ReadOps /\ r.out.k = "ok" /\ Needs(Where, r.out.pos, Len(r.out.data))
  THEN [st |-> [lo |-> IF BLess(s.lo, r.out.pos) THEN s.lo ELSE r.out.pos, hi |-> IF BLess(s.hi, r.st.hi) THEN r.st.hi ELSE s.hi], out |-> [k |-> "err"]]
  ELSE r
===========================================================================
