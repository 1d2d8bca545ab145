------------------------------ MODULE Volumes ------------------------------
(* Volume systems: a table says which ranges of a disk are partitions; a partition is a stream
   over its range.  Sectors here are of 512 bytes, whatever the table counts in.  The disk has
   runs [s, n, h] of n sectors from s on with the contents Pattern has from sector h, and is
   zero between them (where the tables are does not matter: partitions do not contain them). *)
EXTENDS Disk, SequencesExt, FiniteSets
Stored(l, s) ==
  LET i == SelectInSeq(l.runs, LAMBDA r: r.s <= s /\ s < r.s + r.n)
  IN IF i = 0 THEN Zero ELSE <<1, l.runs[i].h + (s - l.runs[i].s)>>
BytesOf(n) == <<0, n \div 32768, (n % 32768) * 512>>
PartStream(l, part, st, e) ==
  StreamStep(BytesOf(part.n), LAMBDA p, n: DiskBytes(LAMBDA x: Stored(l, x), BAdd(BytesOf(part.off), p), n), st, e)
\* what is shown of a partition: all but its range in sectors
Shown(parts) == [i \in 1..Len(parts) |-> [x \in (DOMAIN parts[i] \ {"n"}) \cup {"size"} |->
  IF x = "off" THEN BytesOf(parts[i].off) ELSE IF x = "size" THEN BytesOf(parts[i].n) ELSE parts[i][x]]]
VolumeInit == [parts |-> <<>>, st |-> <<>>]
\* r: how opening went, [k, meta, parts]
VolumeOpen(s, r) ==
  IF r.k = "ok" THEN [st |-> [parts |-> r.parts, st |-> [i \in 1..Len(r.parts) |-> StreamInit]], out |-> [k |-> "ok", meta |-> r.meta]]
  ELSE [st |-> s, out |-> [k |-> r.k]]
VolumeStep(l, s, e) ==
  LET i == e.layer + 1 r == PartStream(l, s.parts[i], s.st[i], e)
  IN [st |-> [s EXCEPT !.st[i] = r.st], out |-> r.out]
===========================================================================
