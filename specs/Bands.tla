------------------------------- MODULE Bands -------------------------------
(* Mac OS sparse disk images and sparse bundles: a disk in bands of spb sectors.
   A sparse image ("image") has one file with an array of band numbers, counted from 1, where 0
   is unused: the band named at index i (from 0) is stored at sector 8 + i * spb of the file,
   which ends after `ends` sectors.  A sparse bundle ("bundle") has a file per band: bands is a
   sequence [b, h, n] where the file of band b holds n sectors, with the contents that Pattern
   has from sector h.  What is not stored is zero. *)
EXTENDS Disk
Index(seq, P(_)) == LET S == {i \in 1..Len(seq): P(seq[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S: TRUE
Where(l, s) ==
  LET b == s \div l.spb o == s % l.spb IN
  IF l.kind = "image"
  THEN LET i == Index(l.array, LAMBDA x: x = b + 1) h == 8 + (i - 1) * l.spb + o IN
       IF i = 0 \/ h >= l.ends THEN Zero ELSE <<l.file, h>>
  ELSE LET i == Index(l.bands, LAMBDA x: x.b = b) IN
       IF i = 0 \/ o >= l.bands[i].n THEN Zero ELSE <<l.file, l.bands[i].h + o>>
Meta(l) == [size |-> l.size, block |-> l.spb * 512]
============================================================================
