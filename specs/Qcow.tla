------------------------------- MODULE Qcow -------------------------------
(* QEMU copy-on-write images, version 1, 2 and 3.  A layer has its version, the number of
   sectors per cluster (spc), of clusters per level 2 table (cpt), of sectors of its disk, its
   level 1 table as a sequence of tables [t, entries] for the entries that are not 0, and the
   entries of a table as a sequence [i, kind, h].  Kinds: "raw", stored at host sector h;
   "comp", compressed, with the contents that Pattern has for h; "zero", reads as zeros
   whether or not a cluster is reserved for it.  What has no table or no entry is in the
   backing file, which is the layer below, and zero past the end of that. *)
EXTENDS Disk
Find(seq, P(_)) == LET S == {i \in 1..Len(seq): P(seq[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S: TRUE
\* the entry of cluster c, <<>> if there is none
EntryOf(l, c) ==
  LET t == Find(l.tables, LAMBDA x: x.t = c \div l.cpt) IN
  IF t = 0 THEN <<>>
  ELSE LET E == l.tables[t].entries i == Find(E, LAMBDA x: x.i = c % l.cpt) IN IF i = 0 THEN <<>> ELSE <<E[i]>>
RECURSIVE Where(_, _, _)
Where(layers, k, s) ==
  IF k = 0 THEN Zero
  ELSE IF s >= layers[k].sectors THEN Zero
  ELSE LET l == layers[k] e == EntryOf(l, s \div l.spc) IN
    IF e = <<>> THEN Where(layers, k - 1, s)
    ELSE IF e[1].kind = "zero" THEN Zero
    ELSE <<l.file, e[1].h + (s % l.spc)>>
---------------------------------------------------------------------------
LayerMeta(l) == [version |-> l.ver, size |-> l.size, backing |-> l.pname, comp |-> "zlib", enc |-> "none"]
Meta(layers) == [k \in 1..Len(layers) |-> LayerMeta(layers[k])]
WellFormed(layers) == \A k \in 1..Len(layers): layers[k].sound
===========================================================================
