------------------------------- MODULE Vhd -------------------------------
(* Virtual Hard Disk images.  An image is a sequence of layers from the base to the one that is
   opened; a layer has its kind, "fixed", "dynamic" or "diff", the number of sectors per block,
   and a sequence of allocated blocks: block number b, host sector h of the block's data (after
   its sector bitmap), and the runs <<first, number>> of sectors marked in the bitmap. *)
EXTENDS Disk
Marked(x, o) == \E i \in 1..Len(x.runs): x.runs[i][1] <= o /\ o < x.runs[i][1] + x.runs[i][2]
RECURSIVE Where(_, _, _)
Where(layers, k, s) ==
  LET l == layers[k] IN
  IF l.kind = "fixed" THEN <<l.file, s>>
  ELSE LET b == s \div l.spb o == s % l.spb
           S == {i \in 1..Len(l.blocks): l.blocks[i].b = b /\ Marked(l.blocks[i], o)}
       IN IF S # {} THEN <<l.file, l.blocks[CHOOSE i \in S: TRUE].h + o>>
          ELSE IF l.kind = "dynamic" THEN Zero
          ELSE Where(layers, k - 1, s)
LayerMeta(l) ==
  [type |-> l.kind, size |-> l.size, id |-> l.id, parent |-> l.pid, bps |-> 512,
   block |-> IF l.kind = "fixed" THEN 0 ELSE l.spb * 512, pname |-> l.pname]
Meta(layers) == [k \in 1..Len(layers) |-> LayerMeta(layers[k])]
\* a layer's parent has to be the one it names
WellFormed(layers) == \A k \in 1..Len(layers): layers[k].sound /\ (k > 1 => layers[k].pid = layers[k - 1].id)
==========================================================================
