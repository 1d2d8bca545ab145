------------------------------- MODULE Vhdx -------------------------------
(* Virtual Hard Disk version 2 images.  A layer has its kind, the number of sectors (of 512
   bytes) per block, its block allocation table as a sequence of entries that are not 0: block
   number b, state, host sector h, and for a partially present block the runs of sectors that
   the sector bitmap marks.  States: 0 not present, 1 undefined, 2 zero, 3 unmapped, 6 fully
   present, 7 partially present.  The identity of a layer is that of its current image header:
   of two, the sound one with the higher sequence number. *)
EXTENDS Disk
Marked(x, o) == \E i \in 1..Len(x.runs): x.runs[i][1] <= o /\ o < x.runs[i][1] + x.runs[i][2]
State(l, b) == LET S == {i \in 1..Len(l.blocks): l.blocks[i].b = b} IN IF S = {} THEN 0 ELSE CHOOSE i \in S: TRUE
RECURSIVE Where(_, _, _)
Where(layers, k, s) ==
  LET l == layers[k] b == s \div l.spb o == s % l.spb i == State(l, b) IN
  IF i = 0 THEN IF l.kind = "diff" THEN Where(layers, k - 1, s) ELSE Zero
  ELSE LET x == l.blocks[i] IN
    CASE x.state = 6 -> <<l.file, x.h + o>>
      [] x.state = 7 -> IF Marked(x, o) THEN <<l.file, x.h + o>> ELSE Where(layers, k - 1, s)
      [] x.state = 0 /\ l.kind = "diff" -> Where(layers, k - 1, s)
      [] OTHER -> Zero
---------------------------------------------------------------------------
\* headers: [ok, seq, id]; the position of the current one, 0 if there is none
Current(heads) ==
  IF ~\E i \in 1..Len(heads): heads[i].ok THEN 0
  ELSE CHOOSE i \in 1..Len(heads): heads[i].ok /\ \A j \in 1..Len(heads): heads[j].ok => BLeq(heads[j].seq, heads[i].seq)
\* a layer opens with a sound header and region table of the two each
Readable(l) == l.sound /\ Current(l.heads) # 0 /\ \E i \in 1..Len(l.regions): l.regions[i]
Id(l) == l.heads[Current(l.heads)].id
LayerMeta(l) ==
  [type |-> l.kind, size |-> l.size, id |-> Id(l), parent |-> l.pid, bps |-> l.bps, block |-> l.spb * 512, pname |-> l.pname, version |-> 1]
Meta(layers) == [k \in 1..Len(layers) |-> LayerMeta(layers[k])]
WellFormed(layers) ==
  /\ \A k \in 1..Len(layers): Readable(layers[k])
  /\ \A k \in 2..Len(layers): layers[k].pid = Id(layers[k - 1])
==========================================================================
