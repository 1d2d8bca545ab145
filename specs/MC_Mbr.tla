------------------------------ MODULE MC_Mbr ------------------------------
(* A partitioning tool.  Primary partitions take free slots of the master boot record; one may
   be an extended partition, in which each logical partition has a boot record just before it,
   linked in the order they were made.  A logical partition is deleted by taking its boot
   record out of the chain or, the first one, by clearing its entry.  The list is what was made
   and not deleted: primary partitions by slot, then logical ones in the order of the chain. *)
EXTENDS Mbr, Json
CONSTANTS MaxSteps, U
VARIABLES prim, ext, logs, n
vars == <<prim, ext, logs, n>>
\* prim: slot -> start (0: free) or "ext"; partitions of one unit at 10 * number; logs: starts of
\* the boot records in the chain, with whether the entry is in use
Init == prim = [i \in 1..4 |-> 0] /\ ext = 0 /\ logs = <<>> /\ n = 1
ExtAt == 100
MakePrimary(i) == prim[i] = 0 /\ prim' = [prim EXCEPT ![i] = 10 * n] /\ UNCHANGED <<ext, logs>>
MakeExtended(i, t) == prim[i] = 0 /\ ext = 0 /\ ext' = t /\ prim' = [prim EXCEPT ![i] = ExtAt] /\ logs' = <<[at |-> ExtAt, used |-> FALSE, second |-> FALSE]>>
MakeLogical(second) ==
  /\ ext # 0 /\ UNCHANGED <<prim, ext>>
  /\ LET free == SelectInSeq(logs, LAMBDA x: ~x.used) IN
     IF free # 0 THEN logs' = [logs EXCEPT ![free].used = TRUE, ![free].second = second]
     ELSE logs' = Append(logs, [at |-> ExtAt + (10 * n), used |-> TRUE, second |-> second])
DeleteLogical(j) ==
  /\ j \in 1..Len(logs) /\ logs[j].used /\ UNCHANGED <<prim, ext>>
  /\ logs' = IF j = 1 THEN [logs EXCEPT ![1].used = FALSE] ELSE SubSeq(logs, 1, j - 1) \o SubSeq(logs, j + 1, Len(logs))
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E i \in 1..4: MakePrimary(i) \/ \E t \in {5, 15}: MakeExtended(i, t)
           \/ \E b \in BOOLEAN: MakeLogical(b)
           \/ \E j \in 1..Len(logs): DeleteLogical(j)
Spec == Init /\ [][Next]_vars
None == [t |-> 0, start |-> 0, n |-> 0, flags |-> 0]
E(t, start, k) == [t |-> t, start |-> start, n |-> k, flags |-> 0]
Ebr(j) ==
  LET x == logs[j]
      data == IF x.used THEN E(7, 2, 3) ELSE None
      link == IF j < Len(logs) THEN E(5, logs[j + 1].at - ExtAt, 5) ELSE None
  IN [at |-> x.at * U, sig |-> TRUE, entries |-> IF x.second THEN <<link, data, None, None>> ELSE <<data, link, None, None>>]
Image == [given |-> 0, sectors |-> 300 * U, id |-> 77, loose |-> FALSE, bps512 |-> FALSE, runs |-> <<>>,
  records |-> <<[at |-> 0, sig |-> TRUE, entries |-> [i \in 1..4 |-> IF prim[i] = 0 THEN None ELSE IF prim[i] = ExtAt THEN E(ext, ExtAt, 150) ELSE E(131, prim[i], 4)]]>>
             \o [j \in 1..Len(logs) |-> Ebr(j)]]
Made ==
  LET ps == SelectSeq(<<1, 2, 3, 4>>, LAMBDA i: prim[i] \notin {0, ExtAt})
      ls == SelectSeq(logs, LAMBDA x: x.used)
  IN [k \in 1..Len(ps) |-> <<prim[ps[k]] * U, 4 * U, 131>>] \o [k \in 1..Len(ls) |-> <<(ls[k].at + 2) * U, 3 * U, 7>>]
ListsMade == LET r == List(Image, U) IN r.ok /\ [k \in 1..Len(r.parts) |-> <<r.parts[k].off, r.parts[k].n, r.parts[k].type>>] = Made
\* the index of an entry is found again: no two partitions have the same
Indexes == LET p == List(Image, U).parts IN \A i, j \in 1..Len(p): i < j => p[i].index < p[j].index
\* an extended partition tells the size of sectors
SizeKnown == ext # 0 => Candidates(Image) = {U}
Show == n = MaxSteps => PrintT("IMAGE " \o ToJson(Image))
===========================================================================
