------------------------------ MODULE MC_Apm ------------------------------
(* A partitioning tool keeps a map that covers the disk: free space is split into a new
   partition and what is left, and partitions become free space, which is joined with free
   space next to it.  Entries are in the order of the disk. *)
EXTENDS Apm, Json
CONSTANTS Size, MapSize, MaxSteps
VARIABLES used, n            \* partitions <<start, size, name>> in use
vars == <<used, n>>
Init == used = <<>> /\ n = 0
Free == LET Gaps(prev, rest) == [k \in 1..Len(rest) + 1 |->
              LET from == IF k = 1 THEN prev ELSE rest[k - 1][1] + rest[k - 1][2]
                  to == IF k > Len(rest) THEN Size ELSE rest[k][1] IN <<from, to - from>>]
        IN Gaps(MapSize + 1, used)
Insert(x) == SelectSeq(used, LAMBDA y: y[1] < x[1]) \o <<x>> \o SelectSeq(used, LAMBDA y: y[1] > x[1])
Make(k, size) == Free[k][2] >= size /\ used' = Insert(<<Free[k][1], size, n>>)
Delete(k) == used' = SubSeq(used, 1, k - 1) \o SubSeq(used, k + 1, Len(used))
Next == n < MaxSteps /\ n' = n + 1 /\ ((\E k \in 1..Len(used) + 1, size \in 1..4: Make(k, size)) \/ \E k \in 1..Len(used): Delete(k))
Spec == Init /\ [][Next]_vars
All == LET gaps == SelectSeq(Free, LAMBDA g: g[2] > 0)
           items == [k \in 1..Len(gaps) |-> <<gaps[k][1], gaps[k][2], -1>>] \o used
       IN SortSeq(items, LAMBDA a, b: a[1] < b[1])
Entry(x, count) == [sig |-> "PM", count |-> count, start |-> x[1], n |-> x[2], flags |-> IF x[3] = -1 THEN 0 ELSE 51,
  name |-> IF x[3] = -1 THEN "" ELSE "part " \o ToString(x[3]), type |-> IF x[3] = -1 THEN "Apple_Free" ELSE "Apple_HFS"]
Image == LET c == Len(All) + 1 IN [sectors |-> Size, loose |-> FALSE, runs |-> <<>>,
  entries |-> <<[sig |-> "PM", count |-> c, start |-> 1, n |-> MapSize, flags |-> 3, name |-> "Apple", type |-> "Apple_partition_map"]>>
              \o [k \in 1..Len(All) |-> Entry(All[k], c)]]
\* the list covers the disk behind the map once, and has what was made
Covers == LET p == Parts(Image) IN
  /\ Sound(Image)
  /\ FoldLeft(LAMBDA a, x: IF x.off = a THEN a + x.n ELSE -1, MapSize + 1, p) = Size
  /\ {<<p[i].off, p[i].n>> : i \in {j \in 1..Len(p): p[j].type = "Apple_HFS"}} = {<<used[i][1], used[i][2]>> : i \in 1..Len(used)}
Show == n = MaxSteps => PrintT("IMAGE " \o ToJson(Image))
===========================================================================
