------------------------------- MODULE MC_Ext -------------------------------
(* Writers of small files and directories, which keep what they mean to store (truth: a function of
   blocks, or the entries) next to the structures; what Ext derives from the structures is the truth.
   Blocks have two numbers each here (bs = 8), index nodes any number of entries. *)
EXTENDS Ext
CONSTANT MaxSteps
VARIABLES mode, truth, nums, blocks, leaves, low, dir, steps
vars == <<mode, truth, nums, blocks, leaves, low, dir, steps>>
Bs == 8
LastBlock == 25                \* 12 + 2 + 4 + 8 blocks
\* --- numbers of blocks: `blocks` are those in use (number -> values), data blocks are <<>>
LogicalPtrs == {0, 11, 12, 13, 14, 17, 18, 20, 25}
Free(b) == CHOOSE n \in 1..40 : n \notin DOMAIN b /\ \A k \in 1..n - 1 : k \in DOMAIN b
Slot(l) == IF l < 12 THEN l + 1 ELSE IF l < 14 THEN 13 ELSE IF l < 18 THEN 14 ELSE 15
\* the ways down: indexes within the blocks of numbers, from the top
Steps(l) == CASE l < 12 -> <<>> [] l \in 12..13 -> <<l - 12>> [] l \in 14..17 -> <<(l - 14) \div 2, (l - 14) % 2>>
              [] OTHER -> <<(l - 18) \div 4, ((l - 18) % 4) \div 2, (l - 18) % 2>>
\* b with the number at the end of the ways set to x, making blocks of numbers as needed
RECURSIVE SetBelow(_, _, _, _)
SetBelow(b, at, ways, x) ==
  IF Len(ways) = 1 THEN [b EXCEPT ![at][ways[1] + 1] = x]
  ELSE LET next == b[at][ways[1] + 1]
       IN IF next # 0 THEN SetBelow(b, next, Tail(ways), x)
          ELSE LET n == Free(b) IN SetBelow((n :> <<0, 0>>) @@ [b EXCEPT ![at][ways[1] + 1] = n], n, Tail(ways), x)
WritePtr(l) ==
  LET d == Free(blocks) b1 == (d :> <<>>) @@ blocks s == Slot(l) w == Steps(l) n == Free(b1)
  IN /\ truth[l] = 0 /\ truth' = [truth EXCEPT ![l] = d]
     /\ IF w = <<>> THEN nums' = [nums EXCEPT ![s] = d] /\ blocks' = b1
        ELSE IF nums[s] # 0 THEN UNCHANGED nums /\ blocks' = SetBelow(b1, nums[s], w, d)
        ELSE nums' = [nums EXCEPT ![s] = n] /\ blocks' = SetBelow((n :> <<0, 0>>) @@ b1, n, w, d)
\* a hole is made; blocks of numbers stay
PunchPtr(l) ==
  LET s == Slot(l) w == Steps(l) gone == [k \in DOMAIN blocks \ {truth[l]} |-> blocks[k]]
  IN /\ truth[l] # 0 /\ truth' = [truth EXCEPT ![l] = 0]
     /\ IF w = <<>> THEN nums' = [nums EXCEPT ![s] = 0] /\ blocks' = gone
        ELSE UNCHANGED nums /\ blocks' = SetBelow(gone, nums[s], w, 0)
\* --- extents: `leaves` are leaves of entries <<logical, count, physical>>; a root over more than one
TreeBlocks == 8
Flat == FlattenSeq(leaves)
Covers(x, l) == LET n == IF x[2] > 32768 THEN x[2] - 32768 ELSE x[2] IN x[1] <= l /\ l < x[1] + n
AddExtent(l, n, un) ==
  LET leaf == FoldLeft(LAMBDA a, k: IF k = 1 \/ (leaves[k] # <<>> /\ leaves[k][1][1] <= l) THEN k ELSE a, 1, [k \in 1..Len(leaves) |-> k])
      phys == 10 * (Len(Flat) + 1) + l
      x == <<l, IF un THEN n + 32768 ELSE n, phys>>
      here == leaves[leaf]
      before == SelectSeq(here, LAMBDA y: y[1] < l) after == SelectSeq(here, LAMBDA y: y[1] > l)
  IN /\ \A k \in l..l + n - 1 : \A i \in 1..Len(Flat) : ~Covers(Flat[i], k)
     /\ leaves' = [leaves EXCEPT ![leaf] = before \o <<x>> \o after]
     /\ truth' = [k \in DOMAIN truth |-> IF ~un /\ l <= k /\ k < l + n THEN phys + (k - l) ELSE truth[k]]
\* a reserved extent is written: its first block, or all of it
WriteReserved(i, j, all) ==
  LET x == leaves[i][j] n == x[2] - 32768
      one == IF all \/ n = 1 THEN <<<<x[1], n, x[3]>>>> ELSE <<<<x[1], 1, x[3]>>, <<x[1] + 1, x[2] - 1, x[3] + 1>>>>
      k == one[1][2]
  IN /\ x[2] > 32768
     /\ leaves' = [leaves EXCEPT ![i] = SubSeq(@, 1, j - 1) \o one \o SubSeq(@, j + 1, Len(@))]
     /\ truth' = [y \in DOMAIN truth |-> IF x[1] <= y /\ y < x[1] + k THEN x[3] + (y - x[1]) ELSE truth[y]]
Split(i, j) == /\ 1 <= j /\ j < Len(leaves[i])
               /\ leaves' = SubSeq(leaves, 1, i - 1) \o <<SubSeq(leaves[i], 1, j), SubSeq(leaves[i], j + 1, Len(leaves[i]))>> \o SubSeq(leaves, i + 1, Len(leaves))
               /\ UNCHANGED truth
\* --- a directory of blocks of entries
Names == {<<97>>, <<98>>, <<97, 98>>}
AddName(b, k, n) == /\ \A i \in 1..Len(dir) : \A j \in 1..Len(dir[i]) : dir[i][j].ino # 0 => dir[i][j].name # n
                    /\ dir' = [dir EXCEPT ![b] = SubSeq(@, 1, k) \o <<[ino |-> 11 + steps, name |-> n]>> \o SubSeq(@, k + 1, Len(@))]
                    /\ truth' = truth \cup {<<11 + steps, n>>}
\* the first entry of a block is marked, others are merged with the one before or marked
RemoveName(b, k, merge) ==
  LET x == dir[b][k]
  IN /\ x.ino # 0 /\ x.name \in Names
     /\ dir' = [dir EXCEPT ![b] = IF merge /\ k > 1 THEN RemoveAt(@, k) ELSE [@ EXCEPT ![k].ino = 0]]
     /\ truth' = truth \ {<<x.ino, x.name>>}
Dots == <<[ino |-> 2, name |-> <<46>>], [ino |-> 2, name |-> <<46, 46>>]>>
Init == /\ mode \in {"ptrs", "tree", "dir"} /\ steps = 0 /\ low \in BOOLEAN
        /\ nums = [k \in 1..15 |-> 0] /\ blocks = (1 :> <<>>)
        /\ leaves = <<<<>>>> /\ dir = <<Dots, <<[ino |-> 0, name |-> <<>>]>>>>
        /\ truth = CASE mode = "ptrs" -> [l \in 0..LastBlock |-> 0] [] mode = "tree" -> [l \in 0..TreeBlocks |-> 0] [] OTHER -> {}
Next ==
  /\ steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED <<mode, low>>
  /\ CASE mode = "ptrs" -> UNCHANGED <<leaves, dir>> /\ \E l \in LogicalPtrs : WritePtr(l) \/ PunchPtr(l)
       [] mode = "tree" -> UNCHANGED <<nums, blocks, dir>>
            /\ \/ \E l \in {0, 1, 3, 5} : \E n \in {1, 2, 3} : \E un \in BOOLEAN : AddExtent(l, n, un)
               \/ \E i \in 1..Len(leaves) : \E j \in 1..Len(leaves[i]) : \E all \in BOOLEAN : WriteReserved(i, j, all)
               \/ \E i \in 1..Len(leaves) : \E j \in 1..Len(leaves[i]) : Split(i, j)
       [] OTHER -> UNCHANGED <<nums, blocks, leaves>>
            /\ \/ \E b \in 1..2 : \E k \in 0..Len(dir[b]) : \E n \in Names : AddName(b, k, n)
               \/ \E b \in 1..2 : \E k \in 1..Len(dir[b]) : \E merge \in BOOLEAN : RemoveName(b, k, merge)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
RootRaw == [k \in 1..128 |-> CASE k = 2 -> 64 [] k = 5 -> 16 [] OTHER -> 0]
Vol == [bs |-> Bs, isize |-> 128,
        ptrs |-> SetToSeq({[at |-> k, runs |-> SelectSeq(<<[first |-> 0, values |-> <<blocks[k][1]>>], [first |-> 1, values |-> <<blocks[k][2]>>]>>, LAMBDA r: r.values # <<0>>)] :
                           k \in {n \in DOMAIN blocks : blocks[n] # <<>>}}),
        nodes |-> [i \in 1..Len(leaves) |-> [at |-> 1000 + i, depth |-> 0, entries |-> leaves[i]]],
        dirs |-> <<[at |-> 5, entries |-> dir[1]], [at |-> 7, entries |-> dir[2]]>>]
\* the first entry of a root may begin before the leaf does
Root == IF Len(leaves) = 1 THEN [depth |-> 0, entries |-> leaves[1]]
        ELSE [depth |-> 1, entries |-> [i \in 1..Len(leaves) |-> <<IF i = 1 /\ low THEN 0 ELSE leaves[i][1][1], 0, 1000 + i>>]]
Ref == CASE mode = "ptrs" -> [kind |-> "ptrs", nums |-> nums]
         [] mode = "tree" -> [kind |-> "tree", depth |-> Root.depth, entries |-> Root.entries]
         [] OTHER -> [kind |-> "ptrs", nums |-> [k \in 1..15 |-> CASE k = 1 -> 5 [] k = 2 -> 7 [] OTHER -> 0]]
MapsWhatIsStored == mode # "dir" => \A l \in DOMAIN truth : Block(Vol, Ref, l) = truth[l]
NoBlockTwice == mode # "dir" => \A l, m \in DOMAIN truth : (l # m /\ truth[l] # 0) => Block(Vol, Ref, m) # Block(Vol, Ref, l)
Listed == Entries(Vol, [raw |-> RootRaw, ref |-> Ref])
ListsWhatIsLinked == mode = "dir" => {<<Listed[i].ino, Listed[i].name>> : i \in 1..Len(Listed)} = truth /\ Len(Listed) = Cardinality(truth)
\* the sectors of a block are those of where it is stored
SectorsFollow == mode = "tree" => \A l \in DOMAIN truth : (LET v == [Vol EXCEPT !.bs = 1024] IN
  \A k \in 0..1 : Where(v, Ref, (2 * l) + k) = IF truth[l] = 0 THEN Zero ELSE <<1, (2 * truth[l]) + k>>)
=============================================================================
