------------------------------ MODULE MC_Maps ------------------------------
(* The block tree as it is meant to work, a radix tree of nodes whose elements are either a
   value or a sub node, refines the map from extents: every sequence of insertions over a small
   range, also unaligned, overlapping and beyond the end, with every look-up. And a least
   recently used cache is one of the caches of Maps. The histories are printed. *)
EXTENDS Maps, Json
CONSTANTS Size, Leaf, Epn, MaxOps, Cap, Keys
VARIABLES hist, map, tree, lru, cst, chist
vars == <<hist, map, tree, lru, cst, chist>>
\* a tree is a function from <<depth, index>> to values; elements at depth d are of Span(d)
RECURSIVE Span(_)
Span(d) == IF d = 0 THEN Leaf ELSE Epn * Span(d - 1)
Depth == CHOOSE d \in 0..8: (d = 0 \/ Size \div Span(d - 1) > Epn) /\ Size \div Span(d) <= Epn
\* the elements that cover [off, end) with the largest elements possible
Cover(off, end) ==
  {x \in UNION {{<<d, i>> : i \in 0..(Size \div Span(d))} : d \in 0..Depth} :
    /\ off <= x[2] * Span(x[1]) /\ (x[2] + 1) * Span(x[1]) <= end
    /\ \/ x[1] = Depth
       \/ LET p == x[2] \div Epn IN ~(off <= p * Span(x[1] + 1) /\ (p + 1) * Span(x[1] + 1) <= end)}
RadixGet(o) == LET S == {x \in DOMAIN tree: x[2] = o \div Span(x[1])} IN IF S = {} THEN <<>> ELSE <<tree[CHOOSE x \in S: TRUE]>>
Insert(o, n) ==
  LET e == [op |-> "insert", off |-> BInt(o), len |-> BInt(n), val |-> Len(hist) + 1]
      r == TreeStep(BInt(Size), Leaf, map, e)
  IN /\ map' = r.st
     /\ tree' = IF r.out = <<1>> THEN [x \in DOMAIN tree \cup Cover(o, o + n) |-> IF x \in DOMAIN tree THEN tree[x] ELSE e.val] ELSE tree
     /\ hist' = Append(hist, <<o, n>>)
     /\ UNCHANGED <<lru, cst, chist>>
\* the reference cache: least recently inserted goes first
CInsert(k) ==
  LET v == Len(chist) + 1
      keep == SelectSeq(lru, LAMBDA x: x[1] # k)
      room == IF Len(keep) >= Cap /\ Cap > 0 THEN Tail(keep) ELSE keep
  IN /\ lru' = IF Cap = 0 THEN <<>> ELSE Append(room, <<k, v>>)
     /\ cst' = CacheStep(Cap, cst, [op |-> "insert", key |-> k, val |-> v, out |-> <<0>>]).st
     /\ chist' = Append(chist, <<"i", k>>)
     /\ UNCHANGED <<hist, map, tree>>
CSet(k) ==
  LET v == Len(chist) + 1
      has == \E i \in 1..Len(lru): lru[i][1] = k
      r == CacheStep(Cap, cst, [op |-> "set", key |-> k, val |-> v, out |-> IF has THEN <<1>> ELSE <<0>>])
  IN /\ lru' = [i \in 1..Len(lru) |-> IF lru[i][1] = k THEN <<k, v>> ELSE lru[i]]
     /\ cst' = r.st
     /\ chist' = Append(chist, <<"s", k>>)
     /\ UNCHANGED <<hist, map, tree>>
Init == /\ hist = <<>> /\ map = TreeInit /\ tree = [x \in {} |-> 0]
        /\ lru = <<>> /\ cst = CacheInit(Keys) /\ chist = <<>>
Next == \/ chist = <<>> /\ Len(hist) < MaxOps /\ \E o \in 0..Size, n \in 0..Size + 1: Insert(o, n)
        \/ hist = <<>> /\ Len(chist) < MaxOps + 3 /\ \E k \in 0..Keys - 1: CInsert(k) \/ CSet(k)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Refines == \A o \in 0..Size: RadixGet(o) = TreeGet(map, BInt(o))
Disjoint == \A i, j \in 1..Len(map): i # j => ~Overlap(map[i], map[j])
Within == \A i \in 1..Len(map): BLeq(BAdd(map[i].off, map[i].len), BInt(Size))
Held == {lru[i][1] : i \in 1..Len(lru)}
CacheRefines ==
  /\ Len(lru) <= Cap
  /\ \A k \in 0..Keys - 1:
       IF k \in Held THEN cst.vals[k] = lru[CHOOSE i \in 1..Len(lru): lru[i][1] = k][2]
       ELSE MayLack(Cap, cst, k)
Show == LET full == Len(hist) = MaxOps /\ Len(map) > 0 IN
  /\ full => PrintT("TREE " \o ToJson(hist))
  /\ Len(chist) = MaxOps + 3 => PrintT("CACHE " \o ToJson(chist))
============================================================================
