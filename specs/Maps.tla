------------------------------- MODULE Maps -------------------------------
(* The two look-up structures between a disk image's tables and its reader: the block tree, a
   map from disjoint extents to values, and the block cache, a map that may forget. *)
EXTENDS Big, FiniteSets, SequencesExt, TLC
---------------------------------------------------------------------------
\* Block tree: the extents accepted so far, as a sequence of [off, len, val].
TreeInit == <<>>
\* a mod k for k up to 2^24: k divides 2^24, or a is small
BModOk(a, k) == BM % k = 0 \/ BFits(a)
BMod(a, k) == IF BM % k = 0 THEN a[3] % k ELSE BSmall(a) % k
Inside(x, p) == BLeq(x.off, p) /\ BLess(p, BAdd(x.off, x.len))
Overlap(x, y) == BLess(x.off, BAdd(y.off, y.len)) /\ BLess(y.off, BAdd(x.off, x.len))
Accepts(size, leaf, t, x) ==
  /\ BLeq(BAdd(x.off, x.len), size)
  /\ BMod(x.off, leaf) = 0 /\ BMod(x.len, leaf) = 0
  /\ \A i \in 1..Len(t): ~Overlap(t[i], x)
TreeGet(t, p) == LET S == {i \in 1..Len(t): Inside(t[i], p)} IN IF S = {} THEN <<>> ELSE <<t[CHOOSE i \in S: TRUE].val>>
TreeStep(size, leaf, t, e) ==
  CASE e.op = "get" -> [st |-> t, out |-> TreeGet(t, e.off)]
    [] e.op = "insert" ->
         LET x == [off |-> e.off, len |-> e.len, val |-> e.val] IN
         IF x.len = B0 THEN [st |-> t, out |-> <<-1>>]  \* an empty extent changes nothing
         ELSE IF Accepts(size, leaf, t, x) THEN [st |-> Append(t, x), out |-> <<1>>]
         ELSE [st |-> t, out |-> <<0>>]
---------------------------------------------------------------------------
\* Cache: vals is the last value given for each key that may still be held (-1: not held),
\* uses the keys in the order of their last use.
CacheInit(keys) == [vals |-> [k \in 0..keys - 1 |-> -1], uses |-> <<>>]
Use(s, k) == [s EXCEPT !.uses = Append(SelectSeq(@, LAMBDA x: x # k), k)]
\* how many other keys were used since k was
After(s, k) == LET P == {i \in 1..Len(s.uses): s.uses[i] = k} IN
  IF P = {} THEN 0 ELSE Len(s.uses) - (CHOOSE i \in P: TRUE)
Gone(s, k) == [s EXCEPT !.vals[k] = -1]
MayLack(cap, s, k) == s.vals[k] = -1 \/ After(s, k) >= cap
CacheStep(cap, s, e) ==
  CASE e.op = "insert" -> [st |-> IF cap = 0 THEN s ELSE Use([s EXCEPT !.vals[e.key] = e.val], e.key), out |-> <<0>>]
    [] e.op = "get" ->
         IF e.out = <<>> /\ MayLack(cap, s, e.key) THEN [st |-> Gone(s, e.key), out |-> <<>>]
         ELSE [st |-> s, out |-> IF s.vals[e.key] = -1 THEN <<>> ELSE <<s.vals[e.key]>>]
    [] e.op = "set" ->
         IF e.out = <<0>> /\ MayLack(cap, s, e.key) THEN [st |-> Gone(s, e.key), out |-> <<0>>]
         ELSE IF s.vals[e.key] = -1 THEN [st |-> s, out |-> <<0>>]
         ELSE [st |-> [s EXCEPT !.vals[e.key] = e.val], out |-> <<1>>]
    [] e.op = "keys" ->
         LET held == {e.out[i] : i \in 1..Len(e.out)}
             all == DOMAIN s.vals
         IN IF /\ Cardinality(held) <= cap
               /\ \A k \in held: k \in all /\ s.vals[k] # -1
               /\ \A k \in all \ held: MayLack(cap, s, k)
            THEN [st |-> [s EXCEPT !.vals = [k \in all |-> IF k \in held THEN s.vals[k] ELSE -1]], out |-> e.out]
            ELSE [st |-> s, out |-> <<-2>>]
===========================================================================
