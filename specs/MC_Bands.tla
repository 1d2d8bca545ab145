------------------------------ MODULE MC_Bands ------------------------------
(* A writer that follows the format: a sector is written to its band, which is put into the
   first unused place of the array, or whose file grows up to what was written; bands are
   given up.  The disk shows what was last written, and zeros where nothing was. *)
EXTENDS Bands, Json, Sequences
CONSTANTS Sectors, Spb, MaxWrites, Kind
VARIABLES l, shown, store, n
vars == <<l, shown, store, n>>
Init ==
  /\ l = [kind |-> Kind, file |-> 1, spb |-> Spb, array |-> <<>>, ends |-> 8, bands |-> <<>>]
  /\ shown = [s \in 0..Sectors - 1 |-> 0]
  /\ store = [x \in {} |-> 0] /\ n = 0
Put(f, X, v) == [y \in DOMAIN f \cup X |-> IF y \in X THEN v ELSE f[y]]
Cut(f, X) == [y \in DOMAIN f \ X |-> f[y]]
Max(a, b) == IF a < b THEN b ELSE a
Version(w) == IF w = Zero \/ w \notin DOMAIN store THEN 0 ELSE store[w]
Write(s) ==
  LET b == s \div Spb o == s % Spb IN
  /\ n < MaxWrites /\ n' = n + 1 /\ shown' = [shown EXCEPT ![s] = n + 1]
  /\ IF Kind = "image"
     THEN LET i == Index(l.array, LAMBDA x: x = b + 1)
              free == Index(l.array, LAMBDA x: x = 0)
              at == IF i # 0 THEN i ELSE IF free # 0 THEN free ELSE Len(l.array) + 1
              h == 8 + (at - 1) * Spb + o
              \* a place that is used again is cleared
              old == IF i # 0 THEN {} ELSE {<<1, 8 + (at - 1) * Spb + x>> : x \in 0..Spb - 1}
          IN /\ l' = [l EXCEPT !.array = IF at <= Len(@) THEN [@ EXCEPT ![at] = b + 1] ELSE Append(@, b + 1), !.ends = Max(@, h + 1)]
             /\ store' = Put(Cut(store, old), {<<1, h>>}, n + 1)
     ELSE LET i == Index(l.bands, LAMBDA x: x.b = b)
              x == IF i = 0 THEN [b |-> b, h |-> 100 * (n + 1), n |-> o + 1] ELSE [l.bands[i] EXCEPT !.n = Max(@, o + 1)]
          IN /\ l' = [l EXCEPT !.bands = IF i = 0 THEN Append(@, x) ELSE [@ EXCEPT ![i] = x]]
             /\ store' = Put(store, {<<1, x.h + o>>}, n + 1)
GiveUp(b) ==
  /\ n < MaxWrites /\ n' = n + 1
  /\ shown' = [s \in DOMAIN shown |-> IF s \div Spb = b THEN 0 ELSE shown[s]]
  /\ UNCHANGED store
  /\ IF Kind = "image"
     THEN LET i == Index(l.array, LAMBDA x: x = b + 1) IN i # 0 /\ l' = [l EXCEPT !.array[i] = 0]
     ELSE LET i == Index(l.bands, LAMBDA x: x.b = b) IN i # 0 /\ l' = [l EXCEPT !.bands = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
Next == (\E s \in 0..Sectors - 1: Write(s)) \/ \E b \in 0..(Sectors - 1) \div Spb: GiveUp(b)
Spec == Init /\ [][Next]_vars
ShowsLast == \A s \in 0..Sectors - 1: Version(Where(l, s)) = shown[s]
Apart == \A s, t \in 0..Sectors - 1: LET a == Where(l, s) b == Where(l, t) IN s # t /\ a # Zero => a # b
Show == n = MaxWrites => PrintT("IMAGE " \o ToJson(l))
============================================================================
