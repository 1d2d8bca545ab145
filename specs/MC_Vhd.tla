------------------------------ MODULE MC_Vhd ------------------------------
(* A writer that follows the format: writes go to the topmost layer, allocating its blocks as
   needed, snapshots put a differential layer on top.  Whatever the history, every layer shows
   what was last written before the layer was frozen. *)
EXTENDS Vhd, Json, Sequences
CONSTANTS Sectors, Spb, MaxWrites, MaxLayers, Base
VARIABLES layers, shown, store, next, n
vars == <<layers, shown, store, next, n>>
\* shown[k][s]: version of sector s that layer k has to show; store: host sector -> version
New(kind, k) == [kind |-> kind, file |-> k, spb |-> Spb, blocks |-> <<>>]
Init ==
  /\ layers = <<New(Base, 1)>> /\ next = <<10>> /\ n = 0
  /\ shown = <<[s \in 0..Sectors - 1 |-> 0]>>
  /\ store = [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Write(s) ==
  LET t == Len(layers) l == layers[t] b == s \div Spb o == s % Spb v == n + 1
      S == {i \in 1..Len(l.blocks): l.blocks[i].b = b}
  IN /\ n < MaxWrites /\ n' = n + 1
     /\ shown' = [shown EXCEPT ![t][s] = v]
     /\ IF l.kind = "fixed" THEN store' = Put(store, <<t, s>>, v) /\ UNCHANGED <<layers, next>>
        ELSE IF S = {} THEN
          /\ layers' = [layers EXCEPT ![t].blocks = Append(@, [b |-> b, h |-> next[t], runs |-> <<<<o, 1>>>>])]
          /\ next' = [next EXCEPT ![t] = @ + Spb + 1]
          /\ store' = Put(store, <<t, next[t] + o>>, v)
        ELSE LET i == CHOOSE i \in S: TRUE IN
          /\ layers' = [layers EXCEPT ![t].blocks[i].runs = IF Marked(l.blocks[i], o) THEN @ ELSE Append(@, <<o, 1>>)]
          /\ store' = Put(store, <<t, l.blocks[i].h + o>>, v)
          /\ UNCHANGED next
Snapshot ==
  /\ Len(layers) < MaxLayers
  /\ layers' = Append(layers, New("diff", Len(layers) + 1))
  /\ shown' = Append(shown, shown[Len(shown)])
  /\ next' = Append(next, 10)
  /\ UNCHANGED <<store, n>>
Next == Snapshot \/ \E s \in 0..Sectors - 1: Write(s)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Version(w) == IF w = Zero \/ w \notin DOMAIN store THEN 0 ELSE store[w]
ShowsLast == \A k \in 1..Len(layers): \A s \in 0..Sectors - 1: Version(Where(layers, k, s)) = shown[k][s]
\* no two sectors of a layer's disk are stored at the same place
Apart == \A k \in 1..Len(layers): \A s, t \in 0..Sectors - 1:
  LET a == Where(layers, k, s) b == Where(layers, k, t) IN s # t /\ a # Zero => a # b
Show == n = MaxWrites => PrintT("IMAGE " \o ToJson(layers))
View == <<layers, shown, store, next, n>>
===========================================================================
