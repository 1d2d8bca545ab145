------------------------------ MODULE MC_Vhdx ------------------------------
(* A writer that follows the format: writes of a sector and of a whole block, discards, and
   snapshots that put a differential layer on top.  Whatever the history, every layer shows what
   was last written before the layer was frozen.  Headers are updated in turn and an update
   may be torn: the current header is always the last that was written completely. *)
EXTENDS Vhdx, Json, Sequences
CONSTANTS Sectors, Spb, MaxWrites, MaxLayers, Base, MaxUpdates
VARIABLES layers, shown, store, next, n, heads, last
vars == <<layers, shown, store, next, n, heads, last>>
New(kind, k) == [kind |-> kind, file |-> k, spb |-> Spb, blocks |-> <<>>]
Blocks == (Sectors + Spb - 1) \div Spb
Full(k) == [New("fixed", k) EXCEPT !.blocks = [i \in 1..Blocks |-> [b |-> i - 1, state |-> 6, h |-> 10 + (i - 1) * Spb, runs |-> <<>>]]]
Init ==
  /\ layers = <<IF Base = "fixed" THEN Full(1) ELSE New(Base, 1)>> /\ next = <<30>> /\ n = 0
  /\ shown = <<[s \in 0..Sectors - 1 |-> 0]>>
  /\ store = [x \in {} |-> 0]
  /\ heads = <<[ok |-> TRUE, seq |-> BInt(1), id |-> 1], [ok |-> FALSE, seq |-> BInt(0), id |-> 0]>> /\ last = 1
Put(f, X, v) == [y \in DOMAIN f \cup X |-> IF y \in X THEN v ELSE f[y]]
In(b) == {s \in 0..Sectors - 1: s \div Spb = b}
Top == Len(layers)
Alloc(b, state, runs) ==
  LET i == State(layers[Top], b)
      x == [b |-> b, state |-> state, h |-> IF i # 0 /\ layers[Top].blocks[i].state \in {6, 7} THEN layers[Top].blocks[i].h ELSE next[Top], runs |-> runs]
  IN /\ layers' = [layers EXCEPT ![Top].blocks = IF i = 0 THEN Append(@, x) ELSE [@ EXCEPT ![i] = x]]
     /\ next' = IF x.h = next[Top] THEN [next EXCEPT ![Top] = @ + Spb] ELSE next
     /\ UNCHANGED <<heads, last>>
NewAt(b) == LET i == State(layers[Top], b) IN
  IF i # 0 /\ layers[Top].blocks[i].state \in {6, 7} THEN layers[Top].blocks[i].h ELSE next[Top]
Write(s) ==
  LET b == s \div Spb o == s % Spb i == State(layers[Top], b) v == n + 1
      st == IF i = 0 THEN 0 ELSE layers[Top].blocks[i].state
      part == layers[Top].kind = "diff" /\ st \in {0, 7}
      runs == IF st = 7 THEN layers[Top].blocks[i].runs ELSE <<>>
  IN /\ n < MaxWrites /\ n' = n + 1
     /\ shown' = [shown EXCEPT ![Top][s] = v]
     /\ store' = Put(store, {<<Top, NewAt(b) + o>>}, v)
     /\ IF part THEN Alloc(b, 7, IF \E j \in 1..Len(runs): runs[j][1] = o THEN runs ELSE Append(runs, <<o, 1>>)) ELSE Alloc(b, 6, <<>>)
WriteBlock(b) ==
  /\ n < MaxWrites /\ n' = n + 1
  /\ shown' = [shown EXCEPT ![Top] = [s \in DOMAIN @ |-> IF s \in In(b) THEN n + 1 ELSE @[s]]]
  /\ store' = Put(store, {<<Top, NewAt(b) + (s % Spb)>> : s \in In(b)}, n + 1)
  /\ Alloc(b, 6, <<>>)
Discard(b) ==
  /\ layers[Top].kind # "fixed"
  /\ n < MaxWrites /\ n' = n + 1
  /\ shown' = [shown EXCEPT ![Top] = [s \in DOMAIN @ |-> IF s \in In(b) THEN 0 ELSE @[s]]]
  \* a block that is discarded is given up: its place is not used again
  /\ Alloc(b, 2, <<>>) /\ UNCHANGED store
Snapshot ==
  /\ Len(layers) < MaxLayers
  /\ layers' = Append(layers, New("diff", Len(layers) + 1))
  /\ shown' = Append(shown, shown[Len(shown)])
  /\ next' = Append(next, 30)
  /\ UNCHANGED <<store, n, heads, last>>
\* the header that is not current is overwritten; torn tells that it was not completed
Update(torn) ==
  LET c == Current(heads) o == 3 - c
      x == [ok |-> ~torn, seq |-> BAdd(heads[c].seq, BInt(1)), id |-> last + 1]
  IN /\ last < MaxUpdates
     /\ heads' = [heads EXCEPT ![o] = x]
     /\ last' = last + 1
     /\ UNCHANGED <<layers, shown, store, next, n>>
Next == \/ MaxUpdates = 1 /\ (Snapshot \/ (\E s \in 0..Sectors - 1: Write(s)) \/ \E b \in 0..Blocks - 1: WriteBlock(b) \/ Discard(b))
        \/ n = 0 /\ Len(layers) = 1 /\ \E t \in BOOLEAN: Update(t)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Version(w) == IF w = Zero \/ w \notin DOMAIN store THEN 0 ELSE store[w]
ShowsLast == \A k \in 1..Len(layers): \A s \in 0..Sectors - 1: Version(Where(layers, k, s)) = shown[k][s]
Apart == \A k \in 1..Len(layers): \A s, t \in 0..Sectors - 1:
  LET a == Where(layers, k, s) b == Where(layers, k, t) IN s # t /\ a # Zero => a # b
\* there is always a current header; a torn update leaves the one before current
OneCurrent == Current(heads) # 0
TornKeeps == [][\A t \in BOOLEAN: Update(t) => Id([heads |-> heads'])  = IF t THEN Id([heads |-> heads]) ELSE last']_vars
Show == /\ n = MaxWrites => PrintT("IMAGE " \o ToJson(layers))
        /\ last = MaxUpdates /\ last > 1 => PrintT("HEADS " \o ToJson(heads))
===========================================================================
