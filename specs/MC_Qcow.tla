------------------------------ MODULE MC_Qcow ------------------------------
(* A writer that follows the format: sectors are written (the rest of a cluster that gets
   stored is copied from what it showed), clusters are compressed and zeroed, and overlays of
   the same or another size are put on top.  Whatever the history, every layer shows what was
   last written before it was frozen, and zeros where nothing was. *)
EXTENDS Qcow, Json, Sequences
CONSTANTS Sectors, Spc, Cpt, MaxWrites, MaxLayers, Ver
VARIABLES layers, shown, store, next, n
vars == <<layers, shown, store, next, n>>
New(k, s) == [file |-> k, ver |-> Ver, spc |-> Spc, cpt |-> Cpt, sectors |-> s, tables |-> <<>>]
Init ==
  /\ \E s \in {Sectors, Sectors - 2}: layers = <<New(1, s)>> /\ shown = <<[x \in 0..s - 1 |-> 0]>>
  /\ next = <<10>> /\ n = 0
  /\ store = [x \in {} |-> 0]
Put(f, X, v(_)) == [y \in DOMAIN f \cup X |-> IF y \in X THEN v(y) ELSE f[y]]
Top == Len(layers)
T == layers[Top]
In(c) == {s \in 0..T.sectors - 1: s \div Spc = c}
Clusters == (T.sectors + Spc - 1) \div Spc
Version(w) == IF w = Zero \/ w \notin DOMAIN store THEN 0 ELSE store[w]
SetEntry(c, kind, h) ==
  LET t == Find(T.tables, LAMBDA x: x.t = c \div Cpt)
      e == [i |-> c % Cpt, kind |-> kind, h |-> h]
      E == IF t = 0 THEN <<>> ELSE T.tables[t].entries
      i == Find(E, LAMBDA x: x.i = c % Cpt)
      E2 == IF i = 0 THEN Append(E, e) ELSE [E EXCEPT ![i] = e]
  IN layers' = [layers EXCEPT ![Top].tables = IF t = 0 THEN Append(@, [t |-> c \div Cpt, entries |-> E2]) ELSE [@ EXCEPT ![t].entries = E2]]
\* the contents new of the cluster are stored at new sectors, or in place
Store(c, kind, new(_)) ==
  LET e == EntryOf(T, c)
      place == IF kind = "raw" /\ e # <<>> /\ e[1].kind = "raw" THEN e[1].h ELSE next[Top]
  IN /\ n < MaxWrites /\ n' = n + 1
     /\ shown' = [shown EXCEPT ![Top] = [s \in DOMAIN @ |-> IF s \in In(c) THEN new(s) ELSE @[s]]]
     /\ store' = Put(store, {<<Top, place + (s % Spc)>> : s \in In(c)}, LAMBDA y: new(c * Spc + y[2] - place))
     /\ SetEntry(c, kind, place)
     /\ next' = IF place = next[Top] THEN [next EXCEPT ![Top] = @ + Spc] ELSE next
Write(s) == Store(s \div Spc, "raw", LAMBDA x: IF x = s THEN n + 1 ELSE shown[Top][x])
WriteAll(c, kind) == Store(c, kind, LAMBDA x: n + 1)
ZeroOut(c) ==
  /\ Ver = 3
  /\ n < MaxWrites /\ n' = n + 1
  /\ shown' = [shown EXCEPT ![Top] = [s \in DOMAIN @ |-> IF s \in In(c) THEN 0 ELSE @[s]]]
  /\ LET e == EntryOf(T, c) IN SetEntry(c, "zero", IF e # <<>> /\ e[1].kind = "raw" THEN e[1].h ELSE 0)
  /\ UNCHANGED <<store, next>>
Snapshot(s) ==
  /\ Len(layers) < MaxLayers
  /\ layers' = Append(layers, New(Len(layers) + 1, s))
  /\ shown' = Append(shown, [x \in 0..s - 1 |-> IF x < T.sectors THEN shown[Top][x] ELSE 0])
  /\ next' = Append(next, 10)
  /\ UNCHANGED <<store, n>>
Next == \/ \E s \in {Sectors, Sectors - 2}: Snapshot(s)
        \/ \E s \in 0..T.sectors - 1: Write(s)
        \/ \E c \in 0..Clusters - 1: WriteAll(c, "comp") \/ WriteAll(c, "raw") \/ ZeroOut(c)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
ShowsLast == \A k \in 1..Len(layers): \A s \in 0..layers[k].sectors - 1: Version(Where(layers, k, s)) = shown[k][s]
Apart == \A k \in 1..Len(layers): \A s, t \in 0..layers[k].sectors - 1:
  LET a == Where(layers, k, s) b == Where(layers, k, t) IN s # t /\ a # Zero => a # b
\* no layer decides what is past its end
Ends == \A k \in 1..Len(layers): Where(layers, k, layers[k].sectors) = Zero
Show == n = MaxWrites => PrintT("IMAGE " \o ToJson(layers))
===========================================================================
