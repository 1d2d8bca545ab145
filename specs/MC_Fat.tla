------------------------------ MODULE MC_Fat ------------------------------
(* A file system driver on a tiny FAT32 volume (clusters of two slots): it creates files with and
   without long names, makes them longer and deletes them, in slots and clusters that are free,
   extending the directory when it must.  What is listed are the files there are, with their
   names, and their chains are the clusters they were given. *)
EXTENDS Fat
CONSTANTS MaxSteps, NClusters
VARIABLES flat, dchain, table, files, n
vars == <<flat, dchain, table, files, n>>
\* the slots of the directory, its clusters, the allocation table and the files: [key, seq, size]
End == 268435455
Free(c) == table[c] = 0
Keys == 1..4
\* short names A, B, C, D; C and D also have long names of 14 and of 2 characters
ShortOf(k) == <<64 + k>> \o [i \in 1..10 |-> 32]
LongOf(k) == CASE k = 3 -> [i \in 1..14 |-> 1071 + i] [] k = 4 -> <<100, 33>> [] OTHER -> <<>>
NameOf(k) == IF LongOf(k) = <<>> THEN <<64 + k>> ELSE LongOf(k)
B2(x) == <<x % 256, x \div 256>>
Short(k, c, size) == ShortOf(k) \o <<32, 0>> \o [i \in 1..7 |-> 33] \o <<0, 0>> \o [i \in 1..4 |-> 33] \o B2(c) \o <<size, 0, 0, 0>>
Padded(u, i) == IF i <= Len(u) THEN u[i] ELSE IF i = Len(u) + 1 THEN 0 ELSE 65535
LongSlot(u, j, last, sum) ==
  LET C(i) == B2(Padded(u, ((j - 1) * 13) + i))
  IN <<j + IF last THEN 64 ELSE 0>> \o C(1) \o C(2) \o C(3) \o C(4) \o C(5) \o <<15, 0, sum>> \o C(6) \o C(7) \o C(8) \o C(9) \o C(10) \o C(11) \o <<0, 0>> \o C(12) \o C(13)
SlotsFor(k, c, size) ==
  LET u == LongOf(k) m == (Len(u) + 12) \div 13
  IN [i \in 1..m |-> LongSlot(u, m + 1 - i, i = 1, Checksum(ShortOf(k)))] \o <<Short(k, c, size)>>
Init == flat = <<>> /\ dchain = <<2>> /\ table = [c \in 2..NClusters + 1 |-> IF c = 2 THEN End ELSE 0] /\ files = {} /\ n = 0
Step == n < MaxSteps /\ n' = n + 1
\* puts slots at position i, which is free or beyond the last; the directory may need clusters ds
Put(i, s) == [j \in 1..(IF i + Len(s) - 1 > Len(flat) THEN i + Len(s) - 1 ELSE Len(flat)) |-> IF j >= i /\ j < i + Len(s) THEN s[j - i + 1] ELSE flat[j]]
Room(i, m) == i <= Len(flat) + 1 /\ \A j \in i..i + m - 1: IF j > Len(flat) THEN TRUE ELSE flat[j][1] = 229
Link(t, seq) == [c \in DOMAIN t |-> IF \E i \in 1..Len(seq): seq[i] = c THEN LET i == CHOOSE i \in 1..Len(seq): seq[i] = c IN IF i < Len(seq) THEN seq[i + 1] ELSE End ELSE t[c]]
Create(k, seq, i) ==
  /\ Step /\ \A f \in files: f.key # k
  /\ \A j \in 1..Len(seq): Free(seq[j])
  /\ LET s == SlotsFor(k, IF seq = <<>> THEN 0 ELSE seq[1], 64 * Len(seq))
         f2 == Put(i, s)
         need == ((Len(f2) + 1) \div 2) - Len(dchain)
         left == {c \in DOMAIN table: Free(c)} \ {seq[j]: j \in 1..Len(seq)}
     IN /\ Room(i, Len(s)) /\ Cardinality(left) >= need
        /\ \* the first free clusters
           LET more == IF need <= 0 THEN <<>> ELSE SubSeq(SetToSortSeq(left, <), 1, need)
           IN dchain' = dchain \o more /\ flat' = f2 /\ table' = Link(Link(table, dchain \o more), seq)
     /\ files' = files \cup {[key |-> k, seq |-> seq]}
ShortAt(k) == CHOOSE j \in 1..Len(flat): flat[j][1] # 229 /\ ~IsLong(flat[j]) /\ SubSeq(flat[j], 1, 11) = ShortOf(k)
Extend(f, c) ==
  /\ Step /\ Free(c) /\ UNCHANGED dchain
  /\ LET seq == Append(f.seq, c) IN
     /\ files' = (files \ {f}) \cup {[f EXCEPT !.seq = seq]} /\ table' = Link(table, seq)
     /\ flat' = [flat EXCEPT ![ShortAt(f.key)] = Short(f.key, seq[1], 64 * Len(seq))]
Delete(f) ==
  /\ Step /\ UNCHANGED dchain
  /\ LET j == ShortAt(f.key) m == Len(SlotsFor(f.key, 0, 0)) IN flat' = [i \in 1..Len(flat) |-> IF i > j - m /\ i <= j THEN [flat[i] EXCEPT ![1] = 229] ELSE flat[i]]
  /\ files' = files \ {f} /\ table' = [c \in DOMAIN table |-> IF \E i \in 1..Len(f.seq): f.seq[i] = c THEN 0 ELSE table[c]]
\* an old system, which knows no long names, deletes only the short name
DeleteShort(f) ==
  /\ Step /\ UNCHANGED dchain /\ LongOf(f.key) # <<>>
  /\ flat' = [flat EXCEPT ![ShortAt(f.key)] = [@ EXCEPT ![1] = 229]]
  /\ files' = files \ {f} /\ table' = [c \in DOMAIN table |-> IF \E i \in 1..Len(f.seq): f.seq[i] = c THEN 0 ELSE table[c]]
Seqs == {<<>>} \cup {<<a>>: a \in DOMAIN table} \cup {<<a, b>>: a, b \in DOMAIN table}
Next == \/ \E k \in Keys, s \in {s \in Seqs: Len(s) < 2 \/ s[1] > s[2]}, i \in 1..Len(flat) + 1: Create(k, s, i)
        \/ \E f \in files: Delete(f) \/ DeleteShort(f) \/ \E c \in DOMAIN table: Extend(f, c)
Spec == Init /\ [][Next]_vars
V == [bps |-> 64, spc |-> 1, reserved |-> 1, fats |-> 1, rootn |-> 0, sectors |-> 2 + NClusters, fatsize |-> 1, root |-> 2, label |-> <<>>, serial |-> B0,
      fat |-> <<[first |-> 2, values |-> [i \in 1..NClusters |-> table[i + 1]]]>>,
      slots |-> [i \in 1..Len(dchain) |-> [at |-> dchain[i], slots |-> SubSeq(flat, 2 * i - 1, IF 2 * i > Len(flat) THEN Len(flat) ELSE 2 * i)]]]
ListsFiles ==
  LET l == List(V, RootEntry(V)) IN
  l.ok /\ Len(l.found) = Cardinality(files)
  /\ \A f \in files: \E i \in 1..Len(l.found): LET e == l.found[i] IN e.name = NameOf(f.key) /\ Small(e.size) = 64 * Len(f.seq) /\ FileChain(V, e) = [ok |-> TRUE, seq |-> f.seq]
FindsFiles == \A k \in Keys: (Find(V, <<Fold(NameOf(k))>>).k = "ok") = (\E f \in files: f.key = k)
===========================================================================
