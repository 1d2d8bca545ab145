-------------------------------- MODULE Gpt --------------------------------
(* GUID partition tables.  There are two of them, in the second block of the disk and in the
   last: l.tables are the headers [at, u] at sector at of a disk with blocks of u sectors, with
   whether header and entries have the checksums they should (ok, arr), the block where the
   header says the other one is (other), the first block for partitions, the disk's identifier
   and the used entries [i, type, id, start, end], by the index they have.  The first table
   whose checksums are right is the one that is shown. *)
EXTENDS Volumes
HeaderAt(l, s) == SelectInSeq(l.tables, LAMBDA t: t.at = s /\ t.ok)
Sizes(l) == IF l.given = 0 THEN <<1, 8>> ELSE <<l.given \div 512>>
\* sector 0 has no table
Primary(l) == LET z == Sizes(l) i == SelectInSeq(z, LAMBDA u: HeaderAt(l, u) # 0) IN IF i = 0 THEN [t |-> 0, u |-> 0] ELSE [t |-> HeaderAt(l, z[i]), u |-> z[i]]
Places(l) ==
  LET z == Sizes(l) p == Primary(l)
      last == [k \in 1..Len(z) |-> [t |-> HeaderAt(l, l.sectors - z[k]), u |-> z[k]]]
  IN IF p.t = 0 THEN last ELSE <<p, [t |-> HeaderAt(l, l.tables[p.t].other * p.u), u |-> p.u]>> \o last
Chosen(l) == LET ps == Places(l) i == SelectInSeq(ps, LAMBDA p: p.t # 0 /\ l.tables[p.t].arr) IN IF i = 0 THEN [t |-> 0, u |-> 0] ELSE ps[i]
Parts(t, u) == [k \in 1..Len(t.entries) |-> LET e == t.entries[k] IN
  [index |-> e.i, type |-> e.type, id |-> e.id, off |-> e.start * u, n |-> (e.end - e.start + 1) * u]]
Opened(l, e) ==
  LET c == Chosen(l) IN
  \* what makes no sense is refused or shown somehow
  IF l.any THEN [k |-> e.out.k, meta |-> IF e.out.k = "ok" THEN e.out.meta ELSE <<>>, parts |-> <<>>]
  ELSE IF c.t = 0 \/ (l.loose /\ e.out.k = "err") THEN [k |-> "err"]
  ELSE LET t == l.tables[c.t] p == Parts(t, c.u)
       IN [k |-> "ok", meta |-> [bps |-> 512 * c.u, id |-> t.id, parts |-> Shown(p)], parts |-> p]
===========================================================================
