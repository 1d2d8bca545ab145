-------------------------------- MODULE Mbr --------------------------------
(* Master boot record partition tables.  l.records are the boot records [at, sig, entries],
   with the sector they are at, whether they have the boot signature and their four entries
   [t, start, n, flags], which count in sectors of the disk (l.given bytes, or 0 when the caller
   does not say).  (Nothing tells the size of sectors of a disk without extended partition; a
   disk with l.bps512 has the usual one.)  The first is the master boot record; an extended partition in it (type 5
   or 15) starts with an extended boot record, whose partitions count from itself, and whose
   extended entry (type 5), counting from the first of them, leads to the next one. *)
EXTENDS Volumes
Units == <<1, 2, 4, 8>>
MaxChain == 255
RecordAt(l, at) == LET i == SelectInSeq(l.records, LAMBDA r: r.at = at /\ r.sig) IN IF i = 0 THEN [at |-> -1, entries |-> <<>>] ELSE l.records[i]
Is(e, types) == e.t \in types
Slots(es, types) == SelectSeq(<<1, 2, 3, 4>>, LAMBDA i: Is(es[i], types))
Used(es, types) == SelectSeq(<<1, 2, 3, 4>>, LAMBDA i: ~Is(es[i], types \cup {0}))
Part(e, index, base, u) == [index |-> index, type |-> e.t, flags |-> e.flags, off |-> base + (e.start * u), n |-> e.n * u]
Bad == [ok |-> FALSE, at |-> -1, k |-> 0, parts |-> <<>>]
\* one extended boot record further
Link(l, u, first, acc) ==
  IF ~acc.ok \/ acc.at = -1 THEN acc
  ELSE LET r == RecordAt(l, acc.at) IN
    IF r.at = -1 \/ acc.k >= MaxChain THEN Bad
    ELSE LET next == Slots(r.entries, {5})
             mine == Used(r.entries, {5})
             \* entries are numbered without the unused ones
             Nth(i) == Cardinality({j \in 1..i - 1: r.entries[j].t # 0})
         IN IF Len(next) > 1 THEN Bad
            ELSE [ok |-> TRUE, k |-> acc.k + 1, at |-> IF next = <<>> THEN -1 ELSE first + (r.entries[next[1]].start * u),
                  parts |-> acc.parts \o [j \in 1..Len(mine) |-> Part(r.entries[mine[j]], 4 + (4 * acc.k) + Nth(mine[j]), acc.at, u)]]
List(l, u) ==
  LET m == RecordAt(l, 0)
      ext == IF m.at = -1 THEN <<>> ELSE Slots(m.entries, {5, 15})
      mine == IF m.at = -1 THEN <<>> ELSE Used(m.entries, {5, 15})
      own == [ok |-> TRUE, k |-> 0, at |-> IF ext = <<>> THEN -1 ELSE m.entries[ext[1]].start * u,
              parts |-> [j \in 1..Len(mine) |-> Part(m.entries[mine[j]], mine[j] - 1, 0, u)]]
  IN IF m.at = -1 \/ Len(ext) > 1 THEN Bad ELSE FoldLeft(LAMBDA a, k: Link(l, u, own.at, a), own, [k \in 1..MaxChain + 1 |-> k])
\* The sector sizes that the table can have: the one given, else the first at which the
\* extended partition starts with a boot record, else (a guess) the largest at which the partitions fit.
Fits(l, u) == LET p == List(l, u).parts IN \A i \in 1..Len(p): p[i].off + p[i].n <= l.sectors
Candidates(l) ==
  LET m == RecordAt(l, 0)
      ext == IF m.at = -1 THEN <<>> ELSE Slots(m.entries, {5, 15})
  IN IF l.given # 0 THEN {l.given \div 512}
     ELSE IF ext # <<>> THEN LET i == SelectInSeq(Units, LAMBDA u: RecordAt(l, m.entries[ext[1]].start * u).at # -1) IN IF i = 0 THEN {} ELSE {Units[i]}
     ELSE IF l.bps512 THEN {1}
     ELSE LET f == {u \in {1, 2, 4, 8}: Fits(l, u)} IN {u \in f: \A v \in f: v <= u}
\* e: what was observed
Opened(l, e) ==
  LET seen == IF e.out.k = "ok" THEN {u \in Candidates(l): e.out.meta.bps = 512 * u} ELSE {}
      u == IF seen # {} THEN CHOOSE x \in seen: TRUE ELSE IF Candidates(l) = {} THEN 1 ELSE CHOOSE x \in Candidates(l): \A y \in Candidates(l): x <= y
      r == List(l, u)
      \* without partitions the size of sectors is nothing
      bps == IF r.parts = <<>> /\ e.out.k = "ok" THEN e.out.meta.bps ELSE 512 * u
      parts == Shown(r.parts)
      meta == [bps |-> bps, id |-> l.id, parts |-> parts]
  IN IF ~r.ok \/ (Candidates(l) = {} /\ r.parts # <<>>) \/ (l.loose /\ e.out.k = "err") THEN [k |-> "err", meta |-> meta, parts |-> <<>>]
     ELSE [k |-> "ok", meta |-> meta, parts |-> r.parts]
===========================================================================
