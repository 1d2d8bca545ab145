-------------------------------- MODULE Fat --------------------------------
(* FAT12, FAT16 and FAT32 volumes.  v has the fields of the boot record: bps (bytes per sector),
   spc (sectors per cluster), reserved, fats, rootn (entries of the root directory), sectors,
   fatsize, root (first cluster of the root directory of FAT32, else 0), label, serial; the
   allocation table in use, v.fat, as runs [first, values] of raw values (0 elsewhere), and the
   contents of directories: v.slots, runs [at, slots] of 32-byte slots, where at is the number
   of a cluster or 0 for the root directory of FAT12 and FAT16 (zero elsewhere).

   A file is the chain of its clusters cut to its size.  A chain goes from cluster to cluster as
   the table says, up to an end marker; one that goes back to itself or to a cluster that does not
   exist is broken.  Directory slots say names, sizes and first clusters; the slots of a long name
   come before the one of the short name, last part first, and count only when all are there and
   have the checksum of the short name. *)
EXTENDS Disk, SequencesExt, FiniteSets
DT == INSTANCE DateTime
U16(b, i) == b[i + 1] + b[i + 2] * 256
RECURSIVE Trim(_)
Trim(b) == IF b # <<>> /\ b[Len(b)] = 32 THEN Trim(SubSeq(b, 1, Len(b) - 1)) ELSE b
---------------------------------------------------------------------------
ClusterSize(v) == v.bps * v.spc
RootSectors(v) == ((v.rootn * 32) + v.bps - 1) \div v.bps
FirstSector(v) == v.reserved + (v.fats * v.fatsize) + RootSectors(v)
Clusters(v) == (v.sectors - FirstSector(v)) \div v.spc
Kind(v) == IF v.root # 0 THEN 32 ELSE IF Clusters(v) < 4085 THEN 12 ELSE 16
Fits(v) == v.sectors >= FirstSector(v)
\* values of the table (in FAT32 without the upper four bits, which are not part of them)
Value(v, n) ==
  LET i == SelectInSeq(v.fat, LAMBDA r: r.first <= n /\ n < r.first + Len(r.values))
  IN IF i = 0 THEN 0 ELSE v.fat[i].values[n - v.fat[i].first + 1]
IsEnd(v, x) == x >= CASE Kind(v) = 12 -> 4088 [] Kind(v) = 16 -> 65528 [] Kind(v) = 32 -> 268435448
Exists(v, n) == n >= 2 /\ n < Clusters(v) + 2
\* the first n clusters of the chain from c: [ok, seq, ended]
RECURSIVE Walk(_, _, _, _)
Walk(v, c, n, seq) ==
  IF Len(seq) = n THEN [ok |-> TRUE, ended |-> FALSE, seq |-> seq]
  ELSE IF ~Exists(v, c) \/ (\E i \in 1..Len(seq): seq[i] = c) THEN [ok |-> FALSE, ended |-> FALSE, seq |-> seq]
  ELSE LET x == Value(v, c) more == Append(seq, c) IN
    IF Len(more) = n THEN [ok |-> TRUE, ended |-> FALSE, seq |-> more]
    ELSE IF IsEnd(v, x) THEN [ok |-> TRUE, ended |-> TRUE, seq |-> more] ELSE Walk(v, x, n, more)
---------------------------------------------------------------------------
NoSlot == [i \in 1..32 |-> 0]
SlotsAt(v, at) == LET i == SelectInSeq(v.slots, LAMBDA r: r.at = at) IN IF i = 0 THEN <<>> ELSE v.slots[i].slots
\* where slot k (from 0) of cluster at is, in the volume
SlotPlace(v, at, k) ==
  LET s == IF at = 0 THEN v.reserved + (v.fats * v.fatsize) ELSE FirstSector(v) + ((at - 2) * v.spc)
      t == s * (v.bps \div 512)
  IN BAdd(<<0, t \div 32768, (t % 32768) * 512>>, BInt(k * 32))
Placed(v, at, room) == LET s == SlotsAt(v, at) IN [k \in 1..(IF Len(s) < room THEN Len(s) + 1 ELSE Len(s)) |->
  [b |-> IF k > Len(s) THEN NoSlot ELSE s[k], at |-> SlotPlace(v, at, k - 1)]]
HasEnd(slots) == \E k \in 1..Len(slots): slots[k].b[1] = 0
\* the slots of the directory whose chain starts at cluster c, up to an end slot
RECURSIVE Gather(_, _, _, _)
Gather(v, c, seen, acc) ==
  IF ~Exists(v, c) \/ c \in seen THEN [ok |-> FALSE, slots |-> acc]
  ELSE LET s == Placed(v, c, ClusterSize(v) \div 32) all == acc \o s IN
    IF HasEnd(s) THEN [ok |-> TRUE, slots |-> all]
    ELSE LET x == Value(v, c) IN
      IF IsEnd(v, x) THEN [ok |-> TRUE, slots |-> all] ELSE Gather(v, x, seen \cup {c}, all)
RootSlots(v) == IF Kind(v) = 32 THEN Gather(v, v.root, {}, <<>>) ELSE [ok |-> TRUE, slots |-> Placed(v, 0, v.rootn)]
---------------------------------------------------------------------------
Checksum(b) == FoldLeft(LAMBDA s, x: (((s % 2) * 128) + (s \div 2) + x) % 256, 0, SubSeq(b, 1, 11))
IsLong(b) == b[12] % 64 = 15
IsLabel(b) == (b[12] \div 8) % 4 = 1 /\ (b[12] \div 64) % 2 = 0
IsDir(b) == (b[12] \div 8) % 4 = 2 /\ (b[12] \div 64) % 2 = 0
Units(b) == [i \in 1..13 |-> IF i <= 5 THEN U16(b, 2 * i - 1) ELSE IF i <= 11 THEN U16(b, 2 * i + 2) ELSE U16(b, 2 * i + 4)]
UpToZero(u) == LET i == SelectInSeq(u, LAMBDA x: x = 0) IN IF i = 0 THEN u ELSE SubSeq(u, 1, i - 1)
Lower(x, yes) == IF yes /\ x >= 65 /\ x <= 90 THEN x + 32 ELSE x
ShortName(b) ==
  LET base == Trim(SubSeq(b, 1, 8)) ext == Trim(SubSeq(b, 9, 11))
      lb == (b[13] \div 8) % 2 = 1 le == (b[13] \div 16) % 2 = 1
      first == IF base = <<5>> \/ (base # <<>> /\ base[1] = 5) THEN [base EXCEPT ![1] = 229] ELSE base
  IN [i \in 1..Len(first) |-> Lower(first[i], lb)] \o (IF ext = <<>> THEN <<>> ELSE <<46>> \o [i \in 1..Len(ext) |-> Lower(ext[i], le)])
\* the part of a long name that is complete so far: the next number expected, 0: complete
NoLong == [on |-> FALSE, next |-> -1, sum |-> -1, units |-> <<>>]
TakeLong(a, b) ==
  LET n == b[1] % 32 IN
  IF (b[1] \div 64) % 2 = 1 THEN [on |-> TRUE, next |-> n - 1, sum |-> b[14], units |-> UpToZero(Units(b))]
  ELSE IF a.on /\ n = a.next /\ n >= 1 /\ b[14] = a.sum THEN [a EXCEPT !.next = n - 1, !.units = UpToZero(Units(b)) \o a.units]
  ELSE NoLong
Entry(v, x, long) ==
  LET b == x.b
      named == long.on /\ long.next = 0 /\ long.sum = Checksum(b)
  IN [kind |-> IF named THEN "u" ELSE "b", name |-> IF named THEN long.units ELSE ShortName(b), dir |-> IsDir(b), attr |-> b[12], id |-> x.at,
      size |-> <<0, b[32], (b[31] * 65536) + (b[30] * 256) + b[29]>>,
      cluster |-> U16(b, 26) + IF Kind(v) = 32 THEN 65536 * (U16(b, 20) % 16384) ELSE 0,
      ctime |-> DT!FatTimeDate10Ms(SubSeq(b, 14, 18))[1], atime |-> DT!FatDate(SubSeq(b, 19, 20))[1], mtime |-> DT!FatTimeDate(SubSeq(b, 23, 26))[1]]
\* [done, long, found, label]
Scan(v, slots) ==
  FoldLeft(LAMBDA a, x:
    IF a.done \/ x.b[1] = 0 THEN [a EXCEPT !.done = TRUE]
    ELSE IF x.b[1] = 229 THEN [a EXCEPT !.long = NoLong]
    ELSE IF IsLong(x.b) THEN [a EXCEPT !.long = TakeLong(a.long, x.b)]
    ELSE IF IsLabel(x.b) THEN [a EXCEPT !.long = NoLong, !.label = Trim(SubSeq(x.b, 1, 11))]
    ELSE IF x.b[1] = 46 /\ Trim(SubSeq(x.b, 1, 11)) \in {<<46>>, <<46, 46>>} THEN [a EXCEPT !.long = NoLong]
    ELSE [a EXCEPT !.long = NoLong, !.found = Append(a.found, Entry(v, x, a.long))],
    [done |-> FALSE, long |-> NoLong, found |-> <<>>, label |-> <<>>], slots)
---------------------------------------------------------------------------
(* Names are the same when they differ only in case (here: Latin, Greek and Cyrillic). *)
Upper(x) ==
  IF (x >= 97 /\ x <= 122) \/ (x >= 224 /\ x <= 254 /\ x # 247) \/ (x >= 945 /\ x <= 969 /\ x # 962) \/ (x >= 1072 /\ x <= 1103) THEN x - 32
  ELSE IF x >= 1104 /\ x <= 1119 THEN x - 80 ELSE IF x = 255 THEN 376 ELSE x
Fold(u) == [i \in 1..Len(u) |-> Upper(u[i])]
Root == [kind |-> "-", name |-> <<>>, dir |-> TRUE, attr |-> 0, id |-> <<0, 0, 0>>, size |-> <<0, 0, 0>>, cluster |-> 0, ctime |-> "", atime |-> "", mtime |-> ""]
RootEntry(v) == [Root EXCEPT !.id = IF Kind(v) = 32 THEN <<0, 0, 0>> ELSE SlotPlace(v, 0, 0)]
List(v, entry) ==
  LET g == IF entry.kind = "-" THEN RootSlots(v) ELSE Gather(v, entry.cluster, {}, <<>>)
  IN IF ~g.ok THEN [ok |-> FALSE, found |-> <<>>, label |-> <<>>] ELSE LET s == Scan(v, g.slots) IN [ok |-> TRUE, found |-> s.found, label |-> s.label]
\* the entry at a path: [k: ok/none/err, entry]
Find(v, path) ==
  FoldLeft(LAMBDA a, name:
    IF a.k # "ok" THEN a
    ELSE IF ~a.entry.dir THEN [a EXCEPT !.k = "none"]
    ELSE LET l == List(v, a.entry)
             i == SelectInSeq(l.found, LAMBDA e: Fold(e.name) = Fold(name))
         IN IF ~l.ok THEN [a EXCEPT !.k = "err"] ELSE IF i = 0 THEN [a EXCEPT !.k = "none"] ELSE [k |-> "ok", entry |-> l.found[i]],
    [k |-> "ok", entry |-> RootEntry(v)], path)
---------------------------------------------------------------------------
CeilDiv(a, b) == (a + b - 1) \div b
Small(b) == b[2] * BM + b[3]
Needed(v, entry) == CeilDiv(Small(entry.size), ClusterSize(v))
\* [ok, seq]: the clusters of a file
FileChain(v, entry) ==
  IF Needed(v, entry) = 0 THEN [ok |-> TRUE, seq |-> <<>>]
  ELSE LET w == Walk(v, entry.cluster, Needed(v, entry), <<>>) IN [ok |-> w.ok /\ ~w.ended, seq |-> w.seq]
\* sector s (of 512 bytes) of the file in the volume
Where(v, chain, s) ==
  LET per == ClusterSize(v) \div 512 i == s \div per
  IN IF i >= Len(chain.seq) THEN Broken ELSE <<1, (FirstSector(v) * (v.bps \div 512)) + ((chain.seq[i + 1] - 2) * per) + (s % per)>>
---------------------------------------------------------------------------
(* Histories: open, list a directory, look up a path or an identifier, open files and read them. *)
Hidden == {"cluster"}
Shown(e) == [x \in DOMAIN e \ Hidden |-> e[x]]
Meta(v, l) == [format |-> Kind(v), label |-> IF l.label # <<>> THEN l.label ELSE v.label, serial |-> v.serial, bps |-> v.bps]
NoFile == [open |-> FALSE, chain |-> [ok |-> TRUE, seq |-> <<>>], size |-> B0, s |-> StreamInit]
FatInit == [files |-> [i \in 0..3 |-> NoFile]]
ErrOut == [k |-> "err"]
FatStep(v, st, e) ==
  LET Keep(o) == [st |-> st, out |-> o] IN
  CASE e.op = "open" ->
         LET l == IF Fits(v) THEN List(v, RootEntry(v)) ELSE [ok |-> FALSE, found |-> <<>>, label |-> <<>>] IN
         Keep(IF ~l.ok THEN ErrOut ELSE [k |-> "ok", meta |-> Meta(v, l)])
    [] e.op = "list" ->
         LET f == Find(v, e.path) l == List(v, f.entry) IN
         Keep(IF f.k = "err" THEN ErrOut ELSE IF f.k = "none" THEN [k |-> "none"] ELSE IF ~f.entry.dir THEN [k |-> "ok", found |-> {}, n |-> 0]
              ELSE IF ~l.ok THEN ErrOut ELSE [k |-> "ok", found |-> {Shown(l.found[i]): i \in 1..Len(l.found)}, n |-> Len(l.found)])
    [] e.op = "find" ->
         LET f == Find(v, e.path) IN
         Keep(IF f.k = "ok" THEN [k |-> "ok", entry |-> Shown(f.entry)] ELSE [k |-> f.k])
    [] e.op = "byid" ->
         \* the entry at a path, by its identifier
         LET f == Find(v, e.path) IN
         Keep(IF f.k = "ok" THEN [k |-> "ok", entry |-> Shown(f.entry)] ELSE [k |-> f.k])
    [] e.op = "file" ->
         LET f == Find(v, e.path)
             c == FileChain(v, f.entry)
             Closed(o) == [st |-> [st EXCEPT !.files[e.layer] = NoFile], out |-> o]
         IN IF f.k # "ok" THEN Closed([k |-> f.k])
            ELSE IF f.entry.dir THEN Closed([k |-> "none"])
            ELSE [st |-> [st EXCEPT !.files[e.layer] = [open |-> c.ok \/ e.out.k = "ok", chain |-> c, size |-> f.entry.size, s |-> StreamInit]],
                  out |-> [k |-> IF c.ok THEN "ok" ELSE e.out.k]]
    [] OTHER ->
         LET f == st.files[e.layer]
             Here(x) == Where(v, f.chain, x)
             r == StreamStep(f.size, LAMBDA p, n: DiskBytes(Here, p, n), f.s, e)
         IN IF ~f.open THEN [st |-> st, out |-> ErrOut]
            ELSE IF f.chain.ok THEN [st |-> [st EXCEPT !.files[e.layer].s = r.st], out |-> r.out]
            ELSE [st |-> st, out |-> IF e.out.k = "err" \/ (r.out.k = "ok" /\ Needs(Here, r.out.pos, Len(r.out.data))) THEN ErrOut ELSE r.out]
FatAgrees(o, e) ==
  CASE e.op = "open" -> o.k = e.out.k /\ (o.k = "ok" => o.meta = e.out.meta)
    [] e.op = "list" -> o.k = e.out.k /\ (o.k = "ok" => o.n = Len(e.out.found) /\ o.found = {e.out.found[i]: i \in 1..Len(e.out.found)})
    [] e.op \in {"find", "byid"} -> o.k = e.out.k /\ (o.k = "ok" => o.entry = e.out.entry)
    [] e.op = "file" -> o.k = e.out.k
    [] OTHER -> StreamAgrees(o, e)
===========================================================================
