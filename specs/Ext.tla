-------------------------------- MODULE Ext --------------------------------
(* ext2, ext3 and ext4 volumes.  v has fields of the superblock: bs (block size), inodes (their
   number), isize, compat, incompat, rocompat (feature flags), label, mounted (path), mtime, wtime
   (bytes of the times), and what the volume's inodes, by number, are: v.table, records [ino, raw,
   ref, attrs]: raw are the bytes of the inode, ref says what its data reference refers to, attrs
   are its extended attributes.

   Data of a file is mapped block by block, by
   - "ptrs": 15 numbers of blocks: 12 of data, then one, two and three levels of blocks of numbers
     (v.ptrs: the blocks of numbers, as runs [first, values]), 0: nothing stored,
   - "tree": a tree of extents; nodes in blocks are v.nodes; an entry of a leaf <<logical, count,
     physical>> with a count above 32768 is reserved (by count - 32768 blocks), but not written,
   - "inline": bytes within the inode.
   What is not mapped, or not written, reads as zeros.  A directory is a sequence of blocks (v.dirs)
   of entries [ino, name], those with inode 0 are unused; inline, its first 4 bytes say its parent. *)
EXTENDS Disk, SequencesExt, FiniteSets
DT == INSTANCE DateTime
U16(b, i) == b[i + 1] + b[i + 2] * 256
U32(b, i) == <<0, b[i + 4], (b[i + 3] * 65536) + U16(b, i)>>
Bit(x, k) == (x \div k) % 2 = 1
---------------------------------------------------------------------------
\* blocks of numbers
PtrsPer(v) == v.bs \div 4
Pow(b, n) == CASE n = 0 -> 1 [] n = 1 -> b [] n = 2 -> b * b
PtrAt(v, at, k) ==
  LET i == SelectInSeq(v.ptrs, LAMBDA p: p.at = at)
      runs == v.ptrs[i].runs
      j == SelectInSeq(runs, LAMBDA r: r.first <= k /\ k < r.first + Len(r.values))
  IN IF i = 0 THEN 0 ELSE IF j = 0 THEN 0 ELSE runs[j].values[k - runs[j].first + 1]
\* block l below block `at` of numbers, of `level` levels (1: numbers of data)
RECURSIVE Follow(_, _, _, _)
Follow(v, at, level, l) ==
  IF at = 0 THEN 0
  ELSE IF level = 0 THEN at
  ELSE Follow(v, PtrAt(v, at, l \div Pow(PtrsPer(v), level - 1)), level - 1, l % Pow(PtrsPer(v), level - 1))
ByPtrs(v, nums, l) ==
  LET p == PtrsPer(v) a == l - 12 b == a - p c == b \div p
  IN IF l < 12 THEN nums[l + 1]
     ELSE IF a < p THEN Follow(v, nums[13], 1, a)
     ELSE IF c < p THEN Follow(v, nums[14], 2, b)
     ELSE Follow(v, nums[15], 3, b - (p * p))
---------------------------------------------------------------------------
\* extents
RECURSIVE ByTree(_, _, _)
ByTree(v, node, l) ==
  LET i == FoldLeft(LAMBDA a, k: IF node.entries[k][1] <= l THEN k ELSE a, 0, [k \in 1..Len(node.entries) |-> k])
      x == node.entries[i]
      j == SelectInSeq(v.nodes, LAMBDA n: n.at = x[3])
  IN IF i = 0 THEN 0
     ELSE IF node.depth = 0 THEN IF x[2] <= 32768 /\ l < x[1] + x[2] THEN x[3] + (l - x[1]) ELSE 0
     ELSE ByTree(v, v.nodes[j], l)
\* the block where block l of the file is stored, or 0
Block(v, ref, l) == CASE ref.kind = "ptrs" -> ByPtrs(v, ref.nums, l) [] ref.kind = "tree" -> ByTree(v, ref, l) [] OTHER -> 0
Where(v, ref, s) ==
  LET per == v.bs \div 512 b == Block(v, ref, s \div per)
  IN IF b = 0 THEN Zero ELSE <<1, (b * per) + (s % per)>>
InlineBytes(ref, p, n) == [k \in 1..n |-> LET i == BSmall(p) + k IN IF i <= Len(ref.data) THEN ref.data[i] ELSE 0]
---------------------------------------------------------------------------
\* inodes
InodeAt(v, n) == LET i == SelectInSeq(v.table, LAMBDA x: x.ino = n) IN v.table[i]
Mode(x) == U16(x.raw, 0)
Type(x) == Mode(x) \div 4096
IsDir(x) == Type(x) = 4
IsFile(x) == Type(x) = 8
IsLink(x) == Type(x) = 10
Id32(lo, hi) == <<0, hi \div 256, ((hi % 256) * 65536) + lo>>
Size(x) == LET lo == U32(x.raw, 4) hi == U32(x.raw, 108)
           IN IF IsFile(x) THEN <<hi[2] * 256 + (hi[3] \div 65536), ((hi[3] % 65536) * 256) + lo[2], lo[3]>> ELSE lo
Extra(v, x) == IF v.isize = 128 THEN 0 ELSE U16(x.raw, 128)
\* a time of 4 bytes at i, with 4 more at j if they are there; 0 is no time
Time(x, i, j, more) ==
  LET b == SubSeq(x.raw, i + 1, i + 4)
      neg == b[4] >= 128
      e == IF more THEN U32(x.raw, j) ELSE B0
      epoch == e[3] % 4
      hi == IF ~neg THEN <<epoch, 0, 0, 0>> ELSE IF epoch = 0 THEN <<255, 255, 255, 255>> ELSE <<epoch - 1, 0, 0, 0>>
      ns == (e[2] * (BM \div 4)) + (e[3] \div 4)
  IN IF b = <<0, 0, 0, 0>> /\ epoch = 0 THEN "not set"
     ELSE IF more THEN DT!Posix64(b \o hi, ns) ELSE DT!Posix32(DT!LimbsLE(b))[1]
UpToNul(b) == LET i == SelectInSeq(b, LAMBDA c: c = 0) IN IF i = 0 THEN b ELSE SubSeq(b, 1, i - 1)
Text(v, at) == LET i == SelectInSeq(v.texts, LAMBDA t: t.at = at) IN v.texts[i].data
LinkTarget(v, x) ==
  LET n == BSmall(Size(x))
  IN IF x.ref.kind = "inline" THEN SubSeq(x.ref.data, 1, n) ELSE SubSeq(Text(v, Block(v, x.ref, 0)), 1, n)
Shown(v, name, n) ==
  LET x == InodeAt(v, n) extra == Extra(v, x) cr == IF extra >= 24 THEN Time(x, 144, 148, TRUE) ELSE "not set"
  IN [name |-> name, ino |-> n, mode |-> Mode(x), uid |-> Id32(U16(x.raw, 2), U16(x.raw, 120)), gid |-> Id32(U16(x.raw, 24), U16(x.raw, 122)),
      links |-> U16(x.raw, 26), size |-> IF IsFile(x) \/ IsLink(x) THEN Size(x) ELSE B0,
      atime |-> Time(x, 8, 140, extra >= 16), ctime |-> Time(x, 12, 132, extra >= 8), mtime |-> Time(x, 16, 136, extra >= 12),
      dtime |-> Time(x, 20, 0, FALSE), crtime |-> IF cr = "not set" THEN "" ELSE cr,
      target |-> IF IsLink(x) THEN LinkTarget(v, x) ELSE <<-1>>,
      dev |-> IF Type(x) \in {2, 6} THEN U16(x.raw, 40) ELSE -1,
      attrs |-> Len(x.attrs)]
---------------------------------------------------------------------------
\* directories
DirBlock(v, at) == LET i == SelectInSeq(v.dirs, LAMBDA d: d.at = at) IN IF i = 0 THEN <<>> ELSE v.dirs[i].entries
Blocks(v, x) == LET n == Size(x) IN (BSmall(n) + v.bs - 1) \div v.bs
Entries(v, x) ==
  LET all == IF x.ref.kind = "inline" THEN x.ref.entries
             ELSE FoldLeft(LAMBDA a, l: a \o DirBlock(v, Block(v, x.ref, l - 1)), <<>>, [l \in 1..Blocks(v, x) |-> l])
  IN SelectSeq(all, LAMBDA d: d.ino # 0 /\ d.name \notin {<<46>>, <<46, 46>>})
RootIno == 2
NoName == <<-1>>
Find(v, path) ==
  FoldLeft(LAMBDA a, name:
    IF ~a.ok THEN a
    ELSE IF ~IsDir(InodeAt(v, a.ino)) THEN [a EXCEPT !.ok = FALSE]
    ELSE LET l == Entries(v, InodeAt(v, a.ino)) i == SelectInSeq(l, LAMBDA d: d.name = name)
         IN IF i = 0 THEN [a EXCEPT !.ok = FALSE] ELSE [ok |-> TRUE, ino |-> l[i].ino, name |-> name],
    [ok |-> TRUE, ino |-> RootIno, name |-> NoName], path)
---------------------------------------------------------------------------
\* compatible: sparse superblock 2; incompatible: extents and later; read-only compatible: huge file and later
Version(v) ==
  IF Bit(v.compat, 512) \/ (\E k \in {64, 128, 256, 512, 1024, 4096, 8192, 16384, 32768, 65536}: Bit(v.incompat, k))
     \/ (\E k \in {8, 16, 32, 64, 256, 512}: Bit(v.rocompat, k)) THEN 4
  ELSE IF Bit(v.compat, 4) \/ Bit(v.incompat, 4) \/ Bit(v.incompat, 8) THEN 3 ELSE 2
Meta(v) == [version |-> Version(v), label |-> v.label, inodes |-> v.inodes, mounted |-> v.mounted,
            mtime |-> Time([raw |-> v.mtime], 0, 0, FALSE), wtime |-> Time([raw |-> v.wtime], 0, 0, FALSE)]
(* Histories: open, list a directory, look up a path or an inode, open files and read them. *)
NoFile == [open |-> FALSE, ino |-> 0, s |-> StreamInit]
ExtInit == [files |-> [i \in 0..3 |-> NoFile]]
ErrOut == [k |-> "err"]
ExtStep(v, st, e) ==
  LET Keep(o) == [st |-> st, out |-> o] IN
  CASE e.op = "open" -> Keep([k |-> "ok", meta |-> Meta(v)])
    [] e.op = "list" ->
         LET f == Find(v, e.path) x == InodeAt(v, f.ino) l == Entries(v, x)
         IN Keep(IF ~f.ok THEN [k |-> "none"] ELSE IF ~IsDir(x) THEN [k |-> "ok", found |-> {}, n |-> 0]
                 ELSE [k |-> "ok", found |-> {Shown(v, l[i].name, l[i].ino) : i \in 1..Len(l)}, n |-> Len(l)])
    [] e.op = "find" ->
         LET f == Find(v, e.path) IN Keep(IF f.ok THEN [k |-> "ok", entry |-> Shown(v, f.name, f.ino)] ELSE [k |-> "none"])
    [] e.op = "byid" ->
         Keep(IF e.ino < 1 \/ e.ino > v.inodes THEN ErrOut ELSE [k |-> "ok", entry |-> Shown(v, NoName, e.ino)])
    [] e.op = "file" ->
         LET f == Find(v, e.path) yes == f.ok /\ IsFile(InodeAt(v, f.ino))
         IN [st |-> [st EXCEPT !.files[e.layer] = IF yes THEN [open |-> TRUE, ino |-> f.ino, s |-> StreamInit] ELSE NoFile],
             out |-> [k |-> IF yes THEN "ok" ELSE "none"]]
    [] OTHER ->
         LET f == st.files[e.layer] x == InodeAt(v, f.ino)
             Here(s) == Where(v, x.ref, s)
             r == StreamStep(Size(x), LAMBDA p, n: IF x.ref.kind = "inline" THEN InlineBytes(x.ref, p, n) ELSE DiskBytes(Here, p, n), f.s, e)
         IN IF ~f.open THEN [st |-> st, out |-> ErrOut] ELSE [st |-> [st EXCEPT !.files[e.layer].s = r.st], out |-> r.out]
ExtAgrees(o, e) ==
  CASE e.op = "open" -> o.k = e.out.k /\ (o.k = "ok" => o.meta = e.out.meta)
    [] e.op = "list" -> o.k = e.out.k /\ (o.k = "ok" => o.n = Len(e.out.found) /\ o.found = {e.out.found[i]: i \in 1..Len(e.out.found)})
    [] e.op \in {"find", "byid"} -> o.k = e.out.k /\ (o.k = "ok" => o.entry = e.out.entry)
    [] e.op = "file" -> o.k = e.out.k
    [] OTHER -> StreamAgrees(o, e)
===========================================================================
