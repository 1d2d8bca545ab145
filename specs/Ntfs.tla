-------------------------------- MODULE Ntfs --------------------------------
(* NTFS volumes.  v has: bs (bytes per cluster), mftsz (bytes per entry of the master file table),
   nents (entries of the table), label (16-bit units, <<-1>>: none), serial (bytes), version, vflags
   (<<-1>>: none), up (the case table, as ranges <<first, last, step, difference>>), what entries of
   the table are, v.entries, and the nodes of indexes in the volume, v.nodes, [at, values] by their
   first sector.

   An entry [n, state, seq, base, jsn, inuse, attrs] has attributes: records of type t and name with
   either data (bytes), or a list of other attributes (t = 32), or the values of the root of an index
   (t = 144, with node, the unit of numbers of nodes in bytes), or runs (bytes) from cluster `first`
   of the attribute, its size, valid size and compression unit in clusters (0: not compressed).
   Attributes of an entry can be in other entries, which an attribute list says, and the runs of one
   attribute in several.

   A run is a count of clusters and where they are, or none: these are zeros.  Of a compression unit
   with all clusters these are the contents, of one with none these are zeros, of others the
   clusters there are have the contents compressed.  What is beyond the valid size reads as zeros. *)
EXTENDS Disk, SequencesExt, FiniteSets
DT == INSTANCE DateTime
U16(b, i) == b[i + 1] + b[i + 2] * 256
U32(b, i) == <<0, b[i + 4], (b[i + 3] * 65536) + U16(b, i)>>
Units(b) == [k \in 1..(Len(b) \div 2) |-> U16(b, 2 * (k - 1))]
NoName == <<-1>>
---------------------------------------------------------------------------
\* number in the n bytes of b after i, with sign
Signed(b, i, n) == FoldLeft(LAMBDA a, k: (a * 256) + b[i + n + 1 - k], IF n > 0 /\ b[i + n] >= 128 THEN -1 ELSE 0, [k \in 1..n |-> k])
Unsigned(b, i, n) == FoldLeft(LAMBDA a, k: (a * 256) + b[i + n + 1 - k], 0, [k \in 1..n |-> k])
\* runs, as <<count, cluster or -1>>
RECURSIVE Runs(_, _, _, _)
Runs(b, i, last, acc) ==
  LET n == b[i + 1] % 16 m == b[i + 1] \div 16
      at == last + Signed(b, i + 1 + n, m)
      count == Unsigned(b, i + 1, n)
  IN IF i >= Len(b) \/ n = 0 THEN acc
     ELSE IF m = 0 THEN Runs(b, i + 1 + n, last, Append(acc, <<count, -1>>))
     ELSE Runs(b, i + 1 + n + m, at, Append(acc, <<count, at>>))
RunsOf(b) == IF b = <<>> THEN <<>> ELSE Runs(b, 0, 0, <<>>)
\* the cluster of cluster k, or -1
RECURSIVE LcnAt(_, _)
LcnAt(runs, k) == IF runs = <<>> THEN -1
               ELSE IF k < runs[1][1] THEN IF runs[1][2] = -1 THEN -1 ELSE runs[1][2] + k
               ELSE LcnAt(Tail(runs), k - runs[1][1])
---------------------------------------------------------------------------
\* entries and their attributes
NoEntry == [state |-> "empty"]
EntryAt(v, n) == LET i == SelectInSeq(v.entries, LAMBDA x: x.n = n) IN IF i = 0 THEN NoEntry ELSE v.entries[i]
Others(x) == {l[2] : l \in UNION {ToSet(x.attrs[i].list) : i \in {k \in DOMAIN x.attrs : x.attrs[k].t = 32}}} \ {x.n}
Parts(v, n) ==
  LET x == EntryAt(v, n)
  IN FoldLeft(LAMBDA a, m: a \o EntryAt(v, m).attrs, x.attrs, SetToSortSeq(Others(x), LAMBDA a, b: a < b))
\* parts of the attribute, in the order of their clusters, as one
Whole(parts) ==
  LET s == SortSeq(parts, LAMBDA a, b: a.first < b.first)
  IN [s[1] EXCEPT !.runs = FoldLeft(LAMBDA a, p: a \o RunsOf(p.runs), <<>>, s)]
Attr(all, t, name) ==
  LET p == SelectSeq(all, LAMBDA a: a.t = t /\ a.name = name)
  IN IF p = <<>> THEN [none |-> TRUE] ELSE IF p[1].res THEN p[1] @@ [none |-> FALSE] ELSE Whole(p) @@ [none |-> FALSE]
SizeOf(a) == IF a.res THEN BInt(Len(a.data)) ELSE a.size
\* types of the attributes there are; all names of a file count
Types(all) ==
  LET ids == {<<all[i].t, all[i].name, IF all[i].t = 48 THEN i ELSE 0>> : i \in DOMAIN all}
      seq == SetToSeq(ids)
  IN SortSeq([i \in 1..Len(seq) |-> seq[i][1]], LAMBDA a, b: a < b)
Forks(all) ==
  LET names == {all[i].name : i \in {k \in DOMAIN all : all[k].t = 128}}
  IN {[name |-> n, size |-> SizeOf(Attr(all, 128, n))] : n \in names}
---------------------------------------------------------------------------
\* contents
Where(v, a, s) ==
  LET per == v.bs \div 512 k == s \div per u == a.comp
      c == LcnAt(a.runs, k)
      first == (k \div u) * u
      have == Cardinality({i \in 0..u - 1 : LcnAt(a.runs, first + i) # -1})
  IN IF u = 0 THEN IF c = -1 THEN Zero ELSE <<1, (c * per) + (s % per)>>
     ELSE IF have = 0 THEN Zero
     ELSE IF have = u THEN <<1, (c * per) + (s % per)>>
     ELSE <<2, (LcnAt(a.runs, first) * per) + (s - (first * per))>>
Bytes(v, a, p, n) ==
  IF a.res THEN [k \in 1..n |-> a.data[BSmall(p) + k]]
  ELSE LET Here(s) == Where(v, a, s) b == DiskBytes(Here, p, n)
       IN [k \in 1..n |-> IF BLess(BAdd(p, BInt(k - 1)), a.valid) THEN b[k] ELSE 0]
---------------------------------------------------------------------------
\* reparse points
Tag(b) == U32(b, 0)
LinkTag == <<0, 160, 12>>            \* 0xa000000c
JunctionTag == <<0, 160, 3>>
OverlayTag == <<0, 128, 23>>
Reparse(all) == LET a == Attr(all, 192, NoName) IN IF a.none THEN <<>> ELSE a.data
IsOverlay(all) == LET b == Reparse(all) IN b # <<>> /\ Tag(b) = OverlayTag
Substitute(b) == Units(SubSeq(b, 21 + U16(b, 8), 20 + U16(b, 8) + U16(b, 10)))
\* of files of an overlay, the chunks are in another stream, after a table of places: each
\* <<place, first sector of its contents if it is compressed, -1 if not>>
Chunk(b) == LET m == b[21] IN CASE m = 0 -> 4096 [] m = 1 -> 32768 [] m = 2 -> 8192 [] m = 3 -> 16384
OverlayName == <<87, 111, 102, 67, 111, 109, 112, 114, 101, 115, 115, 101, 100, 68, 97, 116, 97>>
ChunkBytes(v, a, size, k, from, n) ==
  LET c == a.chunks[k + 1]
      Here(s) == <<3, c[2] + s>>
  IN IF c[2] = -1 THEN Bytes(v, a, BInt(c[1] + from), n) ELSE DiskBytes(Here, BInt(from), n)
OverlayBytes(v, a, size, p, n) ==
  FoldLeft(LAMBDA out, k:
      LET lo == IF p > k * size THEN p ELSE k * size
          hi == IF p + n < (k + 1) * size THEN p + n ELSE (k + 1) * size
      IN IF lo >= hi THEN out ELSE out \o ChunkBytes(v, a, size, k, lo - (k * size), hi - lo),
    <<>>, [i \in 1..Len(a.chunks) |-> i - 1])
StreamBytes(v, all, name, p, n) ==
  LET a == Attr(all, 128, name)
  IN IF name = NoName /\ IsOverlay(all) THEN OverlayBytes(v, Attr(all, 128, OverlayName), Chunk(Reparse(all)), BSmall(p), n)
     ELSE Bytes(v, a, p, n)
---------------------------------------------------------------------------
\* directories: a value has a reference <<entry, sequence>>, a file name (bytes), a sub node or -1; last: it has no name
I30 == <<36, 73, 51, 48>>
NameOf(f) == Units(SubSeq(f, 67, 66 + (2 * f[65])))
SpaceOf(f) == f[66]
Reference(b, i) == <<U16(b, i) + (U16(b, i + 2) * 65536), U16(b, i + 6)>>
UpUnit(v, c) == LET i == SelectInSeq(v.up, LAMBDA r: r[1] <= c /\ c <= r[2] /\ (c - r[1]) % r[3] = 0) IN IF i = 0 THEN c ELSE c + v.up[i][4]
Upper(v, name) == [i \in DOMAIN name |-> UpUnit(v, name[i])]
NodeAt(v, index, root, k) ==
  LET s == (k * (root.node \div 512)) per == v.bs \div 512
      at == (LcnAt(index.runs, s \div per) * per) + (s % per)
  IN v.nodes[SelectInSeq(v.nodes, LAMBDA x: x.at = at)].values
RECURSIVE Under(_, _, _, _)
Under(v, index, root, values) ==
  FoldLeft(LAMBDA a, x: (IF x.sub = -1 THEN a ELSE a \o Under(v, index, root, NodeAt(v, index, root, x.sub))) \o (IF x.last THEN <<>> ELSE <<x>>),
           <<>>, values)
Values(v, all) ==
  LET root == Attr(all, 144, I30) index == Attr(all, 160, I30)
  IN Under(v, index, root, root.values)
IsDir(all) == \E i \in DOMAIN all : all[i].name = I30
Listed(v, all) == SelectSeq(Values(v, all), LAMBDA x: SpaceOf(x.file) # 2 /\ NameOf(x.file) # <<46>>)
\* directories can be case sensitive (no versions, but version 1)
Sensitive(all) == LET b == Attr(all, 16, NoName) IN ~b.none /\ U32(b.data, 36) = B0 /\ U32(b.data, 40) = BInt(1)
Same(v, all, a, b) == IF Sensitive(all) THEN a = b ELSE Upper(v, a) = Upper(v, b)
\* looks down the tree: nodes are sorted by upper case names
Less(a, b) == \E i \in 1..Len(b) : (\A j \in 1..i - 1 : j <= Len(a) /\ a[j] = b[j]) /\ (i > Len(a) \/ a[i] < b[i])
RECURSIVE Descend(_, _, _, _, _)
Descend(v, index, root, values, name) ==
  LET i == SelectInSeq(values, LAMBDA x: x.last \/ ~Less(Upper(v, NameOf(x.file)), name))
      x == values[i]
  IN IF ~x.last /\ Upper(v, NameOf(x.file)) = name THEN <<x>>
     ELSE IF x.sub = -1 THEN <<>> ELSE Descend(v, index, root, NodeAt(v, index, root, x.sub), name)
---------------------------------------------------------------------------
ErrOut == [k |-> "err"]
Torn(v, n) == EntryAt(v, n).state = "torn"
Find(v, path) ==
  FoldLeft(LAMBDA a, name:
    IF ~a.ok \/ Torn(v, a.n) THEN a
    ELSE LET all == Parts(v, a.n) IN
      IF ~IsDir(all) THEN [a EXCEPT !.ok = FALSE]
      ELSE LET l == Values(v, all) i == SelectInSeq(l, LAMBDA x: Same(v, all, NameOf(x.file), name))
           IN IF i = 0 THEN [a EXCEPT !.ok = FALSE] ELSE [ok |-> TRUE, n |-> l[i].ref[1], value |-> <<l[i]>>],
    [ok |-> TRUE, n |-> 5, value |-> <<>>], path)
Time(b, i) == IF \A k \in 1..8 : b[i + k] = 0 THEN "not set" ELSE DT!Filetime(SubSeq(b, i + 1, i + 8))[1]
\* what is shown of entry n, found as value (<<>>: by its number)
Shown(v, n, value) ==
  LET x == EntryAt(v, n) there == x.state = "ok"
      all == IF there THEN Parts(v, n) ELSE <<>>
      si == Attr(all, 16, NoName) d == Attr(all, 128, NoName) r == Reparse(all)
      T(i) == IF si.none THEN "" ELSE Time(si.data, i)
  IN [n |-> n, name |-> IF value = <<>> THEN NoName ELSE NameOf(value[1].file),
      ref |-> IF value = <<>> THEN <<n, IF there THEN x.seq ELSE 0>> ELSE value[1].ref,
      parent |-> IF value = <<>> THEN <<-1, -1>> ELSE Reference(value[1].file, 0),
      seq |-> IF there THEN x.seq ELSE 0, base |-> IF there THEN x.base ELSE <<0, 0>>, jsn |-> IF there THEN x.jsn ELSE B0,
      empty |-> x.state = "empty", bad |-> x.state = "bad", inuse |-> there /\ x.inuse, root |-> n = 5, dir |-> IsDir(all),
      flags |-> IF si.none THEN B0 ELSE U32(si.data, 32),
      crtime |-> T(0), mtime |-> T(8), ctime |-> T(16), atime |-> T(24),
      size |-> IF d.none THEN B0 ELSE SizeOf(d), forks |-> Forks(all), types |-> Types(all),
      link |-> r # <<>> /\ Tag(r) = LinkTag, junction |-> r # <<>> /\ Tag(r) = JunctionTag,
      target |-> IF r # <<>> /\ Tag(r) = LinkTag THEN Substitute(r) ELSE NoName]
Meta(v) == [label |-> v.label, serial |-> v.serial, version |-> v.version, vflags |-> v.vflags]
---------------------------------------------------------------------------
(* Histories: open, list a directory, look up a path or an entry, open streams and read them. *)
NoFile == [open |-> FALSE, n |-> 0, name |-> NoName, s |-> StreamInit]
NtfsInit == [files |-> [i \in 0..3 |-> NoFile]]
NtfsStep(v, st, e) ==
  LET Keep(o) == [st |-> st, out |-> o] IN
  CASE e.op = "open" -> Keep(IF v.wrong THEN ErrOut ELSE [k |-> "ok", meta |-> Meta(v)])
    [] e.op = "list" ->
         LET f == Find(v, e.path) all == Parts(v, f.n) l == Listed(v, all)
         IN Keep(IF Torn(v, f.n) THEN ErrOut ELSE IF ~f.ok THEN [k |-> "none"] ELSE IF ~IsDir(all) THEN [k |-> "ok", found |-> {}, n |-> 0]
                 ELSE IF \E i \in DOMAIN l : Torn(v, l[i].ref[1]) THEN ErrOut
                 ELSE [k |-> "ok", found |-> {Shown(v, l[i].ref[1], <<l[i]>>) : i \in 1..Len(l)}, n |-> Len(l)])
    [] e.op = "find" ->
         LET f == Find(v, e.path)
         IN Keep(IF Torn(v, f.n) THEN ErrOut ELSE IF ~f.ok THEN [k |-> "none"] ELSE [k |-> "ok", entry |-> Shown(v, f.n, f.value)])
    [] e.op = "byid" ->
         Keep(IF e.n < 0 \/ e.n >= v.nents THEN ErrOut ELSE IF Torn(v, e.n) THEN ErrOut ELSE [k |-> "ok", entry |-> Shown(v, e.n, <<>>)])
    [] e.op = "file" ->
         LET f == Find(v, e.path)
             yes == f.ok /\ (\E i \in DOMAIN Parts(v, f.n) : Parts(v, f.n)[i].t = 128 /\ Parts(v, f.n)[i].name = e.name)
         IN [st |-> [st EXCEPT !.files[e.layer] = IF yes THEN [open |-> TRUE, n |-> f.n, name |-> e.name, s |-> StreamInit] ELSE NoFile],
             out |-> IF Torn(v, f.n) THEN ErrOut ELSE [k |-> IF yes THEN "ok" ELSE "none"]]
    [] OTHER ->
         LET f == st.files[e.layer] all == Parts(v, f.n)
             r == StreamStep(SizeOf(Attr(all, 128, f.name)), LAMBDA p, n: StreamBytes(v, all, f.name, p, n), f.s, e)
         IN IF ~f.open THEN [st |-> st, out |-> ErrOut] ELSE [st |-> [st EXCEPT !.files[e.layer].s = r.st], out |-> r.out]
\* the streams of an entry are a set, and so is a listing
AsSet(x) == [x EXCEPT !.forks = {x.forks[i] : i \in DOMAIN x.forks}]
NtfsAgrees(o, e) ==
  CASE e.op = "open" -> o.k = e.out.k /\ (o.k = "ok" => o.meta = e.out.meta)
    [] e.op = "list" -> o.k = e.out.k /\ (o.k = "ok" => o.n = Len(e.out.found) /\ o.found = {AsSet(e.out.found[i]): i \in 1..Len(e.out.found)})
    [] e.op \in {"find", "byid"} -> o.k = e.out.k /\ (o.k = "ok" => o.entry = AsSet(e.out.entry) /\ Cardinality(o.entry.forks) = Len(e.out.entry.forks))
    [] e.op = "file" -> o.k = e.out.k
    [] OTHER -> StreamAgrees(o, e)
=============================================================================
