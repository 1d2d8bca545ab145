-------------------------------- MODULE Ewf --------------------------------
(* Expert witness compression format.  An image is segment files, segs: a sequence of
   [num, secs], the file with the name of the k-th segment; secs is a sequence of sections.
   Section types t and their fields, next to ok, whether the checksums hold:
     volume  spc, bps, size, count, media, gran, id       (disk has the same)
     header  kind, rows: sequence of <<key, value>>       (kind 2: header2; sequences of units)
     table   chunks: sequence of [h, bad]                 table2: a copy of it
     hash    md5            digest  md5, sha1             data    id
     next, done             sectors, other: nothing
   The chunks of the tables, in order, are the media, spc sectors of bps bytes each; what is
   stored has the contents Pattern has from sector h (of 512 bytes) of file 1. *)
EXTENDS Disk, SequencesExt, FiniteSets
\* the section of a segment that ends it
LastType(g) == IF Len(g.secs) = 0 THEN "none" ELSE g.secs[Len(g.secs)].t
Used(l) == LET d == SelectInSeq(l.segs, LAMBDA g: LastType(g) = "done") IN
           IF d = 0 THEN l.segs ELSE SubSeq(l.segs, 1, d)
Flat(l) == FlattenSeq([k \in 1..Len(Used(l)) |-> [i \in 1..Len(Used(l)[k].secs) |-> [seg |-> k, sec |-> Used(l)[k].secs[i]]]])
IsVolume(s) == s.t \in {"volume", "disk"}
Volume(l) == LET f == Flat(l) i == SelectInSeq(f, LAMBDA x: IsVolume(x.sec)) IN f[i].sec
Chunks(l) == FoldLeft(LAMBDA a, x: IF x.sec.t = "table" THEN a \o x.sec.chunks ELSE a, <<>>, Flat(l))
\* "ok", "err" or, where a reader may make something of it, "may"
Verdict(l) ==
  LET f == Flat(l) IN
  IF l.wrong # "no" THEN l.wrong
  ELSE IF \/ Used(l) = <<>> \/ LastType(Used(l)[Len(Used(l))]) # "done"
          \/ \E k \in 1..Len(Used(l)): Used(l)[k].num # k \/ (k < Len(Used(l)) /\ LastType(Used(l)[k]) # "next")
          \/ \E i \in 1..Len(f): ~f[i].sec.ok /\ f[i].sec.t \notin {"table", "table2"}
          \/ Len(SelectSeq(f, LAMBDA x: IsVolume(x.sec))) # 1
          \/ \E i \in 1..Len(f): f[i].seg > 1 /\ (IsVolume(f[i].sec) \/ f[i].sec.t = "header")
          \/ \E i \in 1..Len(f): f[i].sec.t = "data" /\ f[i].sec.id # Volume(l).id
          \/ \E i \in 1..Len(f): f[i].sec.t = "table" /\ \A j \in 1..i: ~IsVolume(f[j].sec)
  THEN "err"
  ELSE LET bad == {i \in 1..Len(f): ~f[i].sec.ok} IN
    IF bad = {} THEN IF Len(Chunks(l)) > Volume(l).count \/ \E i \in 1..Len(f): f[i].sec.t = "table" /\ f[i].sec.chunks = <<>> THEN "may" ELSE "ok"
    \* a table and its copy stand in for each other
    ELSE IF \A i \in bad: \/ f[i].sec.t = "table" /\ i < Len(f) /\ f[i + 1].sec.t = "table2" /\ f[i + 1].sec.ok
                          \/ f[i].sec.t = "table2" /\ f[i - 1].sec.t = "table" /\ f[i - 1].sec.ok
    THEN "may" ELSE "err"
PerChunk(l) == (Volume(l).spc * Volume(l).bps) \div 512
WhereIn(c, per, s) ==
  LET i == (s \div per) + 1 IN
  IF i > Len(c) THEN Broken ELSE IF c[i].bad THEN Broken ELSE <<1, c[i].h + (s % per)>>
Where(l, s) == WhereIn(Chunks(l), PerChunk(l), s)
---------------------------------------------------------------------------
\* Header values: the first section that has a key decides.
Digit(u) == u \in 48..57
Number(v) == FoldLeft(LAMBDA a, u: IF a < 0 \/ ~Digit(u) THEN -1
                                   ELSE IF a > 214748364 \/ (a = 214748364 /\ u > 55) THEN -1 ELSE (10 * a) + (u - 48), IF v = <<>> THEN -1 ELSE 0, v)
Dates == {"m", "u"}
KeysOf(kind) == {"a", "av", "c", "e", "l", "m", "md", "n", "ov", "p", "pid", "r", "sn", "t", "u"}
Row(kind, r) ==
  IF r[1] \notin KeysOf(kind) THEN <<>>
  ELSE IF kind = 2 /\ r[1] \in Dates THEN IF Number(r[2]) < 0 THEN <<>> ELSE <<[key |-> r[1], n |-> Number(r[2]), text |-> <<>>]>>
  ELSE <<[key |-> r[1], n |-> -1, text |-> r[2]]>>
AllRows(l) == FoldLeft(LAMBDA a, x: IF x.sec.t = "header" THEN a \o FlattenSeq([i \in 1..Len(x.sec.rows) |-> Row(x.sec.kind, x.sec.rows[i])]) ELSE a, <<>>, Flat(l))
Values(l) == LET r == AllRows(l) IN {r[i] : i \in {k \in 1..Len(r): \A j \in 1..(k - 1): r[j].key # r[k].key}}
HashOf(l, field, types, none) ==
  LET f == SelectSeq(Flat(l), LAMBDA x: x.sec.t \in types) IN IF f = <<>> THEN none ELSE f[Len(f)].sec[field]
Meta(l) ==
  LET v == Volume(l) IN
  [size |-> v.size, spc |-> v.spc, bps |-> v.bps, media |-> v.media, gran |-> v.gran, id |-> v.id,
   md5 |-> HashOf(l, "md5", {"hash", "digest"}, "00000000000000000000000000000000"),
   sha1 |-> HashOf(l, "sha1", {"digest"}, "0000000000000000000000000000000000000000")]
\* metadata as it was seen: the values are a sequence without order
MetaAgrees(l, m) == /\ [k \in DOMAIN m \ {"values"} |-> m[k]] = Meta(l)
                    /\ {m.values[i] : i \in 1..Len(m.values)} = Values(l) /\ Len(m.values) = Cardinality(Values(l))
============================================================================
