------------------------------- MODULE Udif -------------------------------
(* Universal disk image format.  A "raw" image is the sectors of its data fork, with the
   contents Pattern has from sector h.  A "tables" image has block tables [start, entries]; an
   entry [t, start, n, h, bad] says that n sectors from table.start + entry.start on are zero
   ("zero"), stored raw ("raw") or compressed (a method); what is stored has the contents
   Pattern has from sector h.  "comment" entries denote nothing, "end" ends a table, other
   types are unknown.  A bad entry cannot be read: its data is damaged ("read"), or is not in
   the data fork, which may show when the image is opened ("open"). *)
EXTENDS Disk, SequencesExt, FiniteSets
Methods == {"adc", "zlib", "bzip2", "lzfse", "lzma"}
\* The entries that count, with the sectors they start at, in the order of the tables.
Entries(l) == FlattenSeq([k \in 1..Len(l.tables) |->
  LET T == l.tables[k]
      e == SelectInSeq(T.entries, LAMBDA x: x.t = "end")
      live == IF e = 0 THEN T.entries ELSE SubSeq(T.entries, 1, e - 1)
  IN [i \in 1..Len(live) |-> [live[i] EXCEPT !.start = @ + T.start]]])
Ranges(l) == SelectSeq(Entries(l), LAMBDA x: x.t # "comment")
Sectors(l) == IF l.kind = "raw" THEN l.sectors ELSE FoldLeft(LAMBDA a, x: IF x.start + x.n > a THEN x.start + x.n ELSE a, 0, Ranges(l))
InOrder(rs) == FoldLeft(LAMBDA a, x: IF x.start = a THEN a + x.n ELSE -1, 0, rs) # -1
\* and the tables too: where a table without entries starts is open
TablesInOrder(l) == \A k \in 1..Len(l.tables): l.tables[k].start = Sectors([l EXCEPT !.tables = SubSeq(@, 1, k - 1)])
\* every sector once
Covers(rs, n) == /\ FoldLeft(LAMBDA a, x: a + x.n, 0, rs) = n
                 /\ \A i, j \in 1..Len(rs): i < j => rs[i].start + rs[i].n <= rs[j].start \/ rs[j].start + rs[j].n <= rs[i].start
\* "err": cannot be opened; "may": a reader may refuse it
Verdict(l) ==
  IF l.wrong # "no" THEN l.wrong
  ELSE IF l.kind = "raw" THEN "ok"
  ELSE LET rs == Ranges(l) IN
    IF \E i \in 1..Len(rs): rs[i].t \notin Methods \cup {"zero", "raw"} THEN "err"
    ELSE IF InOrder(rs)
    THEN IF \/ \E i \in 1..Len(rs): rs[i].n = 0 \/ rs[i].bad = "open" \/ rs[i].t = "lzma" \/ (rs[i].t \in Methods /\ rs[i].n > 2048)
            \/ ~TablesInOrder(l)
            \/ Cardinality({rs[i].t : i \in 1..Len(rs)} \cap Methods) > 1
         THEN "may" ELSE "ok"
    ELSE IF Covers(rs, Sectors(l)) THEN "may" ELSE "err"
Where(l, s) ==
  IF l.kind = "raw" THEN <<l.file, l.h + s>>
  ELSE LET rs == Ranges(l)
           i == SelectInSeq(rs, LAMBDA x: x.start <= s /\ s < x.start + x.n)
       IN IF i = 0 THEN Zero
          ELSE IF rs[i].bad # "no" THEN Broken
          ELSE IF rs[i].t = "zero" THEN Zero ELSE <<l.file, rs[i].h + (s - rs[i].start)>>
SizeOf(l) == IF l.kind = "raw" THEN l.size ELSE <<0, Sectors(l) \div 32768, (Sectors(l) % 32768) * 512>>
Meta(l) == LET i == IF l.kind = "raw" THEN 0 ELSE SelectInSeq(Ranges(l), LAMBDA x: x.t \in Methods)
           IN [size |-> SizeOf(l), bps |-> 512, comp |-> IF i = 0 THEN "none" ELSE Ranges(l)[i].t]
===========================================================================
