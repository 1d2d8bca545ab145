------------------------------- MODULE Tools -------------------------------
(* The command line tools over a world (Vfs.tla): a hash of each stream of each file of a source, a
   line of a bodyfile for each, the hierarchy of what is in it, an export of one stream.
   An entry has more: `raw`, the names of its path as numbers (of characters, 16-bit units, or, if
   marked, of bytes that are not characters), `sums` of its contents, `id`, `uid`, `gid`, `mode`,
   `flags`, `length`, `stamps` (access, modification, change, creation), `forks` (name, length,
   sums) and `named` (the times kept with its name). *)
EXTENDS Vfs, Big, TLC

\* ---- names as they are shown
HexDigit == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
Nibble(n) == HexDigit[n + 1]
BackX(n) == <<92, 120, Nibble(n \div 16), Nibble(n % 16)>>
BackU(n) == <<92, 85, 48, 48>> \o [k \in 1..6 |-> Nibble((n \div (16 ^ (6 - k))) % 16)]
NonCharacter(n) == (n >= 64976 /\ n <= 64991) \/ (n % 65536) >= 65534
Unprintable == {8232, 8233, 57344, 63743, 983040, 1048573, 1048576, 1114109}
Surrogate(n) == n >= 55296 /\ n <= 57343
Slashed == {47, 58, 92}                        \* / : \
EscapeOne(n, more) ==
  IF n < 32 \/ (n >= 127 /\ n < 160) THEN BackX(n)
  ELSE IF n \in Slashed \cup more THEN <<92, n>>
  ELSE IF NonCharacter(n) \/ n \in Unprintable \/ Surrogate(n) THEN BackU(n)
  ELSE <<n>>
Escaped(raw, more) ==
  LET torn == raw[1]
  IN FoldLeft(LAMBDA acc, n: acc \o (IF torn /\ n >= 128 THEN BackU(56320 + n) ELSE EscapeOne(n, more)), <<>>, raw[2])
\* the path of an entry
ShownPath(e, more) ==
  IF Len(e.raw) = 1 THEN <<47>>
  ELSE FoldLeft(LAMBDA acc, k: acc \o (IF k = 1 THEN <<>> ELSE <<47>>) \o Escaped(e.raw[k], more), <<>>, [k \in DOMAIN e.raw |-> k])

\* ---- times in seconds, in decimal, without needless zeros
BHalf(x) == LET b == (x[1] % 10) * BM + x[2] c == (b % 10) * BM + x[3] IN [q |-> <<x[1] \div 10, b \div 10, c \div 10>>, r |-> c % 10]
RECURSIVE Digits(_)
Digits(x) == IF x = B0 THEN <<>> ELSE LET d == BHalf(x) IN Append(Digits(d.q), d.r)
TimeParts(t) ==
  LET d == Digits(t[2])
      p == t[3]
      all == IF Len(d) <= p THEN [k \in 1..(p + 1 - Len(d)) |-> 0] \o d ELSE d
      rest == SubSeq(all, Len(all) - p + 1, Len(all))
      used == {k \in DOMAIN rest : rest[k] # 0}
      most == IF used = {} THEN 0 ELSE CHOOSE k \in used: \A j \in used: j <= k
  IN [neg |-> t[1] /\ t[2] # B0, whole |-> SubSeq(all, 1, Len(all) - p), rest |-> SubSeq(rest, 1, most)]
DigitText(s) == FoldLeft(LAMBDA acc, x: acc \o ToString(x), "", s)
TimeText(t) ==
  IF t = <<>> THEN ""
  ELSE LET x == TimeParts(t)
       IN (IF x.neg THEN "-" ELSE "") \o DigitText(x.whole) \o (IF x.rest = <<>> THEN "" ELSE "." \o DigitText(x.rest))

\* ---- modes
Has(m, b) == (m \div b) % 2 = 1
Rwx(m) == LET c(b, x) == IF Has(m, b) THEN x ELSE "-"
          IN c(256, "r") \o c(128, "w") \o c(64, "x") \o c(32, "r") \o c(16, "w") \o c(8, "x") \o c(4, "r") \o c(2, "w") \o c(1, "x")
TypeLetter(m) == CASE m \div 4096 = 1 -> "p" [] m \div 4096 = 2 -> "c" [] m \div 4096 = 4 -> "d" [] m \div 4096 = 6 -> "b"
                   [] m \div 4096 = 10 -> "l" [] m \div 4096 = 12 -> "s" [] OTHER -> "-"
Mode(t, e) ==
  IF t = "Ext" THEN TypeLetter(e.mode) \o Rwx(e.mode)
  ELSE (CASE e.kind = "dir" -> "d" [] e.kind = "link" -> "l" [] OTHER -> "-")
       \o (IF Has(e.flags, 1) \/ Has(e.flags, 4) THEN "r-xr-xr-x" ELSE "rwxrwxrwx")

\* ---- the file systems that a scan of a source ends at
RECURSIVE Ends(_)
Ends(nodes) == FoldLeft(LAMBDA acc, n: acc \o (IF n.sub = <<>> THEN <<n>> ELSE Ends(n.sub)), <<>>, nodes)
\* the location of texts of a node, as one of paths: of its file system
RECURSIVE FsAt(_, _, _)
Plain(t, p) == IF p = "/" \/ p = "\\" THEN <<"">> ELSE t
\* the entry of file system f that a text names
EntryNamed(w, f, p) == LET at == {i \in DOMAIN Entries(w, f) : (p \in {"/", "\\"} /\ Len(Entries(w, f)[i].path) = 1) \/ (Len(Entries(w, f)[i].path) = 2 /\ Slash(Entries(w, f)[i].path) = p)}
                       IN CHOOSE i \in at: TRUE
FsAt(w, loc, k) ==
  IF k = 1 THEN 1
  ELSE LET f == FsAt(w, loc, k - 1) IN View(Entries(w, f)[EntryNamed(w, f, loc[k - 1][2])], loc[k][1])
NodeFs(w, n) == FsAt(w, n.loc, Len(n.loc))
NodeEntry(w, n) == LET f == NodeFs(w, n) IN Entries(w, f)[EntryNamed(w, f, n.loc[Len(n.loc)][2])]

CharCodes == [p |-> <<112>>, gpt |-> <<103, 112, 116>>]
DecimalOf(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
\* what comes before the paths of a file system: the partition it is in
Prefix(w, n, by) ==
  LET l == Len(n.loc)
      t == n.loc[l - 1][1]
      f == FsAt(w, n.loc, l - 1)
      i == EntryNamed(w, f, n.loc[l - 1][2])
      e == Entries(w, f)[i]
  IN IF t \notin Volumes THEN <<>>
     ELSE IF by = "identifier" /\ t = "Gpt" THEN <<47, 103, 112, 116, 123>> \o e.guidcodes \o <<125>>
     ELSE <<47, 112>> \o DecimalOf(i - 1)

\* ---- lines
Zeros == "00000000000000000000000000000000"
Shows(w, nodes) == SelectSeq(Ends(nodes), LAMBDA n: n.fs)
HashLines(w, n, e) ==
  LET f == NodeFs(w, n)
      es == Entries(w, f)
      pre == Prefix(w, n, e.by)
      of(i) == (IF es[i].has THEN {[sum |-> es[i].sums[e.algo], path |-> pre \o ShownPath(es[i], {})]} ELSE {})
               \cup {[sum |-> es[i].forks[j][3][e.algo], path |-> pre \o ShownPath(es[i], {}) \o <<58>> \o Escaped(es[i].forks[j][1], {})] : j \in DOMAIN es[i].forks}
  IN UNION {of(i) : i \in {i \in DOMAIN es : es[i].kind # "own"}}
BodyLines(w, n, e) ==
  LET f == NodeFs(w, n)
      t == w.fss[f].type
      es == Entries(w, f)
      pre == Prefix(w, n, e.by)
      of(i) ==
        LET x == es[i]
            path == pre \o ShownPath(x, {124})
            suffix == IF x.kind = "link" THEN <<32, 45, 62, 32>> \o x.targetcodes ELSE <<>>
            sum == IF ~e.md5 THEN "0" ELSE IF x.has THEN x.sums["md5"] ELSE Zeros
            line(s, p, size, at) == [sum |-> s, path |-> p, id |-> x.id, mode |-> Mode(t, x), uid |-> x.uid, gid |-> x.gid, size |-> ToString(size),
                                     times |-> [k \in 1..4 |-> TimeText(at[k])]]
        IN {line(sum, path \o suffix, x.length, x.stamps)}
           \cup {line(IF e.md5 THEN x.forks[j][3]["md5"] ELSE "0", path \o <<58>> \o Escaped(x.forks[j][1], {124}) \o suffix, x.forks[j][2], x.stamps) : j \in DOMAIN x.forks}
           \cup (IF x.named = <<>> THEN {} ELSE {line(sum, path \o <<32, 40, 36, 70, 73, 76, 69, 95, 78, 65, 77, 69, 41>>, x.length, x.named)})
  IN UNION {of(i) : i \in {i \in DOMAIN es : es[i].kind # "own"}}
\* the files that the file system itself is made of are listed too
Own(w, nodes, e, line) ==
  \E k \in DOMAIN nodes: LET pre == Prefix(w, nodes[k], e.by)
                         IN /\ w.fss[NodeFs(w, nodes[k])].type = "Ntfs"
                            /\ (IsPrefix(pre \o <<47, 36>>, line.path) \/ IsPrefix(pre \o <<47, 46>>, line.path))
RECURSIVE Tree(_, _, _)
Tree(w, nodes, depth) ==
  FoldLeft(LAMBDA acc, n: acc \o <<[depth |-> depth, type |-> Known[n.loc[Len(n.loc)][1]], path |-> n.loc[Len(n.loc)][2],
                                    alias |-> LET e == NodeEntry(w, n) IN IF n.loc[Len(n.loc)][1] = "Gpt" /\ Len(e.path) = 2 THEN "/gpt{" \o e.guid \o "}" ELSE ""]>> \o Tree(w, n.sub, depth + 1),
           <<>>, nodes)
\* the streams of a name at a path, one of each file system that has it
Exported(w, nodes, e) ==
  FoldLeft(LAMBDA acc, n: LET f == NodeFs(w, n)
                              i == Find(w, f, e.path)
                              s == IF i = 0 THEN None ELSE Stream(w, f, i, e.name)
                          IN IF s.k = "ok" THEN Append(acc, s) ELSE acc, <<>>, Shows(w, nodes))

ToolStep(w, e) ==
  LET src == Entries(w, 1)[Find(w, 1, e.source)]
      nodes == Nodes(w, src, <<<<"Os", "/" \o src.name>>>>, "os")
  IN CASE e.op = "hash" -> (IF nodes = <<>> THEN [k |-> "one", sum |-> src.sums[e.algo]]
                            ELSE [k |-> "lines", nodes |-> Shows(w, nodes), lines |-> UNION {{<<k, l>> : l \in HashLines(w, Shows(w, nodes)[k], e)} : k \in DOMAIN Shows(w, nodes)}])
       [] e.op = "bodyfile" -> [k |-> "lines", nodes |-> Shows(w, nodes), lines |-> UNION {{<<k, l>> : l \in BodyLines(w, Shows(w, nodes)[k], e)} : k \in DOMAIN Shows(w, nodes)}]
       [] e.op = "hierarchy" -> [k |-> "tree", tree |-> <<[depth |-> 0, type |-> "OS", path |-> "/" \o src.name, alias |-> ""]>> \o Tree(w, nodes, 1)]
       [] e.op = "export" -> (IF nodes = <<>> THEN [k |-> "failed"] ELSE
                              LET s == Exported(w, nodes, e) IN IF s = <<>> THEN [k |-> "nothing"] ELSE [k |-> "ok", size |-> s[Len(s)].size, crc |-> s[Len(s)].crc])
       [] e.op = "stdin" -> [k |-> "one", sum |-> src.sums[e.algo]]
       [] e.op = "image" -> LET f == View(src, src.scan.img)
                                es == Entries(w, f)
                            IN [k |-> "one", sum |-> es[Len(es)].sums["md5"]]
       [] OTHER -> [k |-> "none"]
ToolAgrees(w, x, e) ==
  LET o == e.out
  IN IF x.k # "lines" THEN o = x
     ELSE /\ o.k = "lines"
          /\ LET rest == SelectSeq(o.lines, LAMBDA l: ~Own(w, x.nodes, e, l))
                 mine == {l \in x.lines : ~Own(w, x.nodes, e, l[2])}
             IN /\ Len(rest) = Cardinality(mine)
                /\ {rest[i] : i \in DOMAIN rest} = {l[2] : l \in mine}
                \* (the same line twice if it is the line of two files)
                /\ \A l \in mine: Cardinality({i \in DOMAIN rest : rest[i] = l[2]}) = Cardinality({y \in mine : y[2] = l[2]})
          /\ e.op # "hash" =>
               \A k \in DOMAIN x.nodes: w.fss[NodeFs(w, x.nodes[k])].type = "Ntfs" =>
                 \E l \in DOMAIN o.lines: o.lines[l].path = Prefix(w, x.nodes[k], e.by) \o <<47, 36, 77, 70, 84>>
=============================================================================
