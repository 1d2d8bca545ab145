------------------------------- MODULE Format -------------------------------
(* The debug formatters.  Texts are sequences of character codes. *)
EXTENDS Integers, Sequences, SequencesExt
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex2(b) == <<Digit(b \div 16), Digit(b % 16)>>
RECURSIVE HexN(_, _)
HexN(v, n) == IF n = 0 THEN <<>> ELSE Append(HexN(v \div 16, n - 1), Digit(v % 16))
Spaces(n) == [i \in 1..n |-> 32]
Shown(b) == IF b >= 32 /\ b < 127 THEN b ELSE 46
NL == 10
\* One line of the dump: offset, 16 columns in two halves (blank where there is no byte),
\* the characters.
Column(d, off, i) == IF off + i < Len(d) THEN Append(Hex2(d[off + i + 1]), 32) ELSE Spaces(3)
RECURSIVE Columns(_, _, _)
Columns(d, off, i) == IF i = 16 THEN <<>>
  ELSE Column(d, off, i) \o (IF i = 7 THEN <<32>> ELSE <<>>) \o Columns(d, off, i + 1)
Min2(a, b) == IF a < b THEN a ELSE b
DumpLine(d, off) == HexN(off, 8) \o Spaces(2) \o Columns(d, off, 0) \o <<32>>
   \o [i \in 1..Min2(16, Len(d) - off) |-> Shown(d[off + i])] \o <<NL>>
\* Lines with the same 16 bytes as the line before, other than the last full line, are
\* collapsed: each run of them is shown as a line of three dots.
Row(d, off) == SubSeq(d, off + 1, off + 16)
Collapsed(d, off, group) ==
  group /\ off >= 16 /\ off + 16 < (Len(d) \div 16) * 16 /\ Row(d, off) = Row(d, off - 16)
RowText(d, group, off) ==
  IF ~Collapsed(d, off, group) THEN DumpLine(d, off)
  ELSE IF Collapsed(d, off - 16, group) THEN <<>> ELSE <<46, 46, 46, NL>>
RECURSIVE DumpRows(_, _, _, _)   \* rows lo to hi, from 0
DumpRows(d, group, lo, hi) ==
  IF lo > hi THEN <<>> ELSE IF lo = hi THEN RowText(d, group, 16 * lo)
  ELSE LET m == (lo + hi) \div 2 IN DumpRows(d, group, lo, m) \o DumpRows(d, group, m + 1, hi)
Dump(d, group) == DumpRows(d, group, 0, ((Len(d) + 15) \div 16) - 1) \o <<NL>>
AsString(d) == [i \in 1..(2 * Len(d)) |-> Hex2(d[(i + 1) \div 2])[2 - (i % 2)]]
Comma == <<44, 32>>
Join(parts, sep) == IF Len(parts) = 0 THEN <<>> ELSE FoldLeft(LAMBDA a, p: a \o sep \o p, parts[1], Tail(parts))
RECURSIVE Rows(_)
Rows(a) == IF Len(a) <= 16 THEN <<Join(a, Comma)>> ELSE <<Join(SubSeq(a, 1, 16), Comma)>> \o Rows(SubSeq(a, 17, Len(a)))
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
ArrayText(a) ==
  IF Len(a) = 0 THEN <<91, 93>>
  ELSE IF \A i \in DOMAIN a: a[i] = a[1] THEN <<91>> \o a[1] \o <<59, 32>> \o Decimal(Len(a)) \o <<93>>
  ELSE IF Len(a) <= 16 THEN <<91>> \o Join(a, Comma) \o <<93>>
  ELSE <<91, NL>> \o Spaces(8) \o Join(Rows(a), <<44, NL>> \o Spaces(8)) \o <<NL>> \o Spaces(4) \o <<93>>

(* ---- the texts read back ---- *)
UnHex(c) == IF c < 58 THEN c - 48 ELSE c - 87
Lines(t) ==
  LET r == FoldLeft(LAMBDA a, c: IF c = NL THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                                 ELSE [a EXCEPT !.cur = Append(@, c)], [done |-> <<>>, cur |-> <<>>], t)
  IN Append(r.done, r.cur)
\* The bytes a dump line shows.
LineBytes(l) ==
  LET cols == [i \in 0..15 |-> 11 + 3 * i + (IF i > 7 THEN 1 ELSE 0)]
      n == Len(l) - 60
  IN [i \in 1..n |-> UnHex(l[cols[i - 1]]) * 16 + UnHex(l[cols[i - 1] + 1])]
LineOffset(l) == FoldLeft(LAMBDA a, c: a * 16 + UnHex(c), 0, SubSeq(l, 1, 8))
\* The bytes a whole dump shows; dots stand for repetitions up to the next offset.
RECURSIVE ReadLines(_, _, _)
ReadLines(ls, k, acc) ==
  IF k > Len(ls) \/ ls[k] = <<>> THEN acc
  ELSE IF ls[k] = <<46, 46, 46>>
       THEN LET rep == (LineOffset(ls[k + 1]) - Len(acc)) \div 16
                last == SubSeq(acc, Len(acc) - 15, Len(acc))
            IN ReadLines(ls, k + 1, acc \o [i \in 1..(16 * rep) |-> last[((i - 1) % 16) + 1]])
  ELSE ReadLines(ls, k + 1, acc \o LineBytes(ls[k]))
ReadDump(t) == ReadLines(Lines(t), 1, <<>>)
=============================================================================
