------------------------------ MODULE MC_Format ------------------------------
(* Data built from rows of a small alphabet with a last row of any length: the dump can be
   read back to exactly the data, with and without grouping, and all lines are aligned. *)
EXTENDS Format, TLC
CONSTANTS MaxRows, MaxArray
VARIABLES rows, tail, mode
RowOf(v) == [i \in 1..16 |-> IF v = 2 THEN (i * 13) % 256 ELSE v * 65]
Data == FoldLeft(LAMBDA a, v: a \o RowOf(v), <<>>, rows) \o [i \in 1..tail |-> (60 * i) % 256]
Init == rows = <<>> /\ tail \in 0..15 /\ mode \in {"dump", "array"}
Next == /\ Len(rows) < (IF mode = "dump" THEN MaxRows ELSE MaxArray) /\ UNCHANGED <<tail, mode>>
        /\ mode = "array" => tail \in {0, 1, 7, 15}
        /\ \E v \in 0..(IF mode = "dump" THEN 2 ELSE 0): rows' = Append(rows, v)
Spec == Init /\ [][Next]_<<rows, tail, mode>>
DumpReadsBack == mode = "dump" => \A g \in BOOLEAN: ReadDump(Dump(Data, g)) = Data
LinesAligned == mode = "dump" => \A g \in BOOLEAN: LET ls == Lines(Dump(Data, g)) IN
  \A k \in DOMAIN ls: ls[k] = <<>> \/ ls[k] = <<46, 46, 46>> \/
    (Len(ls[k]) = 60 + 16 \/ (k = Len(ls) - 2 /\ Len(ls[k]) = 60 + (Len(Data) % 16)))
OffsetsRise == mode = "dump" => LET ls == Lines(Dump(Data, FALSE)) IN
  \A k \in 1..(Len(ls) - 2): LineOffset(ls[k]) = 16 * (k - 1)
\* An array shows each of its elements once in order, in rows of 16.
Arr == [i \in 1..(16 * Len(rows) + tail) |-> Decimal(i)]
ArrayComplete == mode = "array" /\ Len(Arr) > 1 =>
  LET strip == SelectSeq(ArrayText(Arr), LAMBDA c: c \notin {32, NL, 91, 93})
  IN strip = Join(Arr, <<44>>)
ArrayRows == mode = "array" /\ Len(Arr) > 16 => \A k \in 2..(Len(Lines(ArrayText(Arr))) - 2):
  Len(SelectSeq(Lines(ArrayText(Arr))[k], LAMBDA c: c = 44)) = 16
=============================================================================
