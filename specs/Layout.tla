------------------------------- MODULE Layout -------------------------------
(* Structure layouts.  A layout is [order, members]; a member is a record
     [k, name, type, n, order, fmt, mod, fields, cond, size]
   with k one of
     "field"  n elements of a type (n = 1: a single one)
     "str"    a string of n units
     "bits"   an integer of the type, divided over `fields` (their n is a number of bits)
     "group"  `fields` that are there when the size of the data meets `cond` [op, n]
   Reading lays the members one after the other: a field is read from where the sizes of the
   members before it add up to, in its own byte order or else that of the structure.
   Values are bit sequences, least significant bit first; types that are not integers are
   known by where they are read from. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Width(m) ==
  CASE m.type \in {"u8", "i8", "bytes"} -> 1
    [] m.type \in {"u16", "i16", "FatDate", "ucs2", "utf16"} -> 2
    [] m.type \in {"u32", "i32", "FatTimeDate", "PosixTime32"} -> 4
    [] m.type = "FatTimeDate10Ms" -> 5
    [] m.type \in {"u64", "i64", "Filetime"} -> 8
    [] m.type = "Uuid" -> 16
    [] m.type = "struct" -> m.size
IsInt(m) == m.type \in {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"}
RECURSIVE Size(_)
Size(m) == CASE m.k \in {"field", "str"} -> Width(m) * m.n
             [] m.k = "bits" -> Width(m)
             [] m.k = "group" -> FoldLeft(LAMBDA a, f : a + Size(f), 0, m.fields)
TotalSize(l) == FoldLeft(LAMBDA a, m : a + Size(m), 0, l.members)
Offset(ms, i) == FoldLeft(LAMBDA a, j : a + Size(ms[j]), 0, [j \in 1..(i - 1) |-> j])
Holds(cond, n) == CASE cond.op = ">" -> n > cond.n [] cond.op = ">=" -> n >= cond.n [] cond.op = "==" -> n = cond.n
                    [] cond.op = "<" -> n < cond.n [] cond.op = "!=" -> n # cond.n
OrderOf(l, m) == IF m.order # "" THEN m.order ELSE l.order

\* the bits of w bytes at offset o
Bit(x, k) == (x \div (2 ^ k)) % 2
BitsAt(data, o, w, order) ==
  [k \in 1..(8 * w) |-> LET b == (k - 1) \div 8
                        IN Bit(data[IF order = "be" THEN o + w - b ELSE o + b + 1], (k - 1) % 8)]
\* the modifier of a field: a mask with which the value is combined
Modified(bits, mod) ==
  IF mod.op = "" THEN bits
  ELSE [k \in DOMAIN bits |->
          LET m == IF k <= Len(mod.bits) THEN mod.bits[k] ELSE 0
          IN CASE mod.op = "&" -> bits[k] * m [] mod.op = "|" -> IF bits[k] + m > 0 THEN 1 ELSE 0
               [] mod.op = "^" -> (bits[k] + m) % 2]
Entry(name, vals, at, order, hex) == [name |-> name, vals |-> vals, at |-> at, order |-> order, hex |-> hex]
\* what is shown of a field or string at offset o
FieldEntry(l, m, data, o) ==
  IF IsInt(m)
  THEN Entry(m.name, [i \in 1..m.n |-> Modified(BitsAt(data, o + (i - 1) * Width(m), Width(m), OrderOf(l, m)), m.mod)], <<>>, "",
             IF m.fmt = "hex" THEN 2 * Width(m) ELSE IF m.fmt = "char" THEN -1 ELSE 0)
  ELSE Entry(m.name, <<>>, IF m.k = "str" THEN <<o>> ELSE [i \in 1..m.n |-> o + (i - 1) * Width(m)], OrderOf(l, m), 0)
BitEntries(l, m, data, o) ==
  LET all == BitsAt(data, o, Width(m), OrderOf(l, m))
      first(i) == FoldLeft(LAMBDA a, j : a + m.fields[j].n, 0, [j \in 1..(i - 1) |-> j])
  IN [i \in DOMAIN m.fields |->
        LET f == m.fields[i] part == SubSeq(all, first(i) + 1, first(i) + f.n)
        IN Entry(f.name, <<Modified([k \in DOMAIN all |-> IF k <= f.n THEN part[k] ELSE 0], f.mod)>>, <<>>, "",
                 IF f.fmt = "hex" THEN (f.n + 3) \div 4 ELSE 0)]
MemberEntries(l, m, data, o) ==
  CASE m.k \in {"field", "str"} -> <<FieldEntry(l, m, data, o)>>
    [] m.k = "bits" -> BitEntries(l, m, data, o)
    [] m.k = "group" -> IF Holds(m.cond, Len(data))
                        THEN [i \in DOMAIN m.fields |-> FieldEntry(l, m.fields[i], data, o + Offset(m.fields, i))]
                        ELSE <<>>
Shown(l, data) == FlattenSeq([i \in DOMAIN l.members |-> MemberEntries(l, l.members[i], data, Offset(l.members, i))])

\* reading at a position: exactly TotalSize bytes from there, or an error
ReadAt(l, data, pos) ==
  IF pos < 0 \/ pos + TotalSize(l) > Len(data) THEN [k |-> "err", data |-> <<>>]
  ELSE [k |-> "ok", data |-> SubSeq(data, pos + 1, pos + TotalSize(l))]
=============================================================================
