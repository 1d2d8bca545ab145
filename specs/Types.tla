-------------------------------- MODULE Types --------------------------------
(* Value types: byte strings, UCS-2 and UTF-16 strings and UUIDs, as registers holding a
   sequence of elements.
     byte string   [enc, el]    el: bytes          UCS-2 / UTF-16  el: 16-bit units
     UUID          el: the 16 bytes in big-endian order
   Text is a sequence of Unicode code points. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CU == INSTANCE Utf8
CT == INSTANCE Codec
CaseTable == JsonDeserialize("tables/ucs2_upcase.json")
Lowers == {CaseTable[i][1] : i \in DOMAIN CaseTable}
UpperOf == [x \in Lowers |-> CaseTable[CHOOSE i \in DOMAIN CaseTable : CaseTable[i][1] = x][2]]

\* up to, and without, the first terminator
Cut(s) == IF \E i \in DOMAIN s : s[i] = 0
          THEN SubSeq(s, 1, (CHOOSE i \in DOMAIN s : s[i] = 0 /\ \A j \in 1..(i - 1) : s[j] # 0) - 1) ELSE s
\* 16-bit units of bytes; an odd byte at the end is none
Units(b, big) == [i \in 1..(Len(b) \div 2) |-> IF big THEN b[2 * i - 1] * 256 + b[2 * i] ELSE b[2 * i] * 256 + b[2 * i - 1]]
\* UTF-16 code units of a text
UnitsOf(cp) == IF cp < 65536 THEN <<cp>> ELSE LET v == cp - 65536 IN <<55296 + (v \div 1024), 56320 + (v % 1024)>>
UnitsOfText(t) == FlattenSeq([i \in DOMAIN t |-> UnitsOf(t[i])])
IsHigh(u) == u \in 55296..56319
IsLow(u) == u \in 56320..57343

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex4(u) == <<HexDigit(u \div 4096), HexDigit((u \div 256) % 16), HexDigit((u \div 16) % 16), HexDigit(u % 16)>>
EscapeUnit(u) == <<92, 123>> \o Hex4(u) \o <<125>>        \* \{d800}
\* a code point in the text of a byte string or UCS-2 string
Shown(cp) == IF cp = 92 THEN <<92, 92>> ELSE IF cp \in 55296..57343 THEN EscapeUnit(cp) ELSE <<cp>>
Ucs2Text(el) == FlattenSeq([i \in DOMAIN el |-> Shown(el[i])])
Utf16At(el, i) == IF IsHigh(el[i]) /\ i < Len(el) /\ IsLow(el[i + 1]) THEN 2 ELSE 1
RECURSIVE Utf16From(_, _, _)
Utf16From(el, i, acc) ==
  IF i > Len(el) THEN acc
  ELSE IF Utf16At(el, i) = 2
       THEN Utf16From(el, i + 2, Append(acc, 65536 + (el[i] - 55296) * 1024 + (el[i + 1] - 56320)))
       ELSE Utf16From(el, i + 1, acc \o (IF el[i] \in 55296..57343 THEN EscapeUnit(el[i]) ELSE <<el[i]>>))
Utf16Text(el) == Utf16From(el, 1, <<>>)

\* the code points of the bytes; from the first error on it is not defined (-1 at the end)
CodePoints(enc, el) ==
  LET d == IF enc = "utf8" THEN CU!Utf8Decode(el) ELSE CT!Decode(enc, el)
      bad == {i \in DOMAIN d : d[i] = -1}
  IN IF bad = {} THEN d ELSE SubSeq(d, 1, CHOOSE i \in bad : \A j \in bad : i <= j)
Faulty(cps) == cps # <<>> /\ Last(cps) = -1
ByteText(enc, el) == LET cps == CodePoints(enc, el) IN
  FlattenSeq([i \in DOMAIN cps |-> IF cps[i] = -1 THEN <<>> ELSE Shown(cps[i])])
ByteTextMatches(enc, el, t) ==
  IF Faulty(CodePoints(enc, el)) THEN IsPrefix(ByteText(enc, el), t) ELSE t = ByteText(enc, el)

\* the order of sequences: -1, 0, 1
Order(a, b) ==
  IF a = b THEN 0
  ELSE LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
           i == SelectInSeq([k \in 1..n |-> a[k] # b[k]], LAMBDA x : x)   \* the first difference, or 0
       IN IF i = 0 THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE IF a[i] < b[i] THEN -1 ELSE 1
Fold(el) == [i \in DOMAIN el |-> IF el[i] \in Lowers THEN UpperOf[el[i]] ELSE el[i]]

(* ---- UUID ---- *)
UuidBe(b) == SubSeq(b, 1, 16)
UuidLe(b) == <<b[4], b[3], b[2], b[1], b[6], b[5], b[8], b[7]>> \o SubSeq(b, 9, 16)
Hex2(x) == <<HexDigit(x \div 16), HexDigit(x % 16)>>
Hexes(s) == FlattenSeq([i \in DOMAIN s |-> Hex2(s[i])])
UuidText(u) == Hexes(SubSeq(u, 1, 4)) \o <<45>> \o Hexes(SubSeq(u, 5, 6)) \o <<45>> \o Hexes(SubSeq(u, 7, 8)) \o <<45>> \o
               Hexes(SubSeq(u, 9, 10)) \o <<45>> \o Hexes(SubSeq(u, 11, 16))
Nibble(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
Unbraced(t) == IF Len(t) >= 2 /\ t[1] = 123 /\ Last(t) = 125 THEN SubSeq(t, 2, Len(t) - 1) ELSE t
Dashes == {9, 14, 19, 24}
IsUuidText(t) == /\ Len(t) = 36
                 /\ \A i \in 1..36 : IF i \in Dashes THEN t[i] = 45 ELSE Nibble(t[i]) >= 0
UuidParse(t) == LET d == SelectSeq(t, LAMBDA c : c # 45)
                IN [i \in 1..16 |-> Nibble(d[2 * i - 1]) * 16 + Nibble(d[2 * i])]
=============================================================================
