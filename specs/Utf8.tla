-------------------------------- MODULE Utf8 --------------------------------
(* Well-formed UTF-8 (Unicode, table 3-7) as an automaton, and the code points it stands
   for; and Base64 (RFC 4648, section 4). *)
EXTENDS Integers, Sequences, SequencesExt

\* Number of bytes and the range of the second byte for each lead byte; 0 when ill-formed.
LeadLen(b) == CASE b < 128 -> 1 [] b \in 194..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..244 -> 4 [] OTHER -> 0
SecondLo(b) == CASE b = 224 -> 160 [] b = 240 -> 144 [] OTHER -> 128
SecondHi(b) == CASE b = 237 -> 159 [] b = 244 -> 143 [] OTHER -> 191
WellFormedAt(s, i) ==
  LET n == LeadLen(s[i]) IN
  /\ n > 0 /\ i + n - 1 <= Len(s)
  /\ n > 1 => s[i + 1] \in SecondLo(s[i])..SecondHi(s[i])
  /\ \A k \in 2..(n - 1): s[i + k] \in 128..191
CodePointAt(s, i) ==
  LET n == LeadLen(s[i]) IN
  CASE n = 1 -> s[i]
    [] n = 2 -> (s[i] - 192) * 64 + (s[i + 1] - 128)
    [] n = 3 -> (s[i] - 224) * 4096 + (s[i + 1] - 128) * 64 + (s[i + 2] - 128)
    [] n = 4 -> (s[i] - 240) * 262144 + (s[i + 1] - 128) * 4096 + (s[i + 2] - 128) * 64 + (s[i + 3] - 128)
\* Code points up to the first ill-formed sequence, which is reported as -1.
RECURSIVE Utf8From(_, _, _)
Utf8From(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF ~WellFormedAt(s, i) THEN Append(acc, -1)
  ELSE Utf8From(s, i + LeadLen(s[i]), Append(acc, CodePointAt(s, i)))
Utf8Decode(s) == Utf8From(s, 1, <<>>)
Utf8Matches(s, out) == LET d == Utf8Decode(s) IN
  IF Len(d) > 0 /\ d[Len(d)] = -1 THEN Len(out) \in Len(d)..Len(s) /\ SubSeq(out, 1, Len(d)) = d ELSE out = d
\* The encoding of a scalar value.
Utf8Encode(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
    [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

(* ---- Base64 ---- *)
Sixtet(b) == CASE b \in 65..90 -> b - 65 [] b \in 97..122 -> b - 71 [] b \in 48..57 -> b + 4
               [] b = 43 -> 62 [] b = 47 -> 63 [] OTHER -> -1
White == {9, 10, 11, 13, 32}
Pad == 61
\* The part of a text before the first padding character or the first character that is
\* not allowed: the digits, how it ended, and where.
RECURSIVE B64Scan(_, _, _, _)
B64Scan(s, white, i, digits) ==
  IF i > Len(s) THEN [digits |-> digits, end |-> "end", at |-> i]
  ELSE IF s[i] = Pad THEN [digits |-> digits, end |-> "pad", at |-> i]
  ELSE IF white /\ s[i] \in White THEN B64Scan(s, white, i + 1, digits)
  ELSE IF Sixtet(s[i]) = -1 THEN [digits |-> digits, end |-> "bad", at |-> i]
  ELSE B64Scan(s, white, i + 1, Append(digits, Sixtet(s[i])))
\* The bytes that n digits fill completely.
B64Bytes(d) == [k \in 1..((Len(d) * 6) \div 8) |->
   LET q == ((k - 1) \div 3) * 4 r == (k - 1) % 3
   IN CASE r = 0 -> (d[q + 1] * 4 + (d[q + 2] \div 16)) % 256
        [] r = 1 -> (d[q + 2] % 16) * 16 + (d[q + 3] \div 4)
        [] r = 2 -> (d[q + 3] % 4) * 64 + d[q + 4]]
RightPadding(s, at, n) == \* after n digits, at position `at`, exactly the padding that fills the quantum
  LET need == (4 - (n % 4)) % 4 IN
  /\ need > 0 => at + need - 1 <= Len(s) /\ \A k \in 0..(need - 1): s[at + k] = Pad
\* A text that RFC 4648 allows (with the white space setting).
B64Proper(s, white) == LET r == B64Scan(s, white, 1, <<>>) n == Len(r.digits) IN
  /\ r.end # "bad"
  /\ IF r.end = "end" THEN n % 4 = 0
     ELSE /\ n % 4 \in {2, 3} /\ RightPadding(s, r.at, n) /\ Len(s) = r.at + 3 - (n % 4)
          /\ (n % 4 = 2 => r.digits[n] % 16 = 0) /\ (n % 4 = 3 => r.digits[n] % 4 = 0)
\* A text that must be refused when decoded as a whole: a character outside the alphabet
\* before the padding, or padding that does not fill the quantum.
B64Refused(s) == LET r == B64Scan(s, FALSE, 1, <<>>) IN
  r.end = "bad" \/ (r.end = "pad" /\ ~RightPadding(s, r.at, Len(r.digits)))
B64Context(s, size, out) ==
  LET b == B64Bytes(B64Scan(s, FALSE, 1, <<>>).digits) IN
  CASE B64Refused(s) \/ Len(b) > size -> out.end = "error"
    [] B64Proper(s, FALSE) -> out.end = "ok" /\ out.data = b
    [] OTHER -> out.end = "error" \/ (out.end = "ok" /\ out.data = b)
\* Pulling values from the stream: the bytes filled before the end, padding or first bad
\* character; the latter is an error.
B64Stream(s, white, out) ==
  LET r == B64Scan(s, white, 1, <<>>) IN
  /\ out.data = B64Bytes(r.digits)
  /\ out.end = IF r.end = "bad" THEN "error" ELSE "ok"
\* The encoder, for the round trip.
Digit64(d) == CASE d < 26 -> d + 65 [] d < 52 -> d + 71 [] d < 62 -> d - 4 [] d = 62 -> 43 [] d = 63 -> 47
RECURSIVE B64Encode(_)
B64Encode(b) ==
  CASE Len(b) = 0 -> <<>>
    [] Len(b) = 1 -> <<Digit64(b[1] \div 4), Digit64((b[1] % 4) * 16), Pad, Pad>>
    [] Len(b) = 2 -> <<Digit64(b[1] \div 4), Digit64((b[1] % 4) * 16 + (b[2] \div 16)), Digit64((b[2] % 16) * 4), Pad>>
    [] OTHER -> <<Digit64(b[1] \div 4), Digit64((b[1] % 4) * 16 + (b[2] \div 16)),
                  Digit64((b[2] % 16) * 4 + (b[3] \div 64)), Digit64(b[3] % 64)>> \o B64Encode(SubSeq(b, 4, Len(b)))
=============================================================================
