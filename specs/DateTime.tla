------------------------------ MODULE DateTime ------------------------------
(* Timestamps and the proleptic Gregorian calendar.

   The calendar is a machine whose state is a date and whose only transition is the
   next day.  Timestamps are numbers in mixed radix (ticks, seconds, minutes, hours,
   days); 64-bit values are four 16-bit limbs, most significant first, because TLC's
   integers have 32 bits. *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysInMonth(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                       [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
                       [] OTHER -> 31
\* The transition: the day after <<y, m, d>>.
NextDay(t) == IF t[3] < DaysInMonth(t[1], t[2]) THEN <<t[1], t[2], t[3] + 1>>
              ELSE IF t[2] < 12 THEN <<t[1], t[2] + 1, 1>>
              ELSE <<t[1] + 1, 1, 1>>

\* Closed form: the date that is n days after 1970-01-01 (any integer n).
Civil(n) ==
  LET z == n + 719468                     \* days since 0000-03-01
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      d == doy - ((153 * mp + 2) \div 5) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d>>
FiletimeEpoch == -134774                  \* 1601-01-01 in days from 1970-01-01

(* Long division of a limb sequence by a small number. *)
RECURSIVE DivL(_, _, _, _)
DivL(s, d, i, acc) ==                     \* acc = [q, r]
  IF i > Len(s) THEN acc
  ELSE LET v == acc.r * 65536 + s[i]
       IN DivL(s, d, i + 1, [q |-> Append(acc.q, v \div d), r |-> v % d])
Div(s, d) == DivL(s, d, 1, [q |-> <<>>, r |-> 0])
\* The value of limbs known to be below 2^31.
Small(s) == FoldLeft(LAMBDA a, x: a * 65536 + x, 0, s)
Complement(s) == [i \in DOMAIN s |-> 65535 - s[i]]

\* Seconds (limbs) to [days, h, m, s]; `neg` says the limbs are the complement of a negative number.
Clock(sec, neg) ==
  LET a == Div(sec, 60) b == Div(a.q, 60) c == Div(b.q, 24)
      days == Small(c.q)
  IN IF neg THEN [days |-> -days - 1, h |-> 23 - c.r, m |-> 59 - b.r, s |-> 59 - a.r]
     ELSE [days |-> days, h |-> c.r, m |-> b.r, s |-> a.r]

(* Text. *)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Digits(n) == CASE n < 10 -> 1 [] n < 100 -> 2 [] n < 1000 -> 3 [] n < 10000 -> 4 [] n < 100000 -> 5
               [] n < 1000000 -> 6 [] n < 10000000 -> 7 [] n < 100000000 -> 8 [] n < 1000000000 -> 9 [] OTHER -> 10
Pad(n, w) == Zeros(w - Digits(n)) \o ToString(n)
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex8(b) == HexDigit[(b \div 16) + 1] \o HexDigit[(b % 16) + 1]
Hex16(x) == Hex8(x \div 256) \o Hex8(x % 256)
DateText(t) == Pad(t[1], 4) \o "-" \o Pad(t[2], 2) \o "-" \o Pad(t[3], 2)
TimeText(h, m, s) == "T" \o Pad(h, 2) \o ":" \o Pad(m, 2) \o ":" \o Pad(s, 2)

LimbsLE(b) == [i \in 1..(Len(b) \div 2) |-> b[Len(b) - 2 * i + 2] * 256 + b[Len(b) - 2 * i + 1]]

(* 100 ns ticks since 1601-01-01, 8 bytes little endian. *)
Filetime(b) ==
  LET t == LimbsLE(b)
      a == Div(t, 10000) c == Div(a.q, 1000)
      k == Clock(c.q, FALSE)
      iso == DateText(Civil(k.days + FiletimeEpoch)) \o TimeText(k.h, k.m, k.s) \o "." \o Pad(c.r * 10000 + a.r, 7)
  IN <<iso, iso \o " (0x" \o Hex16(t[1]) \o Hex16(t[2]) \o ":0x" \o Hex16(t[3]) \o Hex16(t[4]) \o ")">>

(* Seconds since 1970-01-01, signed. *)
PosixIso(t) == LET neg == t[1] >= 32768
                   k == Clock(IF neg THEN Complement(t) ELSE t, neg)
               IN DateText(Civil(k.days)) \o TimeText(k.h, k.m, k.s)
Signed32(t) == IF t[1] >= 32768 THEN -((65535 - t[1]) * 65536 + (65535 - t[2])) - 1 ELSE t[1] * 65536 + t[2]
Posix32(t) == <<PosixIso(t), PosixIso(t) \o " (" \o ToString(Signed32(t)) \o ")">>
Posix64(b, fraction) == PosixIso(LimbsLE(b)) \o "." \o Pad(fraction, 9)

(* FAT dates and times. *)
FatDateText(x) == DateText(<<1980 + (x \div 512), (x \div 32) % 16, x % 32>>)
FatDate(b) == LET x == b[2] * 256 + b[1] IN <<FatDateText(x), FatDateText(x) \o " (0x" \o Hex16(x) \o ")">>
FatTime(t, extra) == TimeText(t \div 2048, (t \div 32) % 64, (t % 32) * 2 + extra)
FatTimeDate(b) == LET t == b[2] * 256 + b[1] x == b[4] * 256 + b[3]
                      iso == FatDateText(x) \o FatTime(t, 0)
                  IN <<iso, iso \o " (0x" \o Hex16(x) \o ":0x" \o Hex16(t) \o ")">>
FatTimeDate10Ms(b) == LET f == b[1] t == b[3] * 256 + b[2] x == b[5] * 256 + b[4]
                          iso == FatDateText(x) \o FatTime(t, f \div 100) \o "." \o Pad(f % 100, 2)
                      IN <<iso, iso \o " (0x" \o Hex16(x) \o ":0x" \o Hex16(t) \o ":0x" \o Hex8(f) \o ")">>

Rendered(kind, e) ==
  CASE kind = "filetime" -> Filetime(e.bytes)
    [] kind = "posix32le" -> Posix32(LimbsLE(e.bytes))
    [] kind = "posix32be" -> Posix32(LimbsLE(Reverse(e.bytes)))
    [] kind = "posix64" -> <<Posix64(e.bytes, e.fraction)>>
    [] kind = "fatdate" -> FatDate(e.bytes)
    [] kind = "fattimedate" -> FatTimeDate(e.bytes)
    [] kind = "fattimedate10ms" -> FatTimeDate10Ms(e.bytes)
=============================================================================
