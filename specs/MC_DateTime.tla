---------------------------- MODULE MC_DateTime ----------------------------
(* The closed form of the calendar is the day-successor machine: over whole 400-year
   cycles starting at several points, the n-th day reached by the machine is Civil(n).
   The clock splits every number of seconds consistently, also before the epoch. *)
EXTENDS DateTime
CONSTANTS Starts, Span
VARIABLES n, date, left
\* Sixteen stretches that together cover the cycle 0000-01-01 .. 0399-12-31.
StartSet == {-719528 + i * 9131 : i \in 0..15}
Init == n \in Starts /\ date = Civil(n) /\ left = Span
Next == left > 0 /\ left' = left - 1 /\ n' = n + 1 /\ date' = NextDay(date)
Spec == Init /\ [][Next]_<<n, date, left>>
ClosedFormIsMachine == date = Civil(n)
ValidDate == date[2] \in 1..12 /\ date[3] \in 1..DaysInMonth(date[1], date[2])
\* Seconds around midnight of day n, split and recombined.
Limbs(x) == <<0, 0, x \div 65536, x % 65536>>
ClockAgrees == LET x == ((n % 20000) * 86400) + (n % 86400)
                   p == Clock(Limbs(x), FALSE) q == Clock(Limbs(x), TRUE)
               IN /\ p.days = x \div 86400 /\ p.h * 3600 + p.m * 60 + p.s = x % 86400
                  /\ q.days = (-x - 1) \div 86400 /\ q.h * 3600 + q.m * 60 + q.s = (-x - 1) % 86400
ASSUME Civil(0) = <<1970, 1, 1>> /\ Civil(-1) = <<1969, 12, 31>> /\ Civil(FiletimeEpoch) = <<1601, 1, 1>>
ASSUME Civil(11016) = <<2000, 2, 29>> /\ Civil(-719528) = <<0, 1, 1>>
=============================================================================
