-------------------------------- MODULE Big --------------------------------
(* Signed integers beyond TLC's 32 bits: <<a, b, c>> stands for a*2^48 + b*2^24 + c with
   b and c in 0..2^24-1. *)
EXTENDS Integers, Sequences
BM == 16777216
BInt(n) == <<(n \div BM) \div BM, (n \div BM) % BM, n % BM>>
BAdd(x, y) ==
  LET c == x[3] + y[3] b == x[2] + y[2] + (c \div BM) a == x[1] + y[1] + (b \div BM)
  IN <<a, b % BM, c % BM>>
BSub(x, y) ==
  LET c == x[3] - y[3] b == x[2] - y[2] + (c \div BM) a == x[1] - y[1] + (b \div BM)
  IN <<a, b % BM, c % BM>>
BLess(x, y) == \/ x[1] < y[1]
               \/ x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3]))
BLeq(x, y) == ~BLess(y, x)
BNeg(x) == x[1] < 0
BFits(x) == x[1] = 0 /\ x[2] < 128       \* fits TLC's integers
BSmall(x) == x[2] * BM + x[3]
\* min(x, n) for a natural number x and an integer n
BMin(x, n) == IF BLess(x, BInt(n)) THEN BSmall(x) ELSE n
\* x times a natural number k < 2^7
BTimes(x, k) == LET c == x[3] * k b == x[2] * k + (c \div BM) a == x[1] * k + (b \div BM) IN <<a, b % BM, c % BM>>
BMax63 == <<32767, BM - 1, BM - 1>>
B0 == <<0, 0, 0>>
=============================================================================
