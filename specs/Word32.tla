------------------------------- MODULE Word32 -------------------------------
(* 32-bit words as pairs <<high 16 bits, low 16 bits>>, because TLC's integers
   are 32-bit signed. *)
EXTENDS Integers, Sequences, Bitwise

W0 == <<0, 0>>
W1s == <<65535, 65535>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
WAdd(a, b) == LET lo == a[2] + b[2]
                  hi == a[1] + b[1] + (lo \div 65536)
              IN <<hi % 65536, lo % 65536>>
\* Right shift by one bit; left shift by one bit.
WShr1(a) == <<a[1] \div 2, ((a[1] % 2) * 32768) + (a[2] \div 2)>>
WShl1(a) == <<((a[1] * 2) % 65536) + (a[2] \div 32768), (a[2] * 2) % 65536>>
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
\* Right shift / rotate by n in 0..31.
WShr(a, n) == IF n >= 16 THEN <<0, a[1] \div Pow2[n - 15]>>
              ELSE <<a[1] \div Pow2[n + 1], ((a[1] % Pow2[n + 1]) * Pow2[17 - n]) + a[2] \div Pow2[n + 1]>>
WRotr(a, n) == LET m == n % 16
                   b == IF n >= 16 THEN <<a[2], a[1]>> ELSE a
               IN IF m = 0 THEN b
                  ELSE <<((b[2] % Pow2[m + 1]) * Pow2[17 - m]) + (b[1] \div Pow2[m + 1]),
                         ((b[1] % Pow2[m + 1]) * Pow2[17 - m]) + (b[2] \div Pow2[m + 1])>>
WRotl(a, n) == WRotr(a, (32 - n) % 32)
\* From and to bytes.
WBE(s, i) == <<s[i] * 256 + s[i + 1], s[i + 2] * 256 + s[i + 3]>>
WLE(s, i) == <<s[i + 3] * 256 + s[i + 2], s[i + 1] * 256 + s[i]>>
BytesBE(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
BytesLE(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
=============================================================================
