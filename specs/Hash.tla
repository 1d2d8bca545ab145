-------------------------------- MODULE Hash --------------------------------
(* Message digest contexts (MD5, SHA-1, SHA-224, SHA-256, SHA-512) as incremental
   machines: chaining value, pending bytes (less than a block), message length.
   DigestOf gives the whole-message definition of RFC 1321 and FIPS 180-4. *)
EXTENDS Word32, SequencesExt, HashTables

(* 64-bit words: four 16-bit limbs, most significant first. *)
QXor(a, b) == [i \in 1..4 |-> a[i] ^^ b[i]]
QAnd(a, b) == [i \in 1..4 |-> a[i] & b[i]]
QNot(a) == [i \in 1..4 |-> 65535 - a[i]]
QAdd(a, b) == LET s4 == a[4] + b[4]
                  s3 == a[3] + b[3] + (s4 \div 65536)
                  s2 == a[2] + b[2] + (s3 \div 65536)
                  s1 == a[1] + b[1] + (s2 \div 65536)
              IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
QRotr(a, n) == LET q == n \div 16 m == n % 16
                   At(i) == a[((i - 1 - q + 8) % 4) + 1]
                   Prev(i) == a[((i - 2 - q + 8) % 4) + 1]
               IN [i \in 1..4 |-> (((Prev(i) % Pow2[m + 1]) * Pow2[17 - m]) % 65536) + (At(i) \div Pow2[m + 1])]
QShr(a, n) == LET m == n % 16   \* n < 16 here
              IN [i \in 1..4 |-> (IF i = 1 THEN 0 ELSE ((a[i - 1] % Pow2[m + 1]) * Pow2[17 - m])) + (a[i] \div Pow2[m + 1])]
QBE(s, i) == <<s[i] * 256 + s[i+1], s[i+2] * 256 + s[i+3], s[i+4] * 256 + s[i+5], s[i+6] * 256 + s[i+7]>>

Sum3(a, b, c) == WAdd(a, WAdd(b, c))
Sum4(a, b, c, d) == WAdd(WAdd(a, b), WAdd(c, d))

BlockSize(kind) == IF kind = "sha512" THEN 128 ELSE 64
InitialH(kind) == CASE kind = "md5" -> Md5H [] kind = "sha1" -> Sha1H [] kind = "sha224" -> Sha224H
                    [] kind = "sha256" -> Sha256H [] kind = "sha512" -> Sha512H

(* ---- MD5 ---- *)
Md5S == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>
Md5Step(x, v, i) ==  \* i in 0..63
  LET a == v[1] b == v[2] c == v[3] d == v[4]
      r == i \div 16
      f == CASE r = 0 -> WOr(WAnd(b, c), WAnd(WNot(b), d))
             [] r = 1 -> WOr(WAnd(d, b), WAnd(WNot(d), c))
             [] r = 2 -> WXor(b, WXor(c, d))
             [] r = 3 -> WXor(c, WOr(b, WNot(d)))
      g == CASE r = 0 -> i [] r = 1 -> (5 * i + 1) % 16 [] r = 2 -> (3 * i + 5) % 16 [] r = 3 -> (7 * i) % 16
      t == Sum4(a, f, Md5K[i + 1], x[g + 1])
  IN <<d, WAdd(b, WRotl(t, Md5S[r + 1][(i % 4) + 1])), b, c>>
Md5Block(h, blk) ==
  LET x == [k \in 1..16 |-> WLE(blk, 4 * k - 3)]
      v == FoldLeft(LAMBDA acc, i: Md5Step(x, acc, i), h, [i \in 1..64 |-> i - 1])
  IN [k \in 1..4 |-> WAdd(h[k], v[k])]

(* ---- SHA-1 ---- *)
Sha1Schedule(blk) ==
  FoldLeft(LAMBDA w, t: Append(w, WRotl(WXor(WXor(w[t - 3], w[t - 8]), WXor(w[t - 14], w[t - 16])), 1)),
           [k \in 1..16 |-> WBE(blk, 4 * k - 3)], [k \in 1..64 |-> k + 16])
Sha1Step(w, v, t) ==  \* t in 1..80
  LET r == (t - 1) \div 20
      f == CASE r = 0 -> WOr(WAnd(v[2], v[3]), WAnd(WNot(v[2]), v[4]))
             [] r = 2 -> WOr(WAnd(v[2], v[3]), WOr(WAnd(v[2], v[4]), WAnd(v[3], v[4])))
             [] OTHER -> WXor(v[2], WXor(v[3], v[4]))
      tmp == WAdd(Sum4(WRotl(v[1], 5), f, v[5], Sha1K[r + 1]), w[t])
  IN <<tmp, v[1], WRotl(v[2], 30), v[3], v[4]>>
Sha1Block(h, blk) ==
  LET w == Sha1Schedule(blk)
      v == FoldLeft(LAMBDA acc, t: Sha1Step(w, acc, t), h, [t \in 1..80 |-> t])
  IN [k \in 1..5 |-> WAdd(h[k], v[k])]

(* ---- SHA-224 and SHA-256 ---- *)
Sig0(x) == WXor(WRotr(x, 7), WXor(WRotr(x, 18), WShr(x, 3)))
Sig1(x) == WXor(WRotr(x, 17), WXor(WRotr(x, 19), WShr(x, 10)))
Big0(x) == WXor(WRotr(x, 2), WXor(WRotr(x, 13), WRotr(x, 22)))
Big1(x) == WXor(WRotr(x, 6), WXor(WRotr(x, 11), WRotr(x, 25)))
Sha256Schedule(blk) ==
  FoldLeft(LAMBDA w, t: Append(w, Sum4(Sig1(w[t - 2]), w[t - 7], Sig0(w[t - 15]), w[t - 16])),
           [k \in 1..16 |-> WBE(blk, 4 * k - 3)], [k \in 1..48 |-> k + 16])
Sha256Step(w, v, t) ==
  LET ch == WXor(WAnd(v[5], v[6]), WAnd(WNot(v[5]), v[7]))
      maj == WXor(WAnd(v[1], v[2]), WXor(WAnd(v[1], v[3]), WAnd(v[2], v[3])))
      t1 == WAdd(Sum4(v[8], Big1(v[5]), ch, Sha256K[t]), w[t])
      t2 == WAdd(Big0(v[1]), maj)
  IN <<WAdd(t1, t2), v[1], v[2], v[3], WAdd(v[4], t1), v[5], v[6], v[7]>>
Sha256Block(h, blk) ==
  LET w == Sha256Schedule(blk)
      v == FoldLeft(LAMBDA acc, t: Sha256Step(w, acc, t), h, [t \in 1..64 |-> t])
  IN [k \in 1..8 |-> WAdd(h[k], v[k])]

(* ---- SHA-512 ---- *)
QSig0(x) == QXor(QRotr(x, 1), QXor(QRotr(x, 8), QShr(x, 7)))
QSig1(x) == QXor(QRotr(x, 19), QXor(QRotr(x, 61), QShr(x, 6)))
QBig0(x) == QXor(QRotr(x, 28), QXor(QRotr(x, 34), QRotr(x, 39)))
QBig1(x) == QXor(QRotr(x, 14), QXor(QRotr(x, 18), QRotr(x, 41)))
Sha512Schedule(blk) ==
  FoldLeft(LAMBDA w, t: Append(w, QAdd(QAdd(QSig1(w[t - 2]), w[t - 7]), QAdd(QSig0(w[t - 15]), w[t - 16]))),
           [k \in 1..16 |-> QBE(blk, 8 * k - 7)], [k \in 1..64 |-> k + 16])
Sha512Step(w, v, t) ==
  LET ch == QXor(QAnd(v[5], v[6]), QAnd(QNot(v[5]), v[7]))
      maj == QXor(QAnd(v[1], v[2]), QXor(QAnd(v[1], v[3]), QAnd(v[2], v[3])))
      t1 == QAdd(QAdd(QAdd(v[8], QBig1(v[5])), QAdd(ch, Sha512K[t])), w[t])
      t2 == QAdd(QBig0(v[1]), maj)
  IN <<QAdd(t1, t2), v[1], v[2], v[3], QAdd(v[4], t1), v[5], v[6], v[7]>>
Sha512Block(h, blk) ==
  LET w == Sha512Schedule(blk)
      v == FoldLeft(LAMBDA acc, t: Sha512Step(w, acc, t), h, [t \in 1..80 |-> t])
  IN [k \in 1..8 |-> QAdd(h[k], v[k])]

Compress(kind, h, blk) == CASE kind = "md5" -> Md5Block(h, blk)
                            [] kind = "sha1" -> Sha1Block(h, blk)
                            [] kind \in {"sha224", "sha256"} -> Sha256Block(h, blk)
                            [] kind = "sha512" -> Sha512Block(h, blk)

(* Padding: 0x80, zeros, and the bit length (64 or 128 bits, byte order per algorithm). *)
LengthBytes(kind, n) ==   \* n bytes, n < 2^28
  LET bits == n * 8
      le == <<bits % 256, (bits \div 256) % 256, (bits \div 65536) % 256, bits \div 16777216, 0, 0, 0, 0>>
  IN CASE kind = "md5" -> le
       [] kind = "sha512" -> [i \in 1..16 |-> IF i <= 8 THEN 0 ELSE le[17 - i]]
       [] OTHER -> [i \in 1..8 |-> le[9 - i]]
Padding(kind, n) ==
  LET bs == BlockSize(kind)
      lb == LengthBytes(kind, n)
      z == (2 * bs - 1 - Len(lb) - (n % bs)) % bs
  IN <<128>> \o [i \in 1..z |-> 0] \o lb

RECURSIVE Blocks(_, _, _)
Blocks(kind, h, s) ==   \* compress the whole blocks of s
  IF Len(s) < BlockSize(kind) THEN [h |-> h, rest |-> s]
  ELSE Blocks(kind, Compress(kind, h, SubSeq(s, 1, BlockSize(kind))), SubSeq(s, BlockSize(kind) + 1, Len(s)))

Flat(ss) == FoldLeft(LAMBDA acc, x: acc \o x, <<>>, ss)
Output(kind, h) ==
  CASE kind = "md5" -> Flat([i \in 1..4 |-> BytesLE(h[i])])
    [] kind = "sha1" -> Flat([i \in 1..5 |-> BytesBE(h[i])])
    [] kind = "sha224" -> Flat([i \in 1..7 |-> BytesBE(h[i])])
    [] kind = "sha256" -> Flat([i \in 1..8 |-> BytesBE(h[i])])
    [] kind = "sha512" -> Flat([i \in 1..8 |-> <<h[i][1] \div 256, h[i][1] % 256, h[i][2] \div 256, h[i][2] % 256,
                                                 h[i][3] \div 256, h[i][3] % 256, h[i][4] \div 256, h[i][4] % 256>>])

(* The context machine. *)
Fresh(kind) == [h |-> InitialH(kind), buf |-> <<>>, n |-> 0]
Update(kind, c, s) == LET b == Blocks(kind, c.h, c.buf \o s)
                      IN [st |-> [h |-> b.h, buf |-> b.rest, n |-> c.n + Len(s)], out |-> "ok"]
Finalize(kind, c) == [st |-> Fresh(kind),
                      out |-> Output(kind, Blocks(kind, c.h, c.buf \o Padding(kind, c.n)).h)]
Apply(kind, c, op) == IF op.op = "update" THEN Update(kind, c, op.data) ELSE Finalize(kind, c)

(* The whole-message definition. *)
DigestOf(kind, m) == Output(kind, Blocks(kind, InitialH(kind), m \o Padding(kind, Len(m))).h)
=============================================================================
