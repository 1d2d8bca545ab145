------------------------------ MODULE Inflate ------------------------------
(* Deflate (RFC 1951) and zlib (RFC 1950) decompression as a machine that takes one
   element of the bit string after the other: a block header, a stored block, the
   header of a dynamic block, one code length, one literal or copy.

   cap is the size of the output buffer: output that does not fit is an error.
   lax marks streams that the format does not allow but that denote certain bytes all
   the same (an incomplete code whose unused part does not occur): they may be
   decompressed to those bytes or refused. *)
EXTENDS Huffman, CopyBack, Checksum

LBit(bytes, i) == (bytes[((i - 1) \div 8) + 1] \div 2^((i - 1) % 8)) % 2
LBits(bytes) == TLCEval([i \in 1..(8 * Len(bytes)) |-> LBit(bytes, i)])
\* A number of n bits after position p, least significant bit first.
LNum(bits, p, n) == FoldLeft(LAMBDA a, i: (2 * a) + bits[p + n + 1 - i], 0, [i \in 1..n |-> i])

FixedLens == [i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8]
FixedDistLens == [i \in 1..32 |-> 5]
FixedL == TLCEval(HuffmanCode(FixedLens, 15))
FixedD == TLCEval(HuffmanCode(FixedDistLens, 15))
ClOrder == <<16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15>>
LenExtra(s) == IF s = 285 THEN 0 ELSE IF s < 265 THEN 0 ELSE (s - 261) \div 4
LenBase(s) == IF s = 285 THEN 258 ELSE IF s < 265 THEN s - 254 ELSE 3 + (4 + ((s - 265) % 4)) * 2^((s - 261) \div 4)
DistExtra(s) == IF s < 4 THEN 0 ELSE (s - 2) \div 2
DistBase(s) == IF s < 4 THEN s + 1 ELSE 1 + (2 + (s % 2)) * 2^((s - 2) \div 2)

NoCode == [syms |-> <<>>, first |-> <<>>, left |-> 1, max |-> 0]
InflateInit(p) == [mode |-> "block", pos |-> p, out |-> <<>>, final |-> FALSE, lt |-> NoCode, dt |-> NoCode, ct |-> NoCode,
                   lens |-> <<>>, nlit |-> 0, ndist |-> 0, lax |-> FALSE, dists |-> 0]
InflateStep(bits, bytes, cap, s) ==
  LET n == Len(bits)
      Bit(i) == bits[i]
      Err == [s EXCEPT !.mode = "err"]
      Have(p, k) == p + k <= n
      Num(p, k) == LNum(bits, p, k)
      Next == IF s.final THEN "done" ELSE "block"
      Sym(h, p) == HuffmanDecode(h, Bit, n, p)
      \* A code for literals or distances may be a single code of one bit.
      Odd(h) == Incomplete(h) /\ ~(CodeCount(h) = 1 /\ Len(h.syms[1]) = 1)
      Built(lens, pos) ==
        LET lt == HuffmanCode(SubSeq(lens, 1, s.nlit), 15)
            dt == HuffmanCode(SubSeq(lens, s.nlit + 1, s.nlit + s.ndist), 15)
        IN IF lens[257] = 0 \/ OverSubscribed(lt) \/ OverSubscribed(dt) THEN Err
           ELSE [s EXCEPT !.mode = "sym", !.pos = pos, !.lt = TLCEval(lt), !.dt = TLCEval(dt), !.lens = <<>>,
                          !.lax = @ \/ Odd(lt) \/ (Odd(dt) /\ CodeCount(dt) > 0)]
  IN CASE s.mode \in {"done", "err"} -> s
       [] s.mode = "block" ->
            IF ~Have(s.pos, 3) THEN Err
            ELSE LET t == Num(s.pos + 1, 2)
                     h == [s EXCEPT !.final = (bits[s.pos + 1] = 1), !.pos = s.pos + 3]
                 IN (CASE t = 0 -> [h EXCEPT !.mode = "stored"]
                      [] t = 1 -> [h EXCEPT !.mode = "sym", !.lt = FixedL, !.dt = FixedD]
                      [] t = 2 -> [h EXCEPT !.mode = "dyn"]
                      [] t = 3 -> Err)
       [] s.mode = "stored" ->
            LET p == ((s.pos + 7) \div 8) * 8 IN
            IF ~Have(p, 32) THEN Err
            ELSE LET k == Num(p, 16)
                 IN IF k + Num(p + 16, 16) # 65535 \/ ~Have(p + 32, 8 * k) \/ Len(s.out) + k > cap THEN Err
                    ELSE [s EXCEPT !.mode = Next, !.pos = p + 32 + 8 * k,
                                   !.out = @ \o SubSeq(bytes, (p \div 8) + 5, (p \div 8) + 4 + k)]
       [] s.mode = "dyn" ->
            IF ~Have(s.pos, 14) THEN Err
            ELSE LET nlit == Num(s.pos, 5) + 257
                     ndist == Num(s.pos + 5, 5) + 1
                     ncl == Num(s.pos + 10, 4) + 4
                     p == s.pos + 14
                     lens == [i \in 1..19 |-> LET at == CHOOSE j \in 1..19: ClOrder[j] = i - 1
                                              IN IF at <= ncl THEN Num(p + 3 * (at - 1), 3) ELSE 0]
                 IN IF ~Have(p, 3 * ncl) \/ nlit > 286 THEN Err
                    ELSE LET ct == HuffmanCode(lens, 7) IN
                         IF OverSubscribed(ct) \/ CodeCount(ct) = 0 THEN Err
                         ELSE [s EXCEPT !.mode = "lens", !.pos = p + 3 * ncl, !.ct = TLCEval(ct), !.nlit = nlit, !.ndist = ndist,
                                        !.lens = <<>>, !.lax = @ \/ Incomplete(ct) \/ ndist > 30]
       [] s.mode = "lens" ->
            LET d == Sym(s.ct, s.pos)
                k == Len(s.lens)
                x == IF d.sym = 16 THEN 2 ELSE IF d.sym = 17 THEN 3 ELSE IF d.sym = 18 THEN 7 ELSE 0
            IN IF d.sym = -1 \/ ~Have(d.pos, x) \/ (d.sym = 16 /\ k = 0) THEN Err
               ELSE LET r == CASE d.sym < 16 -> 1 [] d.sym = 18 -> 11 + Num(d.pos, 7) [] OTHER -> 3 + Num(d.pos, x)
                        v == CASE d.sym < 16 -> d.sym [] d.sym = 16 -> s.lens[k] [] OTHER -> 0
                        lens == TLCEval(s.lens \o [i \in 1..r |-> v])
                    IN IF Len(lens) > s.nlit + s.ndist THEN Err
                       ELSE IF Len(lens) = s.nlit + s.ndist THEN Built(lens, d.pos + x)
                       ELSE [s EXCEPT !.pos = d.pos + x, !.lens = lens]
       [] s.mode = "sym" ->
            LET d == Sym(s.lt, s.pos) IN
            CASE d.sym = -1 -> Err
              [] d.sym < 256 /\ d.sym >= 0 ->
                   IF Len(s.out) >= cap THEN Err ELSE [s EXCEPT !.pos = d.pos, !.out = Append(@, d.sym)]
              [] d.sym = 256 -> [s EXCEPT !.pos = d.pos, !.mode = Next]
              [] d.sym > 285 -> Err
              [] OTHER ->
                   LET lx == LenExtra(d.sym) IN
                   IF ~Have(d.pos, lx) THEN Err
                   ELSE LET k == LenBase(d.sym) + Num(d.pos, lx)
                            e == Sym(s.dt, d.pos + lx)
                        IN IF e.sym = -1 \/ e.sym > 29 THEN Err
                           ELSE LET dx == DistExtra(e.sym) IN
                                IF ~Have(e.pos, dx) THEN Err
                                ELSE LET dist == DistBase(e.sym) + Num(e.pos, dx)
                                     IN IF dist > Len(s.out) \/ Len(s.out) + k > cap THEN Err
                                        ELSE [s EXCEPT !.pos = e.pos + dx, !.out = TLCEval(CopyBack(@, dist, k)),
                                                       !.dists = IF dist > @ THEN dist ELSE @]

\* Every element takes at least one bit.
InflateRun(bytes, p, cap) ==
  LET bits == LBits(bytes)
  IN FoldLeft(LAMBDA s, i: InflateStep(bits, bytes, cap, s), InflateInit(p), [i \in 1..(Len(bits) + 1) |-> i])
Failed == [k |-> "err", out |-> <<>>, lax |-> FALSE]
Deflate(bytes, cap) ==
  LET s == InflateRun(bytes, 0, cap)
  IN IF s.mode = "done" THEN [k |-> "ok", out |-> s.out, lax |-> s.lax] ELSE Failed
AdlerCfg == [kind |-> "adler", poly |-> W0, init |-> <<0, 1>>]
Zlib(bytes, cap) ==
  IF Len(bytes) < 2 THEN Failed
  ELSE LET cm == bytes[1] % 16
           info == bytes[1] \div 16
           dict == (bytes[2] \div 32) % 2 = 1
           p == IF dict THEN 6 ELSE 2
       IN IF cm # 8 \/ info > 7 \/ ((256 * bytes[1]) + bytes[2]) % 31 # 0 \/ Len(bytes) < p THEN Failed
          ELSE LET s == InflateRun(bytes, 8 * p, cap)
                   q == (s.pos + 7) \div 8
               IN IF s.mode # "done" \/ q + 4 > Len(bytes) THEN Failed
                  ELSE LET a == ChecksumOf(AdlerCfg, s.out) IN
                       IF a # <<(256 * bytes[q + 1]) + bytes[q + 2], (256 * bytes[q + 3]) + bytes[q + 4]>> THEN Failed
                       \* a preset dictionary is not known here
                       ELSE [k |-> "ok", out |-> s.out, lax |-> s.lax \/ dict \/ s.dists > 2^(info + 8)]
=============================================================================
