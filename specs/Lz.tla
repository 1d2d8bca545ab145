--------------------------------- MODULE Lz ---------------------------------
(* ADC, LZNT1, LZVN and LZFSE decompression: machines that take one literal or copy
   after the other from the compressed bytes.

   A state has the position p in the compressed bytes, the output so far and a mode.
   The result is [k, out, lax]: with k = "err", lax means that the output buffer was
   filled by complete elements before the error, so that a decompressor may have stopped
   there; with k = "ok", that the stream may be refused (it ends in an irregular way). *)
EXTENDS CopyBack, Integers, Sequences, SequencesExt, TLC

LzInit(p) == [mode |-> "run", p |-> p, out |-> <<>>, lax |-> FALSE, d |-> 0]
LzErr(s) == [s EXCEPT !.mode = "err"]
\* n literal bytes after position p, then a copy of m bytes from d back, then on at q.
LzTake(b, end, cap, s, p, n, m, d) ==
  IF p + n > end \/ Len(s.out) + n + m > cap \/ (m > 0 /\ (d = 0 \/ d > Len(s.out) + n)) THEN LzErr(s)
  ELSE LET o == IF n = 0 THEN s.out ELSE s.out \o SubSeq(b, p + 1, p + n)
       IN [s EXCEPT !.p = p + n, !.out = IF m = 0 THEN o ELSE TLCEval(CopyBack(o, d, m)), !.d = IF m > 0 THEN d ELSE @]
\* Every element takes at least one byte.
LzRun(Step(_), s, n) == FoldLeft(LAMBDA a, i: IF a.mode = "run" THEN Step(a) ELSE a, s, [i \in 1..(n + 1) |-> i])
LzResult(s, cap) == CASE s.mode = "done" -> [k |-> "ok", out |-> s.out, lax |-> s.lax]
                      [] OTHER -> [k |-> "err", out |-> s.out, lax |-> Len(s.out) = cap]

----------------------------------------------------------------------------
(* ADC: literals, two-byte and three-byte copies, up to the end of the compressed bytes. *)
AdcStep(b, cap, s) ==
  LET n == Len(b)
      p == s.p
      c == b[p + 1]
  IN IF p = n THEN [s EXCEPT !.mode = "done"]
     ELSE IF c >= 128 THEN LzTake(b, n, cap, s, p + 1, c - 127, 0, 0)
     ELSE IF c >= 64 THEN IF p + 3 > n THEN LzErr(s) ELSE LzTake(b, n, cap, s, p + 3, 0, (c - 64) + 4, (256 * b[p + 2]) + b[p + 3] + 1)
     ELSE IF p + 2 > n THEN LzErr(s) ELSE LzTake(b, n, cap, s, p + 2, 0, (c \div 4) + 3, (256 * (c % 4)) + b[p + 2] + 1)
Adc(b, cap) == LzResult(LzRun(LAMBDA s: AdcStep(b, cap, s), LzInit(0), Len(b)), cap)

----------------------------------------------------------------------------
(* LZVN: commands of literals and a copy; the distance can be that of the last copy. *)
LzvnStep(b, end, cap, s) ==
  LET p == s.p
      c == b[p + 1]
      l2 == c \div 64
      m3 == ((c \div 8) % 8) + 3
      Cmd(size, n, m, d) == IF p + size > end THEN LzErr(s) ELSE LzTake(b, end, cap, s, p + size, n, m, d)
      At(i) == b[p + i]
  IN IF p = end THEN LzErr(s)
     ELSE CASE c = 6 -> [s EXCEPT !.mode = "done", !.p = p + 1]
            [] c \in {14, 22} -> [s EXCEPT !.p = p + 1]
            [] c \in 112..127 \cup 208..223 \cup {30, 38, 46, 54, 62} -> LzErr(s)
            [] c \in 160..191 -> IF p + 3 > end THEN LzErr(s) ELSE Cmd(3, (c \div 8) % 4, (4 * (c % 8)) + (At(2) % 4) + 3, (64 * At(3)) + (At(2) \div 4))
            [] c = 224 -> IF p + 2 > end THEN LzErr(s) ELSE Cmd(2, At(2) + 16, 0, 0)
            [] c \in 225..239 -> Cmd(1, c - 224, 0, 0)
            [] c = 240 -> IF p + 2 > end THEN LzErr(s) ELSE Cmd(2, 0, At(2) + 16, s.d)
            [] c \in 241..255 -> Cmd(1, 0, c - 240, s.d)
            [] c % 8 = 7 -> IF p + 3 > end THEN LzErr(s) ELSE Cmd(3, l2, m3, At(2) + (256 * At(3)))
            [] c % 8 = 6 -> Cmd(1, l2, m3, s.d)
            [] OTHER -> IF p + 2 > end THEN LzErr(s) ELSE Cmd(2, l2, m3, (256 * (c % 8)) + At(2))
Lzvn(b, cap) == LzResult(LzRun(LAMBDA s: LzvnStep(b, Len(b), cap, s), LzInit(0), Len(b)), cap)

----------------------------------------------------------------------------
(* LZNT1: chunks of at most 4096 bytes, stored or of groups of eight elements; how the
   sixteen bits of a copy are shared by distance and size depends on the offset in the
   chunk. *)
Lznt1Shift(o) == CASE o <= 16 -> 12 [] o <= 32 -> 11 [] o <= 64 -> 10 [] o <= 128 -> 9 [] o <= 256 -> 8
                   [] o <= 512 -> 7 [] o <= 1024 -> 6 [] o <= 2048 -> 5 [] OTHER -> 4
\* One element of a compressed chunk that began at `start` in the output and ends at `end`.
Lznt1Element(b, end, cap, s) ==
  LET p == s.p
      o == Len(s.out) - s.start
  IN IF p = end \/ s.mode # "run" THEN s
     ELSE IF s.left = 0 THEN [s EXCEPT !.p = p + 1, !.flags = b[p + 1], !.left = 8, !.lax = @ \/ p + 1 = end]
     ELSE LET t == [s EXCEPT !.flags = @ \div 2, !.left = @ - 1]
          IN IF s.flags % 2 = 0 THEN LzTake(b, end, cap, t, p, 1, 0, 0)
             ELSE IF p + 2 > end THEN LzErr(s)
             ELSE LET v == b[p + 1] + (256 * b[p + 2])
                      k == Lznt1Shift(o)
                      d == (v \div 2^k) + 1
                  IN IF d > o THEN LzErr(s) ELSE LzTake(b, end, cap, t, p + 2, 0, (v % 2^k) + 3, d)
Lznt1Step(b, cap, s) ==
  LET n == Len(b)
      p == s.p
      h == b[p + 1] + (256 * b[p + 2])
      size == (h % 4096) + 1
      end == p + 2 + size
      before == Len(s.out)
      odd == (h \div 4096) % 8 # 3
  IN IF p = n THEN [s EXCEPT !.mode = "done"]
     ELSE IF p + 2 > n THEN LzErr(s)
     ELSE IF h = 0 THEN [s EXCEPT !.mode = "done", !.p = p + 2]
     ELSE IF end > n THEN LzErr(s)
     \* a chunk that is not the last one has 4096 bytes, no chunk has more
     ELSE LET t == [s EXCEPT !.p = p + 2, !.start = before, !.left = 0, !.lax = @ \/ odd \/ before % 4096 # 0]
              r == IF h < 32768 THEN LzTake(b, n, cap, t, p + 2, size, 0, 0)
                   ELSE FoldLeft(LAMBDA a, i: Lznt1Element(b, end, cap, a), t, [i \in 1..(2 * size) |-> i])
          IN IF r.mode = "err" THEN [r EXCEPT !.out = s.out] ELSE [r EXCEPT !.lax = @ \/ Len(r.out) > before + 4096]
Lznt1Init == [mode |-> "run", p |-> 0, out |-> <<>>, lax |-> FALSE, d |-> 0, start |-> 0, left |-> 0, flags |-> 0]
Lznt1(b, cap) == LzResult(LzRun(LAMBDA s: Lznt1Step(b, cap, s), Lznt1Init, Len(b)), cap)

----------------------------------------------------------------------------
(* LZFSE: blocks that are stored, LZVN, or whose literals and L, M, D values are coded with
   finite state entropy coding.  The states of a coder of N states are divided into ranges
   by the frequencies of the symbols; in the j-th state of a symbol of frequency f, the next
   state is (f + j) scaled up to at least N with the bits that follow. *)
FseRanges(freqs) == FoldLeft(LAMBDA a, i: IF freqs[i] = 0 THEN a ELSE [low |-> a.low + freqs[i], table |-> Append(a.table, [sym |-> i - 1, low |-> a.low, f |-> freqs[i]])],
                             [low |-> 0, table |-> <<>>], [i \in 1..Len(freqs) |-> i])
FseCoder(freqs, N) == LET r == FseRanges(freqs) IN [ok |-> r.low <= N, table |-> TLCEval(r.table), N |-> N]
\* The symbol of state x and how the next state is made: base + the next `bits` bits.
FseEntry(c, x) ==
  LET r == SelectInSeq(c.table, LAMBDA e: e.low <= x /\ x < e.low + e.f)
  IN IF r = 0 THEN [sym |-> -1, bits |-> 0, base |-> 0]
     ELSE LET y == c.table[r].f + (x - c.table[r].low)
              k == CHOOSE k \in 0..10: y * 2^k >= c.N /\ y * 2^k < 2 * c.N
          IN [sym |-> c.table[r].sym, bits |-> k, base |-> (y * 2^k) - c.N]
\* Extra bits of the values of the symbols, and the least value of a symbol.
LBitsOf(x) == IF x < 16 THEN 0 ELSE <<2, 3, 5, 8>>[x - 15]
MBitsOf(x) == IF x < 16 THEN 0 ELSE <<3, 5, 8, 11>>[x - 15]
DBitsOf(x) == x \div 4
Base(BitsOf(_), x) == FoldLeft(LAMBDA a, i: a + 2^BitsOf(i - 1), 0, [i \in 1..x |-> i])

ByteBit(b, i) == (b[((i - 1) \div 8) + 1] \div 2^((i - 1) % 8)) % 2     \* least significant first
FieldAt(b, p, bit, n) == FoldLeft(LAMBDA a, i: (2 * a) + ByteBit(b, 8 * p + bit + n + 1 - i), 0, [i \in 1..n |-> i])
Num16(b, p) == b[p + 1] + (256 * b[p + 2])
Num32(b, p) == IF b[p + 4] > 63 THEN 1073741824 ELSE Num16(b, p) + (65536 * Num16(b, p + 2))

\* A payload is read from its end towards its start: bit i from the end.
EndBit(b, end, i) == (b[end - ((i - 1) \div 8)] \div 2^(7 - ((i - 1) % 8))) % 2
EndNum(b, end, at, n) == FoldLeft(LAMBDA a, i: (2 * a) + EndBit(b, end, at + i), 0, [i \in 1..n |-> i])

\* Frequencies: variable length codes; [ok, freqs, bits used]
FreqCode(b, p, at, end) ==
  LET Bit(i) == IF at + i > 8 * (end - p) THEN 0 ELSE ByteBit(b, 8 * p + at + i)
      Num(i, n) == FoldLeft(LAMBDA a, j: (2 * a) + Bit(i + n - j), 0, [j \in 1..n |-> j])
  IN IF Bit(1) = 0 THEN [v |-> Bit(2), n |-> 2]
     ELSE IF Bit(2) = 0 THEN [v |-> 2 + Bit(3), n |-> 3]
     ELSE IF Bit(3) = 0 THEN [v |-> 4 + Num(4, 2), n |-> 5]
     ELSE IF Bit(4) = 0 THEN [v |-> 8 + Num(5, 4), n |-> 8]
     ELSE [v |-> 24 + Num(5, 10), n |-> 14]
Freqs(b, p, end) == FoldLeft(LAMBDA a, i: LET c == FreqCode(b, p, a.at, end) IN [at |-> a.at + c.n, f |-> Append(a.f, c.v)],
                             [at |-> 0, f |-> <<>>], [i \in 1..360 |-> i])
\* A coded block of version 1 (p is after its marker and size) or 2: the header.
BadHeader == [ok |-> FALSE]
HeaderOf(b, p, v) ==
  IF v = 1
  THEN IF p + 762 > Len(b) THEN BadHeader
       ELSE [ok |-> TRUE, lax |-> FALSE, nlit |-> Num32(b, p + 4), nmatch |-> Num32(b, p + 8), litsize |-> Num32(b, p + 12), lmdsize |-> Num32(b, p + 16),
             litpad |-> IF b[p + 24] = 255 THEN 256 - b[p + 21] ELSE IF b[p + 21] = 0 THEN 0 ELSE 999,
             states |-> [i \in 1..4 |-> Num16(b, p + 22 + 2 * i)],
             lmdpad |-> IF b[p + 36] = 255 THEN 256 - b[p + 33] ELSE IF b[p + 33] = 0 THEN 0 ELSE 999,
             l |-> Num16(b, p + 36), m |-> Num16(b, p + 38), d |-> Num16(b, p + 40),
             freqs |-> TLCEval([i \in 1..360 |-> Num16(b, p + 40 + 2 * i)]), data |-> p + 762]
  ELSE IF p + 24 > Len(b) THEN BadHeader
       ELSE LET size == Num32(b, p + 16)
                end == (p - 8) + size
                fr == Freqs(b, p + 24, end)
            IN IF size < 32 \/ size > 10000 \/ end > Len(b) THEN BadHeader
               ELSE IF size > 32 /\ fr.at > 8 * (size - 32) THEN BadHeader
               ELSE [ok |-> TRUE, lax |-> size > 32 /\ fr.at <= 8 * (size - 33), nlit |-> FieldAt(b, p, 0, 20), litsize |-> FieldAt(b, p, 20, 20), nmatch |-> FieldAt(b, p, 40, 20),
                     litpad |-> 7 - FieldAt(b, p, 60, 3), states |-> [i \in 1..4 |-> FieldAt(b, p + 8, 10 * (i - 1), 10)],
                     lmdsize |-> FieldAt(b, p + 8, 40, 20), lmdpad |-> 7 - FieldAt(b, p + 8, 60, 3),
                     l |-> FieldAt(b, p + 16, 32, 10), m |-> FieldAt(b, p + 16, 42, 10), d |-> FieldAt(b, p + 16, 52, 10),
                     freqs |-> IF size = 32 THEN [i \in 1..360 |-> 0] ELSE TLCEval(fr.f), data |-> end]
\* The literals, decoded with four states in turn: [ok, out]
LzfseLiterals(b, h, coder) ==
  LET end == h.data + h.litsize
      Step(a, i) ==
        IF ~a.ok THEN a
        ELSE LET w == ((i - 1) % 4) + 1
                 e == FseEntry(coder, a.x[w])
             IN IF e.sym = -1 \/ a.at + e.bits > 8 * h.litsize THEN [a EXCEPT !.ok = FALSE]
                ELSE [a EXCEPT !.at = @ + e.bits, !.x[w] = e.base + EndNum(b, end, a.at, e.bits), !.out = Append(@, e.sym)]
  IN FoldLeft(Step, [ok |-> TRUE, at |-> h.litpad, x |-> h.states, out |-> <<>>], [i \in 1..(4 * ((h.nlit + 3) \div 4)) |-> i])
\* One L, M, D triple.
LmdStep(b, h, lc, mc, dc, lits, cap, s) ==
  LET end == h.data + h.litsize + h.lmdsize
      le == FseEntry(lc, s.l)
      me == FseEntry(mc, s.m)
      de == FseEntry(dc, s.d)
      lb == LBitsOf(le.sym)
      mb == MBitsOf(me.sym)
      db == DBitsOf(de.sym)
      a1 == s.at + le.bits + lb
      a2 == a1 + me.bits + mb
      a3 == a2 + de.bits + db
      L == Base(LBitsOf, le.sym) + EndNum(b, end, s.at + le.bits, lb)
      M == Base(MBitsOf, me.sym) + EndNum(b, end, a1 + me.bits, mb)
      D == Base(DBitsOf, de.sym) + EndNum(b, end, a2 + de.bits, db)
      dist == IF D = 0 THEN s.dist ELSE D
  IN IF ~s.ok THEN s
     ELSE IF le.sym = -1 \/ me.sym = -1 \/ de.sym = -1 THEN [s EXCEPT !.ok = FALSE]
     ELSE IF a3 > 8 * h.lmdsize THEN [s EXCEPT !.ok = FALSE]
     ELSE IF s.lit + L > Len(lits) \/ Len(s.out) + L + M > cap \/ (M > 0 /\ (dist = 0 \/ dist > Len(s.out) + L)) THEN [s EXCEPT !.ok = FALSE]
     ELSE LET o == s.out \o SubSeq(lits, s.lit + 1, s.lit + L)
          IN [s EXCEPT !.at = a3, !.lit = @ + L, !.dist = dist, !.lax = @ \/ dist = 0 \/ dist > Len(o),
                       !.l = le.base + EndNum(b, end, s.at, le.bits), !.m = me.base + EndNum(b, end, a1, me.bits), !.d = de.base + EndNum(b, end, a2, de.bits),
                       !.out = IF M = 0 THEN o ELSE TLCEval(CopyBack(o, dist, M))]
\* [ok, out, next position]
LzfseBlock(b, p, v, cap, out) ==
  LET h == HeaderOf(b, p, v)
      No == [ok |-> FALSE, out |-> out, p |-> p, lax |-> FALSE]
  IN IF ~h.ok THEN No
     ELSE IF h.nlit > 40000 \/ h.nmatch > 10000 \/ h.litsize > Len(b) \/ h.lmdsize > Len(b) \/ h.litpad > 31 \/ h.lmdpad > 31 THEN No
     ELSE IF h.data + h.litsize + h.lmdsize > Len(b) \/ h.litpad > 8 * h.litsize \/ h.lmdpad > 8 * h.lmdsize THEN No
     ELSE LET lc == FseCoder(SubSeq(h.freqs, 1, 20), 64)
              mc == FseCoder(SubSeq(h.freqs, 21, 40), 64)
              dc == FseCoder(SubSeq(h.freqs, 41, 104), 256)
              xc == FseCoder(SubSeq(h.freqs, 105, 360), 1024)
              lits == LzfseLiterals(b, h, xc)
              odd == h.lax \/ h.nlit % 4 # 0 \/ h.litpad > 7 \/ h.lmdpad > 7
                     \/ EndNum(b, h.data + h.litsize, 0, IF h.litpad > 7 THEN 0 ELSE h.litpad) # 0
                     \/ EndNum(b, h.data + h.litsize + h.lmdsize, 0, IF h.lmdpad > 7 THEN 0 ELSE h.lmdpad) # 0
          IN IF ~(lc.ok /\ mc.ok /\ dc.ok /\ xc.ok) \/ ~lits.ok THEN No
             ELSE LET r == FoldLeft(LAMBDA s, i: LmdStep(b, h, lc, mc, dc, SubSeq(lits.out, 1, h.nlit), cap, s),
                                    [ok |-> TRUE, at |-> h.lmdpad, l |-> h.l, m |-> h.m, d |-> h.d, lit |-> 0, dist |-> 0, out |-> out, lax |-> FALSE],
                                    [i \in 1..h.nmatch |-> i])
                  IN [ok |-> r.ok, out |-> r.out, p |-> h.data + h.litsize + h.lmdsize, lax |-> r.lax \/ odd]
\* A block: the marker is "bvx" and $ (end), - (stored), 1, 2 (coded) or n (LZVN).
LzfseStep(b, cap, s) ==
  LET n == Len(b)
      p == s.p
      t == b[p + 4]
      size == Num32(b, p + 4)
      before == Len(s.out)
      \* a block that is not what its size says is an error
      After(r) == IF r.ok /\ Len(r.out) = before + size THEN [s EXCEPT !.p = r.p, !.out = r.out, !.lax = @ \/ r.lax] ELSE LzErr(s)
  IN IF p + 4 > n THEN LzErr(s)
     ELSE IF SubSeq(b, p + 1, p + 3) # <<98, 118, 120>> THEN LzErr(s)
     ELSE IF t = 36 THEN [s EXCEPT !.mode = "done"]
     ELSE IF t \notin {45, 49, 50, 110} \/ p + 8 > n THEN LzErr(s)
     ELSE IF before + size > cap THEN LzErr(s)
     ELSE CASE t = 45 -> IF p + 8 + size > n THEN LzErr(s) ELSE After([ok |-> TRUE, p |-> p + 8 + size, out |-> s.out \o SubSeq(b, p + 9, p + 8 + size), lax |-> FALSE])
            [] t = 49 -> After(LzfseBlock(b, p + 8, 1, cap, s.out))
            [] t = 50 -> After(LzfseBlock(b, p + 8, 2, cap, s.out))
            [] t = 110 ->
                 IF p + 12 > n THEN LzErr(s)
                 ELSE LET end == p + 12 + Num32(b, p + 8)
                          r == LzRun(LAMBDA a: LzvnStep(b, end, before + size, a), [s EXCEPT !.p = p + 12, !.d = 0], end - p)
                      IN IF end > n THEN LzErr(s)
                         ELSE After([ok |-> r.mode = "done" \/ Len(r.out) = before + size, p |-> end, out |-> r.out, lax |-> r.mode # "done" \/ r.p + 7 # end])
Lzfse(b, cap) == LzResult(LzRun(LAMBDA s: LzfseStep(b, cap, s), LzInit(0), Len(b)), cap)
=============================================================================
