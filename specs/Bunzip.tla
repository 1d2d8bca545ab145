------------------------------- MODULE Bunzip -------------------------------
(* Bzip2 decompression: bit string -> symbols of the Huffman codes -> runs and
   move-to-front -> inverse Burrows-Wheeler transform -> runs -> bytes, with a checksum
   for every block and one for the stream.  One element of the bit string per step.
   cap and lax are as in Inflate. *)
EXTENDS Huffman, Checksum

MBit(bytes, i) == (bytes[((i - 1) \div 8) + 1] \div 2^(7 - ((i - 1) % 8))) % 2
MBits(bytes) == TLCEval([i \in 1..(8 * Len(bytes)) |-> MBit(bytes, i)])
\* A number of n bits (at most 30) after position p, most significant bit first.
MNum(bits, p, n) == FoldLeft(LAMBDA a, i: (2 * a) + bits[p + i], 0, [i \in 1..n |-> i])

MoveToFront(l, i) == <<l[i]>> \o SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
\* The original of which the sorted rotations end in l, and of which row orig (from 0) is
\* the original itself.
InverseBWT(l, orig) ==
  LET n == Len(l)
      perm == SortSeq([i \in 1..n |-> i], LAMBDA a, b: l[a] < l[b] \/ (l[a] = l[b] /\ a < b))
  IN FoldLeft(LAMBDA a, i: [p |-> perm[a.p], out |-> Append(a.out, l[a.p])], [p |-> perm[orig + 1], out |-> <<>>], [i \in 1..n |-> i]).out
\* Four equal bytes are followed by the number of times the byte is repeated.
Unrun(s) == FoldLeft(LAMBDA a, b:
    IF a.n = 4 THEN [n |-> 0, last |-> -1, out |-> a.out \o [i \in 1..b |-> a.last]]
    ELSE [n |-> IF b = a.last THEN a.n + 1 ELSE 1, last |-> b, out |-> Append(a.out, b)],
  [n |-> 0, last |-> -1, out |-> <<>>], s)
BzCrc == [kind |-> "crc", poly |-> <<1217, 7607>>, init |-> W0]

BzInit == [mode |-> "block", pos |-> 32, out |-> <<>>, sum |-> W0, lax |-> FALSE, crc |-> W0, orig |-> 0, syms |-> <<>>,
           ntrees |-> 0, nsel |-> 0, mtf |-> <<>>, sels |-> <<>>, lens |-> <<>>, cur |-> 0, trees |-> <<>>, run |-> 0, weight |-> 1,
           data |-> <<>>, nsyms |-> 0]
BzStep(bits, limit, cap, s) ==
  LET n == Len(bits)
      Bit(i) == bits[i]
      Err == [s EXCEPT !.mode = "err"]
      Have(p, k) == p + k <= n
      Num(p, k) == MNum(bits, p, k)
      Word(p) == <<Num(p, 16), Num(p + 16, 16)>>
      Alpha == Len(s.syms) + 2
      \* The block is complete: check it and add what it denotes to the output.
      EndBlock(data, pos) ==
        IF s.orig >= Len(data) THEN Err
        ELSE LET u == Unrun(TLCEval(InverseBWT(data, s.orig)))
             IN IF Len(s.out) + Len(u.out) > cap \/ ChecksumOf(BzCrc, u.out) # s.crc THEN Err
                ELSE [s EXCEPT !.mode = "block", !.pos = pos, !.out = @ \o u.out, !.sum = WXor(WRotl(@, 1), s.crc),
                               !.lax = @ \/ u.n = 4 \/ (s.nsyms \div 50) + 1 < s.nsel]
  IN CASE s.mode \in {"done", "err"} -> s
       [] s.mode = "block" ->
            IF ~Have(s.pos, 80) THEN Err
            ELSE LET a == Num(s.pos, 24)
                     b == Num(s.pos + 24, 24)
                     p == s.pos + 80
                 IN IF a = 1536581 /\ b = 3690640       \* 0x177245 0x385090
                    THEN IF Word(s.pos + 48) = s.sum THEN [s EXCEPT !.mode = "done", !.pos = p] ELSE Err
                    ELSE IF a # 3227993 \/ b # 2511705 \/ ~Have(p, 41) \/ bits[p + 1] = 1 THEN Err       \* 0x314159 0x265359
                    ELSE LET big == SelectSeq([i \in 1..16 |-> i], LAMBDA i: bits[p + 25 + i] = 1)
                             q == p + 41
                             r == q + 16 * Len(big)
                         IN IF big = <<>> \/ ~Have(r, 18) THEN Err
                            ELSE LET used == SelectSeq([i \in 1..(16 * Len(big)) |-> i], LAMBDA i: bits[q + i] = 1)
                                     syms == [i \in 1..Len(used) |-> (16 * (big[((used[i] - 1) \div 16) + 1] - 1)) + ((used[i] - 1) % 16)]
                                     ntrees == Num(r, 3)
                                     nsel == Num(r + 3, 15)
                                 IN IF used = <<>> \/ ntrees < 2 \/ ntrees > 6 \/ nsel = 0 THEN Err
                                    ELSE [s EXCEPT !.mode = "sel", !.pos = r + 18, !.crc = Word(s.pos + 48), !.orig = Num(p + 1, 24),
                                                   !.syms = TLCEval(syms), !.ntrees = ntrees, !.nsel = nsel, !.mtf = [i \in 1..ntrees |-> i], !.sels = <<>>,
                                                   !.trees = <<>>, !.data = <<>>, !.nsyms = 0, !.run = 0, !.weight = 1]
       [] s.mode = "sel" ->
            IF Len(s.sels) = s.nsel THEN IF Have(s.pos, 5) THEN [s EXCEPT !.mode = "len", !.cur = Num(s.pos, 5), !.pos = s.pos + 5, !.lens = <<>>] ELSE Err
            ELSE LET ones == FoldLeft(LAMBDA a, i: IF a = i - 1 /\ Have(s.pos, i) /\ bits[s.pos + i] = 1 THEN i ELSE a, 0, [i \in 1..s.ntrees |-> i])
                 IN IF ones = s.ntrees \/ ~Have(s.pos, ones + 1) THEN Err
                    ELSE LET m == MoveToFront(s.mtf, ones + 1) IN [s EXCEPT !.pos = s.pos + ones + 1, !.mtf = m, !.sels = Append(@, m[1])]
       [] s.mode = "len" ->
            \* code lengths of one tree: 0 ends a symbol, 10 one longer, 11 one shorter
            IF s.cur < 1 \/ s.cur > 20 \/ ~Have(s.pos, 1) THEN Err
            ELSE IF bits[s.pos + 1] = 1
            THEN IF ~Have(s.pos, 2) THEN Err ELSE [s EXCEPT !.pos = s.pos + 2, !.cur = IF bits[s.pos + 2] = 1 THEN @ - 1 ELSE @ + 1]
            ELSE LET lens == Append(s.lens, s.cur)
                 IN IF Len(lens) < Alpha THEN [s EXCEPT !.pos = s.pos + 1, !.lens = lens]
                    ELSE LET h == TLCEval(HuffmanCode(lens, 20))
                             t == Append(s.trees, h)
                             x == [s EXCEPT !.trees = t, !.lax = @ \/ Incomplete(h), !.lens = <<>>]
                         IN IF OverSubscribed(h) THEN Err
                            ELSE IF Len(t) = s.ntrees THEN [x EXCEPT !.mode = "sym", !.pos = s.pos + 1]
                            ELSE IF ~Have(s.pos + 1, 5) THEN Err
                            ELSE [x EXCEPT !.pos = s.pos + 6, !.cur = Num(s.pos + 1, 5)]
       [] s.mode = "sym" ->
            LET g == (s.nsyms \div 50) + 1 IN
            IF g > s.nsel THEN Err
            ELSE LET d == HuffmanDecode(s.trees[s.sels[g]], Bit, n, s.pos)
                     x == [s EXCEPT !.pos = d.pos, !.nsyms = @ + 1]
                     \* the pending run ends
                     room == limit - Len(s.data)
                     data == IF s.run = 0 \/ s.run > room THEN s.data ELSE s.data \o [i \in 1..s.run |-> s.syms[1]]
                 IN CASE d.sym = -1 -> Err
                      [] d.sym \in {0, 1} -> IF s.weight > 2097152 THEN Err
                                             ELSE [x EXCEPT !.run = @ + (d.sym + 1) * s.weight, !.weight = 2 * @]
                      [] d.sym > 1 ->
                           IF s.run > room THEN Err
                           ELSE IF d.sym = Alpha - 1 THEN EndBlock(TLCEval(data), d.pos)
                           ELSE IF Len(data) >= limit THEN Err
                           ELSE LET m == MoveToFront(s.syms, d.sym) IN [x EXCEPT !.syms = TLCEval(m), !.data = Append(data, m[1]), !.run = 0, !.weight = 1]

BzFailed == [k |-> "err", out |-> <<>>, lax |-> FALSE]
\* Every element takes at least one bit, except the last selector.
Bunzip(bytes, cap) ==
  IF Len(bytes) < 14 \/ SubSeq(bytes, 1, 2) # <<66, 90>> \/ bytes[4] < 49 \/ bytes[4] > 57 THEN BzFailed
  ELSE LET bits == MBits(bytes)
           s == FoldLeft(LAMBDA a, i: BzStep(bits, 100000 * (bytes[4] - 48), cap, a), BzInit, [i \in 1..(Len(bits) + 10) |-> i])
       IN IF s.mode = "done" THEN [k |-> "ok", out |-> s.out, lax |-> s.lax \/ bytes[3] # 104] ELSE BzFailed
=============================================================================
