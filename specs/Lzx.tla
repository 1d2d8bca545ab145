--------------------------------- MODULE Lzx ---------------------------------
(* LZX as WIM and WOF use it: a stream of 16-bit little-endian words, each read from its
   most significant bit, holds blocks.  A block of Huffman codes starts with the changes of
   the code lengths since the block before; an uncompressed block starts on a word boundary
   after at least one bit of padding.  Distances are numbered 0..2 for the most recent ones
   or given in slots, in aligned blocks with a code of their own for the lowest three bits.
   In the end the targets of x86 calls are made relative again.

   lax: the stream is not what the format asks for but denotes certain bytes all the same.
   short: the stream ended too early, which is an error, after what came out so far. *)
EXTENDS Huffman, CopyBack

XNoCode == [syms |-> <<>>, first |-> <<>>, left |-> 1, max |-> 0]

XWords(bytes) == Len(bytes) \div 2
XBit(bytes, i) ==
  LET w == (i - 1) \div 16
      k == (i - 1) % 16
      byte == IF k < 8 THEN bytes[2 * w + 2] ELSE bytes[2 * w + 1]
  IN (byte \div 2^(7 - (k % 8))) % 2
XBits(bytes) == TLCEval([i \in 1..(16 * XWords(bytes)) |-> XBit(bytes, i)])

XExtra(slot) == IF slot < 4 THEN 0 ELSE (slot \div 2) - 1
XBase(slot) == ((2 + (slot % 2)) * 2^((slot \div 2) - 1)) - 2
XZeros(n) == [i \in 1..n |-> 0]
XParts == <<<<0, 256>>, <<256, 240>>, <<0, 249>>>>

LzxInit == [mode |-> "block", pos |-> 0, out |-> <<>>, kind |-> 0, left |-> 0, main |-> XZeros(496), long |-> XZeros(249),
            mt |-> XNoCode, lt |-> XNoCode, at |-> XNoCode, pt |-> XNoCode, part |-> 0, cur |-> <<>>, r |-> <<1, 1, 1>>, lax |-> FALSE]
LzxStep(bits, bytes, cap, s) ==
  LET n == Len(bits)
      Bit(i) == IF i <= n THEN bits[i] ELSE 0
      Err == [s EXCEPT !.mode = "err"]
      Num(p, k) == FoldLeft(LAMBDA a, i: (2 * a) + Bit(p + i), 0, [i \in 1..k |-> i])
      Sym(h, p) == HuffmanDecode(h, Bit, p + 32, p)
      Odd(h) == Incomplete(h)
      Block(t) == IF t.left <= 0 THEN [t EXCEPT !.mode = "block"] ELSE t
      Step == 
        CASE s.mode = "block" ->
               IF Len(s.out) >= cap THEN [s EXCEPT !.mode = "done"]
               ELSE IF ((s.pos + 15) \div 16) >= n \div 16 /\ Len(bytes) % 2 = 0 THEN [s EXCEPT !.mode = "done", !.lax = TRUE]
               ELSE LET kind == Num(s.pos, 3)
                        full == Num(s.pos + 3, 1) = 1
                        size == IF full THEN 32768 ELSE Num(s.pos + 4, 16)
                        p == s.pos + (IF full THEN 4 ELSE 20)
                        h == [s EXCEPT !.kind = kind, !.left = size, !.lax = @ \/ size = 0 \/ size > cap - Len(s.out)]
                    IN (CASE kind = 3 -> [h EXCEPT !.mode = "raw", !.pos = ((p \div 16) + 1) * 16]
                         [] kind = 1 -> [h EXCEPT !.mode = "pre", !.part = 1, !.pos = p, !.at = XNoCode]
                         [] kind = 2 ->
                              LET at == HuffmanCode([i \in 1..8 |-> Num(p + (3 * (i - 1)), 3)], 7)
                              IN IF OverSubscribed(at) THEN Err
                                 ELSE [h EXCEPT !.mode = "pre", !.part = 1, !.pos = p + 24, !.at = TLCEval(at), !.lax = @ \/ Odd(at)]
                         [] OTHER -> Err)
          [] s.mode = "raw" ->
               LET q == s.pos \div 8
                   rec == [i \in 1..3 |-> LET b == q + (4 * (i - 1))
                                          IN IF bytes[b + 4] > 0 THEN 16777216 ELSE bytes[b + 1] + (256 * bytes[b + 2]) + (65536 * bytes[b + 3])]
               IN IF Len(bytes) < q + 12 THEN [s EXCEPT !.mode = "short"]
                  ELSE IF \E i \in 1..3: rec[i] = 0 THEN Err
                  \* what there is of the last block may be taken for all of it
                  ELSE IF Len(bytes) < q + 12 + s.left /\ Len(s.out) + Len(bytes) - q - 12 <= cap
                       THEN [s EXCEPT !.mode = "done", !.lax = TRUE, !.out = @ \o SubSeq(bytes, q + 13, Len(bytes))]
                  ELSE IF Len(s.out) + s.left > cap THEN Err
                  ELSE [s EXCEPT !.mode = "block", !.r = rec, !.out = @ \o SubSeq(bytes, q + 13, q + 12 + s.left),
                                 !.pos = 8 * (q + 12 + s.left + (s.left % 2))]
          [] s.mode = "pre" ->
               LET pt == HuffmanCode([i \in 1..20 |-> Num(s.pos + (4 * (i - 1)), 4)], 15)
               IN IF OverSubscribed(pt) \/ CodeCount(pt) = 0 THEN Err
                  ELSE [s EXCEPT !.mode = "lens", !.pos = @ + 80, !.pt = TLCEval(pt), !.cur = <<>>, !.lax = @ \/ Odd(pt)]
          [] s.mode = "lens" ->
               LET d == Sym(s.pt, s.pos)
                   many == XParts[s.part][2]
                   idx == Len(s.cur)
                   e == Sym(s.pt, d.pos + 1)
                   Old == IF s.part = 3 THEN s.long[idx + 1] ELSE s.main[XParts[s.part][1] + idx + 1]
                   Changed(x) == (Old + 17 - x) % 17
                   run == CASE d.sym < 17 -> 1 [] d.sym = 17 -> 4 + Num(d.pos, 4) [] d.sym = 18 -> 20 + Num(d.pos, 5) [] OTHER -> 4 + Num(d.pos, 1)
                   v == CASE d.sym < 17 -> Changed(d.sym) [] d.sym = 19 -> Changed(e.sym % 17) [] OTHER -> 0
                   p == CASE d.sym < 17 -> d.pos [] d.sym = 17 -> d.pos + 4 [] d.sym = 18 -> d.pos + 5 [] OTHER -> e.pos
                   to == IF idx + run > many THEN many ELSE idx + run
                   cur == TLCEval(s.cur \o [i \in 1..(to - idx) |-> v])
                   u == [s EXCEPT !.cur = cur, !.pos = p, !.lax = @ \/ idx + run > many \/ (d.sym = 19 /\ e.sym = 17)]
                   t == CASE s.part = 1 -> [u EXCEPT !.main = cur \o SubSeq(@, 257, 496)]
                          [] s.part = 2 -> [u EXCEPT !.main = SubSeq(@, 1, 256) \o cur]
                          [] s.part = 3 -> [u EXCEPT !.long = cur]
                   mt == HuffmanCode(t.main, 16)
                   lt == HuffmanCode(t.long, 16)
               IN IF d.sym = -1 \/ (d.sym = 19 /\ (e.sym = -1 \/ e.sym > 17)) THEN Err
                  ELSE IF to < many THEN u
                  ELSE IF s.part < 3 THEN [t EXCEPT !.mode = "pre", !.part = s.part + 1]
                  ELSE IF OverSubscribed(mt) \/ CodeCount(mt) = 0 \/ OverSubscribed(lt) THEN Err
                  \* no code at all for long matches is fine
                  ELSE Block([t EXCEPT !.mode = "sym", !.mt = TLCEval(mt), !.lt = TLCEval(lt), !.lax = @ \/ Odd(mt) \/ (Odd(lt) /\ CodeCount(lt) > 0)])
          [] s.mode = "sym" ->
               LET d == Sym(s.mt, s.pos) IN
               IF d.sym = -1 THEN Err
               ELSE IF d.sym < 256 THEN
                    IF Len(s.out) >= cap THEN Err ELSE Block([s EXCEPT !.pos = d.pos, !.out = Append(@, d.sym), !.left = @ - 1])
               ELSE LET slot == (d.sym - 256) \div 8
                        head == d.sym % 8
                        e == Sym(s.lt, d.pos)
                        p == IF head = 7 THEN e.pos ELSE d.pos
                        k == 2 + head + (IF head = 7 THEN e.sym ELSE 0)
                        aligned == s.kind = 2 /\ slot >= 8
                        x == XExtra(slot) - (IF aligned THEN 3 ELSE 0)
                        a == Sym(s.at, p + x)
                        q == IF aligned THEN a.pos ELSE p + x
                        dist == IF slot < 3 THEN s.r[slot + 1]
                                ELSE XBase(slot) + (IF aligned THEN (8 * Num(p, x)) + a.sym ELSE Num(p, x))
                        r == CASE slot = 0 -> s.r
                               [] slot = 1 -> <<s.r[2], s.r[1], s.r[3]>>
                               [] slot = 2 -> <<s.r[3], s.r[2], s.r[1]>>
                               [] OTHER -> <<dist, s.r[1], s.r[2]>>
                    IN IF (head = 7 /\ e.sym = -1) \/ (aligned /\ a.sym = -1) \/ dist > Len(s.out) \/ Len(s.out) + k > cap THEN Err
                       ELSE Block([s EXCEPT !.pos = q, !.r = r, !.out = TLCEval(CopyBack(@, dist, k)), !.left = @ - k,
                                            !.lax = @ \/ k > s.left])
  IN IF s.mode \in {"done", "err", "short"} THEN s
     ELSE LET t == Step IN IF t.pos > n /\ s.mode # "raw" /\ t.mode # "done" THEN [s EXCEPT !.mode = "short"] ELSE t

\* Calls: the byte E8 followed by an absolute target; the last bytes hold none.
CallTarget(out, p) ==
  LET hi == IF out[p + 5] >= 128 THEN out[p + 5] - 256 ELSE out[p + 5]
  IN out[p + 2] + (256 * (out[p + 3] + (256 * (out[p + 4] + (256 * hi)))))
Bytes4(v) == [i \in 1..4 |-> (v \div 256^(i - 1)) % 256]
FileSize == 12000000
UndoCalls(out, stop) ==
  FoldLeft(LAMBDA a, p:
      IF p < a.next \/ out[p + 1] # 232 THEN a
      ELSE LET v == CallTarget(out, p)
               b == Bytes4(IF v >= 0 THEN v - p ELSE v + FileSize)
           IN [next |-> p + 5, out |-> IF v >= -p /\ v < FileSize
                                        THEN [i \in 1..Len(out) |-> IF i > p + 1 /\ i <= p + 5 THEN b[i - p - 1] ELSE a.out[i]]
                                        ELSE a.out],
      [next |-> 0, out |-> out], [i \in 1..(IF stop < 0 THEN 0 ELSE stop) |-> i - 1]).out
\* What a compressor does to the data first.
DoCalls(out, stop) ==
  FoldLeft(LAMBDA a, p:
      IF p < a.next \/ out[p + 1] # 232 THEN a
      ELSE LET v == CallTarget(out, p)
               b == Bytes4(IF v < FileSize - p THEN v + p ELSE v - FileSize)
           IN [next |-> p + 5, out |-> IF v >= -p /\ v < FileSize
                                        THEN [i \in 1..Len(out) |-> IF i > p + 1 /\ i <= p + 5 THEN b[i - p - 1] ELSE a.out[i]]
                                        ELSE a.out],
      [next |-> 0, out |-> out], [i \in 1..(IF stop < 0 THEN 0 ELSE stop) |-> i - 1]).out

\* Decoders differ in how close to the end a call may be: alt is the other reading.
Lzx(bytes, cap) ==
  LET bits == XBits(bytes)
      s == FoldLeft(LAMBDA a, i: LzxStep(bits, bytes, cap, a), LzxInit, [i \in 1..((8 * Len(bytes)) + 4) |-> i])
      n == Len(s.out)
  IN CASE s.mode = "done" -> [k |-> "ok", out |-> UndoCalls(s.out, n - 10), alt |-> UndoCalls(s.out, n - 6), lax |-> s.lax]
       [] s.mode = "short" -> [k |-> "short", out |-> s.out, alt |-> <<>>, lax |-> TRUE]
       [] OTHER -> [k |-> "err", out |-> <<>>, alt |-> <<>>, lax |-> FALSE]
\* What may be returned, res = [k, n, data].
LzxAgrees(o, res) ==
  CASE res.k = "ok" -> o.k = "ok" /\ res.n = Len(o.out) /\ (res.data = o.out \/ res.data = o.alt)
    [] res.k = "err" -> o.k # "ok" \/ o.lax
    [] OTHER -> FALSE
=============================================================================
