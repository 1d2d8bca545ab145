----------------------------- MODULE MC_Inflate -----------------------------
(* Deflate on all small token sequences, encoded in stored and fixed blocks, and on all
   short bit strings; canonical codes for all small sets of code lengths. *)
EXTENDS Inflate
CONSTANTS Kind, Most
VARIABLES toks, blocks
vars == <<toks, blocks>>

Tokens == {[t |-> "lit", b |-> b, n |-> 1, d |-> 0] : b \in {0, 200}} \cup {[t |-> "copy", b |-> 0, n |-> k, d |-> d] : k \in {3, 4}, d \in {1, 2, 3}}
Expand(out, ts) == FoldLeft(LAMBDA o, t: IF t.t = "lit" THEN Append(o, t.b)
  ELSE FoldLeft(LAMBDA a, i: Append(a, a[Len(a) + 1 - t.d]), o, [i \in 1..t.n |-> i]), out, ts)
ValidFrom(m, ts) == FoldLeft(LAMBDA a, t: IF a < 0 \/ t.d > a THEN -1 ELSE a + t.n, m, ts) >= 0

NumBits(v, n) == [i \in 1..n |-> (v \div 2^(i - 1)) % 2]
Joined(ss) == FoldLeft(LAMBDA a, x: a \o x, <<>>, ss)
EncTok(t) == IF t.t = "lit" THEN HuffmanEncode(FixedL, FixedLens, t.b)
             ELSE HuffmanEncode(FixedL, FixedLens, 254 + t.n) \o HuffmanEncode(FixedD, FixedDistLens, t.d - 1)
Padded(bits) == bits \o [i \in 1..((8 - (Len(bits) % 8)) % 8) |-> 0]
ToBytes(bits) == LET b == Padded(bits) IN [i \in 1..(Len(b) \div 8) |-> FoldLeft(LAMBDA a, j: (2 * a) + b[8 * i + 1 - j], 0, [j \in 1..8 |-> j])]
\* The tokens of each block: written in a fixed block, or as a stored block of what they denote.
EncBlock(acc, b, final) ==
  IF b.stored
  THEN LET data == SubSeq(Expand(acc.out, b.toks), Len(acc.out) + 1, Len(Expand(acc.out, b.toks)))
           h == Padded(acc.bits \o <<final, 0, 0>>)
       IN [bits |-> h \o NumBits(Len(data), 16) \o NumBits(65535 - Len(data), 16) \o Joined([i \in 1..Len(data) |-> NumBits(data[i], 8)]),
           out |-> acc.out \o data]
  ELSE [bits |-> acc.bits \o <<final, 1, 0>> \o Joined([i \in 1..Len(b.toks) |-> EncTok(b.toks[i])]) \o HuffmanEncode(FixedL, FixedLens, 256),
        out |-> Expand(acc.out, b.toks)]
EncodeAll(bs) == FoldLeft(LAMBDA a, i: EncBlock(a, bs[i], IF i = Len(bs) THEN 1 ELSE 0), [bits |-> <<>>, out |-> <<>>], [i \in 1..Len(bs) |-> i])

Init == toks = <<>> /\ blocks = <<>>
AddTok == /\ Kind = "tokens" /\ Len(toks) + FoldLeft(LAMBDA a, b: a + Len(b.toks), 0, blocks) < Most
          /\ \E t \in Tokens: ValidFrom(Len(EncodeAll(blocks).out), Append(toks, t)) /\ toks' = Append(toks, t) /\ UNCHANGED blocks
CloseBlock == /\ Kind = "tokens" /\ Len(blocks) < 3
              /\ \E k \in BOOLEAN: blocks' = Append(blocks, [stored |-> k, toks |-> toks]) /\ toks' = <<>>
AddByte == /\ Kind = "bytes" /\ Len(toks) < Most /\ UNCHANGED blocks
           /\ \E b \in {0, 1, 3, 5, 75, 99, 4, 255, 28, 237, 13} : toks' = Append(toks, b)
AddLen == /\ Kind = "codes" /\ Len(toks) < Most /\ UNCHANGED blocks /\ \E l \in 0..4: toks' = Append(toks, l)
Next == AddTok \/ CloseBlock \/ AddByte \/ AddLen
Spec == Init /\ [][Next]_vars

\* Decompressing the encoding gives what the tokens denote; a stream that is cut short, or
\* an output buffer that is too small, is an error; what follows the stream is not looked at.
RoundTrip == (Kind = "tokens" /\ toks = <<>> /\ blocks # <<>>) =>
  LET e == EncodeAll(blocks)
      bytes == ToBytes(e.bits)
      r == Deflate(bytes, Len(e.out))
  IN /\ r = [k |-> "ok", out |-> e.out, lax |-> FALSE]
     /\ Deflate(bytes \o <<255>>, Len(e.out) + 5) = r
     /\ Len(e.out) > 0 => Deflate(bytes, Len(e.out) - 1) = Failed
     /\ \A k \in 0..(Len(bytes) - 1): Deflate(SubSeq(bytes, 1, k), Len(e.out)) = Failed
\* Streams are prefix free.
PrefixFree == (Kind = "bytes") =>
  LET r == Deflate(toks, 100) IN r.k = "ok" => \A b \in {0, 255}: Deflate(Append(toks, b), 100) = r
\* Exactly the complete codes give every bit string of the maximal length a symbol, and
\* decoding inverts encoding.
Codes == (Kind = "codes") =>
  LET h == HuffmanCode(toks, 4)
      all == [1..4 -> {0, 1}]
      kraft == FoldLeft(LAMBDA a, l: a + (IF l = 0 THEN 0 ELSE 2^(4 - l)), 0, toks)
      Dec(x) == HuffmanDecode(h, LAMBDA i: x[i], 4, 0)
  IN /\ OverSubscribed(h) <=> kraft > 16
     /\ Incomplete(h) <=> kraft < 16
     /\ kraft <= 16 => /\ (kraft = 16) <=> (\A x \in all: Dec(x).sym # -1)
                       /\ \A x \in all: LET d == Dec(x) IN d.sym # -1 => HuffmanEncode(h, toks, d.sym) = [i \in 1..d.pos |-> x[i]]
                       /\ \A s \in 0..(Len(toks) - 1): toks[s + 1] > 0 => \E x \in all: Dec(x).sym = s
                       /\ \A s, t \in 0..(Len(toks) - 1): (toks[s + 1] > 0 /\ toks[t + 1] > 0 /\ s < t /\ toks[s + 1] = toks[t + 1]) =>
                            LET a == HuffmanEncode(h, toks, s)
                                b == HuffmanEncode(h, toks, t)
                            IN \E i \in 1..Len(a): a[i] < b[i] /\ \A j \in 1..(i - 1): a[j] = b[j]
=============================================================================
