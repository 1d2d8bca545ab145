------------------------------- MODULE MC_Lzx -------------------------------
(* All short sequences of blocks, literals and copies, written by an encoder and read by
   the machine; the translation of calls and its inverse on all short byte strings. *)
EXTENDS Lzx, FiniteSets
CONSTANTS Kind, Most, Alphabet
VARIABLES xs
vars == <<xs>>

\* Elements.  10, 11: a verbatim or aligned block starts; 12, 13: an uncompressed block.
Elem(e) == CASE e = 1 -> <<"lit", 97>> [] e = 2 -> <<"lit", 200>>
             [] e = 3 -> <<"copy", 1, 2>> [] e = 4 -> <<"copy", 3, 10>> [] e = 5 -> <<"copy", 17, 9>>
             [] e = 6 -> <<"recent", 1, 3>> [] e = 7 -> <<"recent", 2, 8>> [] e = 8 -> <<"recent", 0, 2>>
Raw(e) == IF e = 12 THEN <<5, 6, 7>> ELSE <<9, 8>>
IsStart(e) == e >= 10
Fits == xs # <<>> /\ IsStart(xs[1]) /\ \A i \in 1..Len(xs): (~IsStart(xs[i])) => xs[i - 1] < 12
Init == xs = <<>>
Next == Len(xs) < Most /\ \E b \in Alphabet: xs' = Append(xs, b)
Spec == Init /\ [][Next]_vars
Shape == Kind = "blocks" => (xs = <<>> \/ Fits)

\* What the elements mean, byte by byte; -1 where nothing is.
Meaning(es) ==
  FoldLeft(LAMBDA a, i:
      LET e == Elem(es[i])
          Copy(o, d, n) == FoldLeft(LAMBDA b, j: Append(b, IF d > Len(b) THEN -1 ELSE b[Len(b) + 1 - d]), o, [j \in 1..n |-> j])
      IN IF es[i] \in {12, 13} THEN [out |-> a.out \o Raw(es[i]), r |-> <<2, 1, 4>>]
         ELSE IF IsStart(es[i]) THEN a
         ELSE CASE e[1] = "lit" -> [a EXCEPT !.out = Append(@, e[2])]
                [] e[1] = "copy" -> [out |-> Copy(a.out, e[2], e[3]), r |-> <<e[2], a.r[1], a.r[2]>>]
                [] OTHER -> LET d == a.r[e[2] + 1]
                            IN [out |-> Copy(a.out, d, e[3]), r |-> [a.r EXCEPT ![e[2] + 1] = a.r[1], ![1] = d]],
      [out |-> <<>>, r |-> <<1, 1, 1>>], [i \in 1..Len(es) |-> i]).out

\* The encoder: main codes for 97, 200 and the matches needed, all of 4 bits; the codes of
\* the second and later blocks are of other lengths.
Slot(d) == CHOOSE s \in 3..29: XBase(s) <= d /\ d < XBase(s) + 2^XExtra(s)
MainOf(e) == LET x == Elem(e) IN
  IF x[1] = "lit" THEN x[2] ELSE 256 + (8 * (IF x[1] = "recent" THEN x[2] ELSE Slot(x[2]))) + (IF x[3] > 8 THEN 7 ELSE x[3] - 2)
MainSyms == {MainOf(e): e \in 1..8}
MainLens(v) == LET two == IF v = 0 THEN {} ELSE {97, 200, 255}
               IN [i \in 1..496 |-> IF i - 1 \in two THEN 3 ELSE IF i - 1 \in MainSyms THEN (IF v = 0 THEN 3 ELSE 4)
                                    ELSE IF v = 1 /\ i \in {3, 4, 480, 481} THEN 4 ELSE 0]
LongLens(v) == [i \in 1..249 |-> IF v = 0 THEN (IF i \in {1, 2} THEN 1 ELSE 0) ELSE IF i \in {1, 2, 100, 249} THEN 2 ELSE 0]
AlignedLens2 == <<3, 3, 3, 3, 3, 3, 3, 3>>
PreLens2 == [i \in 1..20 |-> IF i <= 12 THEN 4 ELSE 5]
NumBits(v, n) == [i \in 1..n |-> (v \div 2^(n - i)) % 2]
Cat(ss) == FoldLeft(LAMBDA a, x: a \o x, <<>>, ss)
Codes(old, new) ==
  LET h == HuffmanCode(PreLens2, 15)
      Put(x) == HuffmanEncode(h, PreLens2, x)
      Zeros(i) == FoldLeft(LAMBDA a, j: IF a = j - 1 /\ i + j - 1 <= Len(new) /\ new[i + j - 1] = 0 THEN j ELSE a, 0, [j \in 1..51 |-> j])
  IN Cat([i \in 1..20 |-> NumBits(PreLens2[i], 4)]) \o
     FoldLeft(LAMBDA a, i:
         IF i < a.next THEN a
         ELSE LET z == Zeros(i)
                  same == i + 3 <= Len(new) /\ \A j \in 0..3: new[i + j] = new[i]
              IN CASE z >= 20 -> [next |-> i + z, bits |-> a.bits \o Put(18) \o NumBits(z - 20, 5)]
                   [] z < 20 /\ z >= 4 -> [next |-> i + z, bits |-> a.bits \o Put(17) \o NumBits(z - 4, 4)]
                   [] z < 4 /\ same -> [next |-> i + 4, bits |-> a.bits \o Put(19) \o NumBits(0, 1) \o Put((old[i] + 17 - new[i]) % 17)]
                   [] OTHER -> [next |-> i + 1, bits |-> a.bits \o Put((old[i] + 17 - new[i]) % 17)],
       [next |-> 1, bits |-> <<>>], [i \in 1..Len(new) |-> i]).bits
\* The header of the v-th block of Huffman codes; tables are made once.
Old(v) == IF v = 0 THEN <<XZeros(496), XZeros(249)>> ELSE <<MainLens((v - 1) % 2), LongLens((v - 1) % 2)>>
HeaderBits(v) == LET m == MainLens(v % 2)
                     o == Old(v)
                 IN Codes(SubSeq(o[1], 1, 256), SubSeq(m, 1, 256)) \o Codes(SubSeq(o[1], 257, 496), SubSeq(m, 257, 496)) \o Codes(o[2], LongLens(v % 2))
Headers == TLCEval([v \in 1..4 |-> HeaderBits(v - 1)])
MainCode == TLCEval([v \in 1..2 |-> HuffmanCode(MainLens(v - 1), 16)])
LongCode == TLCEval([v \in 1..2 |-> HuffmanCode(LongLens(v - 1), 16)])
AlignedCode == TLCEval(HuffmanCode(AlignedLens2, 7))
BitsOf(e, v, aligned) ==
  LET x == Elem(e)
      m == HuffmanEncode(MainCode[(v % 2) + 1], MainLens(v % 2), MainOf(e))
      slot == Slot(x[2])
      low == x[2] - XBase(slot)
  IN IF x[1] = "lit" THEN m
     ELSE m \o (IF x[3] > 8 THEN HuffmanEncode(LongCode[(v % 2) + 1], LongLens(v % 2), x[3] - 9) ELSE <<>>)
            \o (IF x[1] = "recent" THEN <<>>
                ELSE IF aligned /\ slot >= 8 THEN NumBits(low \div 8, XExtra(slot) - 3) \o HuffmanEncode(AlignedCode, AlignedLens2, low % 8)
                ELSE NumBits(low, XExtra(slot)))
SizeOf(e) == IF Elem(e)[1] = "lit" THEN 1 ELSE Elem(e)[3]
Pad16(bits) == bits \o [i \in 1..((16 - (Len(bits) % 16)) % 16) |-> 0]
\* bytes of a string of bits of whole words
WordBytes(bits) == [i \in 1..(Len(bits) \div 8) |->
                      LET at == 8 * ((i - 1) + (IF i % 2 = 1 THEN 1 ELSE -1))
                      IN FoldLeft(LAMBDA a, j: (2 * a) + bits[at + j], 0, [j \in 1..8 |-> j])]
ByteBits(bs) == \* as words, so that WordBytes gives the bytes back
  [i \in 1..(8 * Len(bs)) |-> LET w == (i - 1) \div 16
                                  k == (i - 1) % 16
                                  byte == IF k < 8 THEN bs[2 * w + 2] ELSE bs[2 * w + 1]
                              IN (byte \div 2^(7 - (k % 8))) % 2]
Encoded(es) ==
  LET Size(i) == FoldLeft(LAMBDA a, j: IF a.end \/ IsStart(es[j]) THEN [a EXCEPT !.end = TRUE] ELSE [a EXCEPT !.n = @ + SizeOf(es[j])],
                          [end |-> FALSE, n |-> 0], [j \in 1..(Len(es) - i) |-> i + j]).n
      r == FoldLeft(LAMBDA a, i:
         LET e == es[i] IN
         CASE e \in {12, 13} ->
                LET d == Raw(e)
                    h == a.bits \o NumBits(3, 3) \o NumBits(Len(d), 17)
                    all == <<2, 0, 0, 0, 1, 0, 0, 0, 4, 0, 0, 0>> \o d \o (IF Len(d) % 2 = 1 THEN <<77>> ELSE <<>>)
                IN [a EXCEPT !.bits = Pad16(Append(h, 0)) \o ByteBits(all)]
           [] e \in {10, 11} ->
                [bits |-> a.bits \o NumBits(e - 9, 3) \o NumBits(Size(i), 17)
                          \o (IF e = 11 THEN Cat([k \in 1..8 |-> NumBits(AlignedLens2[k], 3)]) ELSE <<>>) \o Headers[a.v + 1],
                 v |-> a.v + 1, aligned |-> (e = 11)]
           [] OTHER -> [a EXCEPT !.bits = @ \o BitsOf(e, a.v - 1, a.aligned)],
       [bits |-> <<>>, v |-> 0, aligned |-> FALSE], [i \in 1..Len(es) |-> i])
  IN TLCEval(WordBytes(Pad16(r.bits)))

IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* a block is empty where a start follows another start
NoEmpty == \A i \in 1..Len(xs): xs[i] \in {10, 11} => (i < Len(xs) /\ ~IsStart(xs[i + 1]))
Blocks == (Kind = "blocks" /\ Fits /\ NoEmpty) =>
  LET m == Meaning(xs)
      n == Len(m)
      ok == \A i \in 1..n: m[i] # -1
      b == Encoded(xs)
      r == Lzx(b, n)
  IN /\ ok => r = [k |-> "ok", out |-> m, alt |-> m, lax |-> FALSE]
     /\ (~ok) => r.k = "err"
     \* a buffer that is full at the end of a block is full
     /\ ok => LET w == Lzx(b, n - 1) IN w.k = "err" \/ (Len(w.out) = n - 1 /\ IsPrefixOf(w.out, m) /\ (w.lax \/ n = 1 \/ Elem(xs[Len(xs)])[1] = "lit"))
     \* what is missing is noticed, what came out before it is right
     /\ ok => \A q \in {Len(b) - 2, Len(b) - 4, Len(b) \div 2}:
          LET t == Lzx(SubSeq(b, 1, q), n) IN t.k \in {"err", "short", "ok"} /\ IsPrefixOf(t.out, m) /\ (t.out # m => t.lax \/ t.k = "err")
\* DoCalls is what a compressor does; what follows a call is left alone by both.
Calls == Kind = "calls" =>
  LET tail == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>
      x == xs \o tail
      n == Len(x)
  IN UndoCalls(DoCalls(x, n - 10), n - 10) = x /\ DoCalls(UndoCalls(x, n - 10), n - 10) = x
\* The slots divide the distances.
Slots == xs = <<>> => \A d \in 1..32765: Cardinality({s \in 3..29: XBase(s) <= d /\ d < XBase(s) + 2^XExtra(s)}) = 1
=============================================================================
