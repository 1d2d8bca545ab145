------------------------------ MODULE Huffman ------------------------------
(* Canonical Huffman codes: the symbols in order of code length and number get
   consecutive codes.  A code is given by the length of every symbol's code, lens[i] for
   symbol i - 1, 0 for a symbol without a code. *)
EXTENDS Integers, Sequences, SequencesExt, TLC

HSymbols(lens, max) ==
  TLCEval([l \in 1..max |-> SelectSeq([i \in 1..Len(lens) |-> i - 1], LAMBDA x: lens[x + 1] = l)])
HuffmanCode(lens, max) ==
  LET syms == HSymbols(lens, max)
      acc == FoldLeft(LAMBDA a, l: [next |-> 2 * (a.next + Len(syms[l])), first |-> Append(a.first, a.next),
                                    left |-> IF a.left < 0 THEN a.left ELSE 2 * a.left - Len(syms[l])],
                      [next |-> 0, first |-> <<>>, left |-> 1], [l \in 1..max |-> l])
  IN [syms |-> syms, first |-> TLCEval(acc.first), left |-> acc.left, max |-> max]
\* More codes than there are bit strings for; bit strings that are no code.
OverSubscribed(h) == h.left < 0
Incomplete(h) == h.left > 0
CodeCount(h) == FoldLeft(LAMBDA a, l: a + Len(h.syms[l]), 0, [l \in 1..h.max |-> l])

\* The symbol whose code is at the front of the bits after position p, -1 if there is none.
\* Bit(i) is the i-th bit, n the number of bits.
HuffmanDecode(h, Bit(_), n, p) ==
  LET r == FoldLeft(LAMBDA a, l:
             IF a.sym # -1 \/ p + l > n THEN a
             ELSE LET code == (2 * a.code) + Bit(p + l)
                      k == code - h.first[l]
                  IN IF k >= 0 /\ k < Len(h.syms[l]) THEN [code |-> code, sym |-> h.syms[l][k + 1], len |-> l]
                     ELSE [a EXCEPT !.code = code],
             [code |-> 0, sym |-> -1, len |-> 0], [l \in 1..h.max |-> l])
  IN [sym |-> r.sym, pos |-> p + r.len]
\* The code of a symbol, most significant bit first.
HuffmanEncode(h, lens, x) ==
  LET l == lens[x + 1]
      code == h.first[l] + Len(SelectSeq(h.syms[l], LAMBDA y: y < x))
  IN [i \in 1..l |-> (code \div 2^(l - i)) % 2]
=============================================================================
