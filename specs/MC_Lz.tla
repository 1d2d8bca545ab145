-------------------------------- MODULE MC_Lz --------------------------------
(* The LZ machines on all short byte strings and on all short element sequences, the
   coders of LZFSE for all small frequency tables. *)
EXTENDS Lz, FiniteSets
CONSTANTS Kind, Most, Alphabet
VARIABLES xs
vars == <<xs>>
Init == xs = <<>>
Next == Len(xs) < Most /\ \E b \in Alphabet: xs' = Append(xs, b)
Spec == Init /\ [][Next]_vars

IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Run(b, cap) == CASE Kind = "adc" -> Adc(b, cap) [] Kind = "lzvn" -> Lzvn(b, cap) [] Kind = "lznt1" -> Lznt1(b, cap) [] OTHER -> Lzfse(b, cap)
Machines == Kind \in {"adc", "lzvn", "lznt1"} => \A c1 \in {0, 3, 5, 400} :
  LET r == Run(xs, c1)
      w == Run(xs, 500)
  IN /\ Len(r.out) <= c1
     \* what comes out before an error, or for a smaller buffer, is the start of what comes out of the whole
     /\ IsPrefixOf(r.out, w.out)
     /\ r.k = "ok" => r = w
     /\ (xs # <<>>) => IsPrefixOf(Run(SubSeq(xs, 1, Len(xs) - 1), 500).out, w.out)
     \* more is never accepted with less
     /\ (w.k = "ok" /\ Len(w.out) <= c1) => r.k = "ok"
     \* an end mark ends: what follows is not looked at
     /\ (Kind = "lzvn" /\ w.k = "ok") => Run(Append(xs, 255), 500) = w
\* Elements: <<"lit", n>> or <<"copy", n, d>>; here numbers 1..9 stand for some.
Elem(e) == CASE e = 1 -> <<1, 0, 0>> [] e = 2 -> <<2, 0, 0>> [] e = 3 -> <<0, 4, 1>> [] e = 4 -> <<0, 5, 2>> [] e = 5 -> <<0, 67, 3>> [] OTHER -> <<0, 18, 6>>
Lit(i, n) == [j \in 1..n |-> (7 * i) + j]
EncAdc(i, e) == IF e[1] > 0 THEN <<127 + e[1]>> \o Lit(i, e[1]) ELSE IF e[2] < 19 THEN <<4 * (e[2] - 3), e[3] - 1>> ELSE <<60 + e[2], 0, e[3] - 1>>
EncLzvn(i, e) == IF e[1] > 0 THEN <<224 + e[1]>> \o Lit(i, e[1]) ELSE IF e[2] < 11 THEN <<8 * (e[2] - 3), e[3]>> ELSE IF e[2] < 35 THEN <<160 + ((e[2] - 3) \div 4), (4 * e[3]) + ((e[2] - 3) % 4), 0>> ELSE <<56 + 7, e[3], 0, 240, e[2] - 10 - 16>>
\* byte by byte
Meaning(es) == FoldLeft(LAMBDA o, i: LET e == Elem(es[i]) IN FoldLeft(LAMBDA a, j: Append(a, IF a = <<>> \/ e[3] > Len(a) THEN -1 ELSE a[Len(a) + 1 - e[3]]), IF e[1] > 0 THEN o \o Lit(i, e[1]) ELSE o, [j \in 1..e[2] |-> j]),
                        <<>>, [i \in 1..Len(es) |-> i])
Joined(ss) == FoldLeft(LAMBDA a, x: a \o x, <<>>, ss)
Elements == Kind = "elements" =>
  LET m == Meaning(xs)
      ok == \A i \in 1..Len(m): m[i] # -1
      n == Len(m)
      a == Joined([i \in 1..Len(xs) |-> EncAdc(i, Elem(xs[i]))])
      v == Joined([i \in 1..Len(xs) |-> EncLzvn(i, Elem(xs[i]))])
      end == <<6>> \o [i \in 1..7 |-> 0]
      ve == v \o end
      z == <<98, 118, 120>>
      le(k) == <<k, 0, 0, 0>>
      f == z \o <<110>> \o <<n % 256, n \div 256, 0, 0>> \o le(Len(ve)) \o ve \o z \o <<36>>
  IN /\ Adc(a, n).k = (IF ok THEN "ok" ELSE "err") /\ ok => Adc(a, n).out = m
     /\ Lzvn(ve, n).k = (IF ok THEN "ok" ELSE "err") /\ ok => Lzvn(ve, n).out = m
     /\ ok => Lzvn(v, n).k = "err" /\ Lzvn(v, n + 1).lax = FALSE
     /\ n > 0 => Lzvn(ve, n - 1).k = "err" /\ Adc(a, n - 1).k = "err"
     /\ ok /\ Len(ve) < 256 => Lzfse(f, n) = [k |-> "ok", out |-> m, lax |-> FALSE]
                               /\ \A q \in 0..(Len(f) - 1): Lzfse(SubSeq(f, 1, q), n).k = "err"
\* Every opcode has exactly one meaning, and every distance that can occur can be written.
Lznt1Shifts == Kind = "elements" =>
  \A o \in 1..4096: LET k == Lznt1Shift(o) IN o <= 2^(16 - k) /\ (k = 12 \/ o > 2^(15 - k)) /\ (o > 16 => Lznt1Shift(o) <= Lznt1Shift(o - 1))
\* For each state after a symbol there is exactly one state before it, for all frequencies
\* that sum to the number of states: what an encoder needs.
Coders == (Kind = "coders" /\ xs # <<>>) =>
  LET N == FoldLeft(LAMBDA a, x: a + x, 0, xs)
      c == FseCoder(xs, N)
      Entry(x) == FseEntry(c, x)
      ents == TLCEval([x \in 0..(N - 1) |-> Entry(x)])
  IN N \in {4, 8, 16} =>
     /\ c.ok /\ ~FseCoder(Append(xs, 1), N).ok
     /\ \A x \in 0..(N - 1): ents[x].base >= 0 /\ ents[x].base + 2^ents[x].bits <= N
     /\ \A s \in 0..(Len(xs) - 1): xs[s + 1] > 0 =>
          \A y \in 0..(N - 1): Cardinality({x \in 0..(N - 1): ents[x].sym = s /\ ents[x].base <= y /\ y < ents[x].base + 2^ents[x].bits}) = 1
\* The codes of frequencies: each number has one, and none starts another.
FreqBits(v) == LET B(x, n) == [i \in 1..n |-> (x \div 2^(i - 1)) % 2]
               IN CASE v < 2 -> <<0, v>> [] v < 4 -> <<1, 0, v - 2>> [] v < 8 -> <<1, 1, 0>> \o B(v - 4, 2) [] v < 24 -> <<1, 1, 1, 0>> \o B(v - 8, 4) [] OTHER -> <<1, 1, 1, 1>> \o B(v - 24, 10)
Packed(bits) == LET n == (Len(bits) + 7) \div 8 IN [i \in 1..n |-> FoldLeft(LAMBDA a, j: (2 * a) + (IF 8 * i + 1 - j > Len(bits) THEN 0 ELSE bits[8 * i + 1 - j]), 0, [j \in 1..8 |-> j])]
FreqCodes == Kind = "coders" =>
  LET b == Joined([i \in 1..Len(xs) |-> FreqBits(61 * xs[i])])
      p == Packed(b)
      r == FoldLeft(LAMBDA a, i: LET c == FreqCode(p, 0, a.at, Len(p)) IN [at |-> a.at + c.n, f |-> Append(a.f, c.v)], [at |-> 0, f |-> <<>>], [i \in 1..Len(xs) |-> i])
  IN r.f = [i \in 1..Len(xs) |-> 61 * xs[i]] /\ r.at = Len(b)
\* The values of the symbols follow each other without gaps.
Values == Kind = "elements" /\ xs = <<>> =>
  /\ \A s \in 0..18: Base(LBitsOf, s + 1) = Base(LBitsOf, s) + 2^LBitsOf(s) /\ Base(MBitsOf, s + 1) = Base(MBitsOf, s) + 2^MBitsOf(s)
  /\ Base(LBitsOf, 19) = 60 /\ Base(MBitsOf, 19) = 312 /\ Base(DBitsOf, 63) = 229372
=============================================================================
