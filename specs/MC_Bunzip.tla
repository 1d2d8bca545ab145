----------------------------- MODULE MC_Bunzip -----------------------------
(* The stages of bzip2 are inverted: for all short strings, the inverse transform of the
   sorted rotations is the string, undoing runs undoes the writing of runs, and the
   move-to-front codes are undone. *)
EXTENDS Bunzip, FiniteSets
CONSTANTS Most, Values
VARIABLE s
Init == s = <<>>
Next == Len(s) < Most /\ \E b \in Values: s' = Append(s, b)
Spec == Init /\ [][Next]_s
N == Len(s)
Rot(i) == [j \in 1..N |-> s[((i + j - 2) % N) + 1]]
Less(a, b) == \E i \in 1..N: a[i] < b[i] /\ \A j \in 1..(i - 1): a[j] = b[j]
Rows == SortSeq([i \in 1..N |-> i], LAMBDA a, b: Less(Rot(a), Rot(b)) \/ (Rot(a) = Rot(b) /\ a < b))
Transform == N > 0 => LET r == Rows
                          l == [i \in 1..N |-> Rot(r[i])[N]]
                          orig == CHOOSE i \in 1..N: r[i] = 1
                      IN InverseBWT(l, orig - 1) = s
\* writing runs: of every maximal run, groups of at most 4 + 255
Runs == LET w == FoldLeft(LAMBDA a, b:
                   IF a.n >= 4 /\ b = a.last /\ a.n < 259 THEN [a EXCEPT !.n = @ + 1]
                   ELSE LET o == IF a.n >= 4 THEN Append(a.out, a.n - 4) ELSE a.out
                            same == b = a.last /\ a.n < 4
                        IN [n |-> IF same THEN a.n + 1 ELSE 1, last |-> b, out |-> Append(o, b)],
                   [n |-> 0, last |-> -1, out |-> <<>>], s)
            e == IF w.n >= 4 THEN Append(w.out, w.n - 4) ELSE w.out
        IN Unrun(e).out = s /\ Unrun(e).n # 4
FrontCodes == LET all == <<0, 1, 2, 3, 4>>
             enc == FoldLeft(LAMBDA a, b: LET i == CHOOSE i \in 1..5: a.l[i] = b IN [l |-> MoveToFront(a.l, i), out |-> Append(a.out, i)], [l |-> all, out |-> <<>>], s)
             dec == FoldLeft(LAMBDA a, i: LET m == MoveToFront(a.l, i) IN [l |-> m, out |-> Append(a.out, m[1])], [l |-> all, out |-> <<>>], enc.out)
         IN dec.out = s
=============================================================================
