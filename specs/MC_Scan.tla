------------------------------- MODULE MC_Scan -------------------------------
(* A scanner that sees the data in buffers and keeps only the last bytes, in which a
   signature that continues in the next buffer can start, reports what scanning the whole
   data at once reports, for every data, every way to split it and every set of
   signatures within the bounds; and what is reported for bound signatures does not
   depend on the other signatures. *)
EXTENDS Scan, TLC
CONSTANT MaxLen
Sg(i, t, o, p) == [id |-> i, type |-> t, off |-> o, pat |-> p]
Pool == {Sg("a", "unbound", 0, <<1>>), Sg("b", "unbound", 0, <<1, 2>>), Sg("c", "unbound", 0, <<1, 2, 1>>),
         Sg("d", "unbound", 0, <<2, 2>>), Sg("e", "start", 1, <<2, 1>>), Sg("f", "start", 1, <<2>>),
         Sg("g", "start", 3, <<2, 1>>), Sg("h", "end", 2, <<2, 1>>), Sg("i", "end", 4, <<1, 1>>), Sg("j", "start", 0, <<1, 2, 1>>),
         Sg("k", "end", 1, <<2>>)}
VARIABLES sigs, data, pos, carry, resume, found
vars == <<sigs, data, pos, carry, resume, found>>
L == LET m == {Len(s.pat) : s \in sigs} IN CHOOSE x \in m : \A y \in m : y <= x
Init == /\ sigs \in {s \in SUBSET Pool : Cardinality(s) \in 1..3}
        /\ data \in UNION {[1..n -> {1, 2}] : n \in 1..MaxLen}
        /\ pos = 0 /\ carry = <<>> /\ resume = 0 /\ found = {}
Feed(k) ==
  LET seg == [off |-> pos - Len(carry), data |-> carry \o SubSeq(data, pos + 1, pos + k)]
      end == pos + k
      hi == IF end < Len(data) THEN end - L + 1 ELSE end
      u == UnboundScan(sigs, Len(data), seg, resume, seg.off, hi)
      keep == Min2(L - 1, Len(seg.data))
  IN /\ found' = found \cup BoundIn(sigs, Len(data), seg) \cup u.found
     /\ resume' = u.resume
     /\ carry' = SubSeq(seg.data, Len(seg.data) - keep + 1, Len(seg.data))
     /\ pos' = end /\ UNCHANGED <<sigs, data>>
Next == \E k \in 1..(Len(data) - pos) : Feed(k)
Spec == Init /\ [][Next]_vars
SplitIndependent == pos = Len(data) => AsReport(found) = Whole(sigs, data)
NothingEarly == \A f \in found : \E s \in sigs : s = f[2] /\ Found([off |-> 0, data |-> data], Len(data), f[1], s.pat)
\* signatures do not depend on one another: every bound signature of the set that is there is
\* reported at its place, by itself or by a longer one
Independent ==
  LET w == Whole(sigs, data) IN
  \A s \in sigs : LET r == Whole({s}, data) IN
    s.type # "unbound" => /\ DOMAIN r \subseteq DOMAIN w
                          /\ \A p \in DOMAIN r : \A x \in sigs : x.id \in w[p] => Len(x.pat) >= Len(s.pat)
=============================================================================
