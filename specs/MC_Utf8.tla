------------------------------ MODULE MC_Utf8 ------------------------------
(* Every byte sequence over the boundary bytes, up to length 4: what the automaton accepts
   is exactly the concatenation of the encodings of the code points it yields, all of which
   are Unicode scalar values. Every byte string over a small alphabet survives Base64. *)
EXTENDS Utf8, TLC
CONSTANTS Boundary, MaxLen
VARIABLES s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Boundary: s' = Append(s, b)
Spec == Init /\ [][Next]_s
Good(d) == IF Len(d) > 0 /\ d[Len(d)] = -1 THEN SubSeq(d, 1, Len(d) - 1) ELSE d
Scalar(c) == (c >= 0 /\ c <= 55295) \/ (c >= 57344 /\ c <= 1114111)
Reencode(d) == FoldLeft(LAMBDA a, c: a \o Utf8Encode(c), <<>>, d)
Faithful == LET d == Utf8Decode(s) g == Good(d) r == Reencode(g) IN
  /\ \A i \in DOMAIN g: Scalar(g[i])
  /\ Len(r) <= Len(s) /\ r = SubSeq(s, 1, Len(r)) /\ (Len(g) = Len(d) <=> Len(r) = Len(s))
\* Nothing that is an encoding is refused: when an error is reported, no scalar value's
\* encoding starts there.  (Checked for the boundary scalars.)
Edges == {0, 127, 128, 2047, 2048, 4095, 4096, 53247, 53248, 55295, 57344, 65535, 65536, 262143, 262144, 1048575, 1048576, 1114111}
Complete == \A c \in Edges: Utf8Decode(s \o Utf8Encode(c)) =
               IF Len(Good(Utf8Decode(s))) = Len(Utf8Decode(s)) THEN Append(Utf8Decode(s), c) ELSE Utf8Decode(s \o Utf8Encode(c))
Base64RoundTrip == LET t == B64Encode(s) IN
  /\ B64Proper(t, FALSE) /\ ~B64Refused(t) /\ B64Bytes(B64Scan(t, FALSE, 1, <<>>).digits) = s
=============================================================================
