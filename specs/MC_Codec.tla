------------------------------ MODULE MC_Codec ------------------------------
(* Properties of the code page tables and of the codec machine: every mapped code point
   has an encoding, decoding is a homomorphism over concatenation at element boundaries,
   the ASCII half is the identity (save for the Dingbats), element lengths tile the input. *)
EXTENDS Codec
CONSTANT SampleBytes
VARIABLES enc, s
Init == enc \in CodePages /\ s = <<>>
Next == /\ Len(s) < 3 /\ UNCHANGED enc /\ \E b \in SampleBytes: s' = Append(s, b)
Spec == Init /\ [][Next]_<<enc, s>>

OneByte == [e \in CodePages |-> IF e = "windows932" THEN W932Single ELSE Single[e]]
AsciiHalf == s = <<>> /\ enc # "mac_dingbats" => \A b \in 0..127: OneByte[enc][b + 1] = b
Range256 == s = <<>> => \A i \in 1..256: OneByte[enc][i] \in -1..65535
Deterministic == LET d == Decode(enc, s) IN \A i \in 1..Len(d): d[i] \in {-1} \cup Mapped[enc]
RECURSIVE Whole(_, _, _)
Whole(e, t, i) == i > Len(t) \/ (Element(e, t, i)[1] # -1 /\ Whole(e, t, i + Element(e, t, i)[2]))
Homomorphic == \A k \in 0..Len(s):
   LET a == SubSeq(s, 1, k) b == SubSeq(s, k + 1, Len(s))
   IN (enc # "windows932" \/ Whole(enc, a, 1)) => Decode(enc, s) = Decode(enc, a) \o Decode(enc, b)
=============================================================================
