------------------------------- MODULE Detect -------------------------------
(* Detection of formats by their signatures.  Data is a size and pieces [off, data] on a
   background of zeros, later pieces over earlier ones; what is outside of the size is not
   there.  A signature [fmt, from, off, pat] is at `off` bytes from the start or before the
   end.  A format is reported when one of its signatures is at its place. *)
EXTENDS Integers, Sequences, FiniteSets, Big, SequencesExt
Zeros(n) == [k \in 1..n |-> 0]
EfiPart == <<69, 70, 73, 32, 80, 65, 82, 84>>
S(fmt, from, off, pat) == [fmt |-> fmt, from |-> from, off |-> off, pat |-> pat]
Signatures ==
  { S("Apm", "start", 560, <<65, 112, 112, 108, 101, 95, 112, 97, 114, 116, 105, 116, 105, 111, 110, 95, 109, 97, 112>> \o Zeros(13)),
    S("Ext", "start", 1080, <<83, 239>>),
    S("Ewf", "start", 0, <<69, 86, 70, 9, 13, 10, 255, 0>>),
    S("Fat", "start", 54, <<70, 65, 84, 49, 50, 32, 32, 32>>),
    S("Fat", "start", 54, <<70, 65, 84, 49, 54, 32, 32, 32>>),
    S("Fat", "start", 82, <<70, 65, 84, 51, 50, 32, 32, 32>>),
    S("Ntfs", "start", 3, <<78, 84, 70, 83, 32, 32, 32, 32>>),
    S("Qcow", "start", 0, <<81, 70, 73, 251, 0, 0, 0, 1>>),
    S("Qcow", "start", 0, <<81, 70, 73, 251, 0, 0, 0, 2>>),
    S("Qcow", "start", 0, <<81, 70, 73, 251, 0, 0, 0, 3>>),
    S("SparseImage", "start", 0, <<115, 112, 114, 115>>),
    S("Udif", "end", 512, <<107, 111, 108, 121>>),
    S("Vhd", "end", 512, <<99, 111, 110, 101, 99, 116, 105, 120>>),
    S("Vhdx", "start", 0, <<118, 104, 100, 120, 102, 105, 108, 101>>) }
  \cup {S("Gpt", "start", n, EfiPart) : n \in {512, 1024, 2048, 4096}}
  \cup {S("Mbr", "start", n - 2, <<85, 170>>) : n \in {512, 1024, 2048, 4096}}
Formats == {s.fmt : s \in Signatures}

Place(d, s) == IF s.from = "start" THEN BInt(s.off) ELSE BSub(d.size, BInt(s.off))
\* offset of p within a piece, or -1
Within(piece, p) ==
  LET x == BSub(p, piece.off) IN IF ~BNeg(x) /\ BFits(x) /\ BSmall(x) < Len(piece.data) THEN BSmall(x) ELSE -1
Byte(d, p) == FoldLeft(LAMBDA acc, piece: LET x == Within(piece, p) IN IF x < 0 THEN acc ELSE piece.data[x + 1], 0, d.pieces)
IsAt(d, s) ==
  LET p == Place(d, s)
  IN /\ ~BNeg(p) /\ BLeq(BAdd(p, BInt(Len(s.pat))), d.size)
     /\ \A k \in 1..Len(s.pat): Byte(d, BAdd(p, BInt(k - 1))) = s.pat[k]
Detected(d, enabled) == {s.fmt : s \in {x \in Signatures : x.fmt \in enabled /\ IsAt(d, x)}}
=============================================================================
