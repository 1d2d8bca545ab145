------------------------------- MODULE Codec -------------------------------
(* Character codecs as table machines: a decoder consumes the next element of the input
   (one byte, or two bytes after a Windows 932 lead byte) and yields its code point or an
   error; an encoder consumes one code point and yields the bytes of an element that decodes
   to it, or an error when no element does.  The tables are the published ones
   (tables/codepages.json, see tools/gen_codepages.py); -1 stands for "not mapped". *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Tables == JsonDeserialize("tables/codepages.json")
Single == Tables.single
W932Single == Tables.w932[1][1]
W932Leads == [i \in {Tables.leads[k][1] : k \in DOMAIN Tables.leads} |->
                (CHOOSE p \in {Tables.leads[k] : k \in DOMAIN Tables.leads} : p[1] = i)[2]]
CodePages == DOMAIN Single \cup {"windows932"}

\* The element at position i of s: <<code point or -1, number of bytes>>.
Element(enc, s, i) ==
  IF enc # "windows932" THEN <<Single[enc][s[i] + 1], 1>>
  ELSE IF s[i] \notin DOMAIN W932Leads THEN <<W932Single[s[i] + 1], 1>>
  ELSE IF i = Len(s) THEN <<-1, 1>>
  ELSE <<W932Leads[s[i]][s[i + 1] + 1], 2>>

\* Decoding; for a multi-byte code page it ends at the first error (where the next
\* element starts after an ill-formed one is not defined).
RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(enc, s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET e == Element(enc, s, i)
       IN IF e[1] = -1 /\ enc = "windows932" THEN Append(acc, -1)
          ELSE DecodeFrom(enc, s, i + e[2], Append(acc, e[1]))
Decode(enc, s) == DecodeFrom(enc, s, 1, <<>>)

Mapped == [enc \in CodePages |->
            IF enc # "windows932" THEN {Single[enc][i] : i \in 1..256} \ {-1}
            ELSE ({W932Single[i] : i \in 1..256} \cup
                  UNION {{W932Leads[l][i] : i \in 1..256} : l \in DOMAIN W932Leads}) \ {-1}]

\* Whether the bytes b (or the error <<-1>>) are a right encoding of code point cp.
RightEncoding(enc, cp, b) ==
  IF b = <<-1>> THEN cp \notin Mapped[enc]
  ELSE cp \in Mapped[enc] /\ Decode(enc, b) = <<cp>>

DecodeMatches(enc, s, out) ==
  IF enc # "windows932" THEN out = Decode(enc, s)
  ELSE LET d == Decode(enc, s)
       IN IF Len(d) > 0 /\ d[Len(d)] = -1
          THEN Len(out) \in Len(d)..Len(s) /\ SubSeq(out, 1, Len(d)) = d
          ELSE out = d
EncodeMatches(enc, cps, out) ==
  /\ Len(out) = Len(cps)
  /\ \A i \in DOMAIN cps: RightEncoding(enc, cps[i], out[i])
=============================================================================
