-------------------------------- MODULE Scan --------------------------------
(* Signature scanning.  A signature [id, type, off, pat] is bound to an offset from the
   start of the data, bound to an offset before its end, or unbound.  Data of `size` bytes
   is presented in parts; parts that follow one another form one segment [off, data].
   Reported are the offsets with, at each, a longest signature found there:
   - bound signatures wherever their pattern is at the place they are bound to,
   - unbound ones from left to right, not overlapping, the longest at a place. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Min2(a, b) == IF a < b THEN a ELSE b
\* the pattern is at offset p of the data and within the segment
Found(seg, size, p, pat) ==
  /\ p >= seg.off
  /\ p + Len(pat) <= Min2(seg.off + Len(seg.data), size)
  /\ \A k \in 1..Len(pat): seg.data[p - seg.off + k] = pat[k]
BoundAt(size, s) == IF s.type = "start" THEN s.off ELSE size - s.off
\* pairs of offset and signature
BoundIn(sigs, size, seg) ==
  {<<BoundAt(size, s), s>> : s \in {x \in sigs : x.type # "unbound" /\ Found(seg, size, BoundAt(size, x), x.pat)}}
Longest(ss) == {s \in ss : \A x \in ss : Len(x.pat) <= Len(s.pat)}
UnboundAt(sigs, size, seg, p) == Longest({s \in sigs : s.type = "unbound" /\ Found(seg, size, p, s.pat)})
\* from left to right over the places lo .. hi-1, not before `resume`
UnboundScan(sigs, size, seg, resume, lo, hi) ==
  FoldLeft(LAMBDA acc, k:
             LET p == lo + k - 1 ss == IF p < acc.resume THEN {} ELSE UnboundAt(sigs, size, seg, p)
             IN IF ss = {} THEN acc
                ELSE [resume |-> p + Len((CHOOSE s \in ss : TRUE).pat), found |-> acc.found \cup {<<p, s>> : s \in ss}],
           [resume |-> resume, found |-> {}], [k \in 1..(IF hi > lo THEN hi - lo ELSE 0) |-> k])
\* found pairs as offset -> the ids that may be reported there
AsReport(found) ==
  [p \in {f[1] : f \in found} |-> {s.id : s \in Longest({f[2] : f \in {x \in found : x[1] = p}})}]
Whole(sigs, data) ==
  LET seg == [off |-> 0, data |-> data] n == Len(data)
  IN AsReport(BoundIn(sigs, n, seg) \cup UnboundScan(sigs, n, seg, 0, 0, n).found)
\* of segments; unbound signatures are judged when one segment has all of the data
Report(sigs, size, segs) ==
  AsReport(UNION {BoundIn(sigs, size, segs[i]) : i \in DOMAIN segs} \cup
           UNION {UnboundScan(sigs, size, segs[i], 0, segs[i].off, segs[i].off + Len(segs[i].data)).found : i \in DOMAIN segs})
Present(segs, off, data) ==
  IF segs # <<>> /\ Last(segs).off + Len(Last(segs).data) = off
  THEN [segs EXCEPT ![Len(segs)] = [off |-> @.off, data |-> @.data \o data]]
  ELSE Append(segs, [off |-> off, data |-> data])
=============================================================================
