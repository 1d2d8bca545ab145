------------------------------- MODULE MC_Ewf -------------------------------
(* A writer of EWF images: it takes the media a chunk at a time from its start, begins new
   tables and segment files where it likes, and ends with the last segment file.  Something may
   then be damaged.  The image shows the media, except what is damaged. *)
EXTENDS Ewf, Json
CONSTANTS Chunked, MostSegments, MostTables
VARIABLES l, at, open, damage
vars == <<l, at, open, damage>>
\* the media has Chunked chunks, the last one may be cut
S(t) == [t |-> t, ok |-> TRUE]
Vol(half) == [t |-> "volume", ok |-> TRUE, spc |-> 2, bps |-> 512, size |-> BInt((1024 * Chunked) - (IF half THEN 512 ELSE 0)), count |-> Chunked, media |-> 1, gran |-> 0, id |-> "x"]
Cur == Len(l.segs)
Secs == l.segs[Cur].secs
Init == /\ at = 0 /\ open = TRUE /\ damage = "no"
        /\ \E half \in BOOLEAN, k \in {1, 2}:
             l = [wrong |-> "no", segs |-> <<[num |-> 1, secs |-> <<[t |-> "header", ok |-> TRUE, kind |-> k, rows |-> <<<<"c", <<49>>>>, <<"m", <<49, 50>>>>, <<"zz", <<>>>>>>], Vol(half)>>]>>]
Put(sec) == l' = [l EXCEPT !.segs[Cur].secs = Append(@, sec)]
InTable == Len(Secs) > 0 /\ Secs[Len(Secs)].t = "table"
Tables == Len(SelectSeq(Flat(l), LAMBDA x: x.sec.t = "table"))
NewTable == open /\ ~InTable /\ at < Chunked /\ Tables < MostTables /\ Put([t |-> "table", ok |-> TRUE, chunks |-> <<[h |-> 2 * at, bad |-> FALSE]>>]) /\ at' = at + 1 /\ UNCHANGED <<open, damage>>
AddChunk == open /\ InTable /\ at < Chunked /\ at' = at + 1 /\ UNCHANGED <<open, damage>>
            /\ l' = [l EXCEPT !.segs[Cur].secs[Len(Secs)].chunks = Append(@, [h |-> 2 * at, bad |-> FALSE])]
Copy == open /\ InTable /\ Put([t |-> "table2", ok |-> TRUE, chunks |-> Secs[Len(Secs)].chunks]) /\ UNCHANGED <<at, open, damage>>
NextSegment == /\ open /\ Cur < MostSegments /\ at > 0
               /\ l' = [l EXCEPT !.segs = Append([@ EXCEPT ![Cur].secs = Append(@, S("next"))], [num |-> Cur + 1, secs |-> <<[t |-> "data", ok |-> TRUE, id |-> "x"]>>])]
               /\ UNCHANGED <<at, open, damage>>
Finish == open /\ at = Chunked /\ l' = [l EXCEPT !.segs[Cur].secs = @ \o <<[t |-> "hash", ok |-> TRUE, md5 |-> "m"], S("done")>>] /\ open' = FALSE /\ UNCHANGED <<at, damage>>
Damage == /\ ~open /\ damage = "no" /\ UNCHANGED <<at, open>>
          /\ \/ \E k \in 1..Len(l.segs): \E i \in 1..Len(l.segs[k].secs):
                  \/ l' = [l EXCEPT !.segs[k].secs[i].ok = FALSE] /\ damage' = "section"
                  \/ /\ l.segs[k].secs[i].t = "table" /\ damage' = "chunk"
                     /\ \E j \in 1..Len(l.segs[k].secs[i].chunks): l' = [l EXCEPT !.segs[k].secs[i].chunks[j].bad = TRUE]
             \/ \E k \in 1..Len(l.segs): l' = [l EXCEPT !.segs = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))] /\ damage' = "lost"
             \/ \E k \in 1..Len(l.segs): l' = [l EXCEPT !.segs[k].num = @ + 1] /\ damage' = "number"
             \/ \E k \in 2..Len(l.segs): l' = [l EXCEPT !.segs[k].secs[1].id = "y"] /\ damage' = "set"
Next == NewTable \/ AddChunk \/ Copy \/ NextSegment \/ Finish \/ Damage
Spec == Init /\ [][Next]_vars
\* sectors that are media, in chunks of two
Media == IF Volume(l).size = BInt(1024 * Chunked) THEN 2 * Chunked ELSE (2 * Chunked) - 1
HadTable2(sec) == sec.t \in {"table", "table2"}
ShowsMedia ==
  /\ damage = "no" /\ ~open => Verdict(l) = "ok" /\ \A s \in 0..(Media - 1): Where(l, s) = <<1, s>>
  /\ damage = "chunk" => Verdict(l) = "ok" /\ \A s \in 0..(Media - 1): Where(l, s) \in {<<1, s>>, Broken}
  /\ damage \in {"lost", "number", "set"} => Verdict(l) = "err"
  /\ damage = "section" => Verdict(l) \in {"err", "may"}
  /\ open => Verdict(l) = "err"
\* nothing of what is damaged is shown, everything else is
Local == damage = "chunk" => Len(SelectSeq(Chunks(l), LAMBDA c: c.bad)) = 1
KindsOf == ~open /\ Verdict(l) = "ok" => Cardinality(Values(l)) = 2 /\ Meta(l).md5 = "m"
Show == ~open => PrintT("IMAGE " \o ToJson(l))
=============================================================================
