------------------------------ MODULE MC_Udif ------------------------------
(* A writer of UDIF images: it takes the disk from its start, a run of sectors at a time, as
   an entry of the kind it chooses (a run of zeros can be left out), begins new tables, puts
   comments, and ends tables with end entries that may be followed by leftovers.  It can also
   make a mistake.  The image shows the disk, unless there was a mistake. *)
EXTENDS Udif, Json
TheDisks == {<<1, 0, 2>>, <<0, 0, 3, 0>>, <<4, 5>>}
CONSTANTS Disks, Most, Method
VARIABLES disk, l, at, fork, wrong
vars == <<disk, l, at, fork, wrong>>
\* fork: what is at each place of the data fork
E(t, start, n, h) == [t |-> t, start |-> start, n |-> n, h |-> h, bad |-> "no"]
Init == /\ disk \in Disks /\ at = 0 /\ fork = <<>> /\ wrong = FALSE
        /\ l = [kind |-> "tables", file |-> 1, wrong |-> "no", tables |-> <<[start |-> 0, entries |-> <<>>]>>, h |-> 0, sectors |-> 0, size |-> B0]
Cur == Len(l.tables)
Size == FoldLeft(LAMBDA a, t: a + Len(t.entries), Cur, l.tables)
Open == Size < Most + 1 /\ SelectInSeq(l.tables[Cur].entries, LAMBDA x: x.t = "end") = 0
Add(e) == l' = [l EXCEPT !.tables[Cur].entries = Append(@, e)]
Run(n, t) == /\ Open /\ ~wrong /\ at + n <= Len(disk)
             /\ t = "zero" => \A i \in 1..n: disk[at + i] = 0
             /\ Add(E(t, at - l.tables[Cur].start, n, IF t = "zero" THEN 0 ELSE Len(fork)))
             /\ fork' = IF t = "zero" THEN fork ELSE fork \o SubSeq(disk, at + 1, at + n)
             /\ at' = at + n /\ UNCHANGED <<disk, wrong>>
Comment == Open /\ Add(E("comment", 0, 0, 0)) /\ UNCHANGED <<disk, at, fork, wrong>>
End == Open /\ Add(E("end", 0, 0, 0)) /\ UNCHANGED <<disk, at, fork, wrong>>
Leftover == ~Open /\ Size < Most /\ Add(E("raw", 0, 3, 7)) /\ UNCHANGED <<disk, at, fork, wrong>>
NewTable == /\ Size < Most /\ Cur < 3 /\ l' = [l EXCEPT !.tables = Append(@, [start |-> at, entries |-> <<>>])]
            /\ UNCHANGED <<disk, at, fork, wrong>>
\* Mistakes: a run that is left out, written twice, or of an unknown kind.
Mistake == /\ Open /\ ~wrong /\ wrong' = TRUE /\ UNCHANGED <<disk, fork>>
           /\ \/ at + 1 < Len(disk) /\ at' = at + 2 /\ Add(E("zero", at + 1 - l.tables[Cur].start, 1, 0))
              \/ at > 0 /\ at' = at /\ Add(E("zero", at - 1 - l.tables[Cur].start, 1, 0))
              \/ at < Len(disk) /\ at' = at + 1 /\ Add(E("huh", at - l.tables[Cur].start, 1, 0))
Next == (\E n \in 1..2, t \in {"zero", "raw", Method}: Run(n, t)) \/ Comment \/ End \/ Leftover \/ NewTable \/ Mistake
Spec == Init /\ [][Next]_vars
Stored(s) == LET w == Where(l, s) IN IF w = Zero THEN 0 ELSE fork[w[2] + 1]
ShowsDisk == IF wrong THEN Verdict(l) = "err"
             ELSE Verdict(l) = "ok" /\ Sectors(l) = at /\ \A s \in 0..(at - 1): Stored(s) = disk[s + 1]
\* The order of tables and of the entries of a table is not what decides where sectors are.
Turned == [l EXCEPT !.tables = Reverse(@)]
AnyOrder == ~wrong => Verdict(Turned) \in {"ok", "may"} /\ \A s \in 0..(at - 1): Where(Turned, s) = Where(l, s)
Show == (at = Len(disk) \/ wrong) => PrintT("IMAGE " \o ToJson(l))
=============================================================================
