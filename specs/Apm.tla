-------------------------------- MODULE Apm --------------------------------
(* Apple partition maps.  From sector 1 on there is an entry per sector, [sig, count, start, n,
   name, type, flags]; all say how many there are.  The first is the map itself, which is not
   listed. *)
EXTENDS Volumes
Sound(l) ==
  /\ Len(l.entries) > 0 /\ l.entries[1].sig = "PM" /\ l.entries[1].type = "Apple_partition_map"
  /\ l.entries[1].count <= Len(l.entries)
  /\ \A i \in 2..l.entries[1].count: l.entries[i].sig = "PM" /\ l.entries[i].count = l.entries[1].count
Parts(l) == [i \in 1..(IF l.entries[1].count = 0 THEN 0 ELSE l.entries[1].count - 1) |-> LET e == l.entries[i + 1] IN
  [name |-> e.name, type |-> e.type, flags |-> e.flags, off |-> e.start, n |-> e.n]]
Opened(l, e) ==
  IF ~Sound(l) \/ (l.loose /\ e.out.k = "err") THEN [k |-> "err"]
  ELSE [k |-> "ok", meta |-> [bps |-> 512, parts |-> Shown(Parts(l))], parts |-> Parts(l)]
===========================================================================
