------------------------------- MODULE MC_Vfs -------------------------------
(* A resolver that keeps what it opened for as long as it is used (the cache holds weak
   references): whatever the order of opens and drops, what a slot holds is the file system
   its location names.  What is kept is found by its type and by what it was opened over; with
   Key = "parent" (what was kept is found by what it was opened over alone) this is refuted. *)
EXTENDS Vfs, TLC
CONSTANTS Key, Slots, Depth
\* a disk with a GPT and a (hybrid) MBR, whose partition 1 is one and the same Ext volume with
\* a QCOW image in it, that holds an NTFS volume or, in the older layer, an Ext one
E(path, kind, views, scan) == [path |-> path, name |-> IF Len(path) > 1 THEN path[Len(path)] ELSE "", kind |-> kind, has |-> kind = "file", views |-> views, scan |-> scan,
                               size |-> Len(path), crc |-> 0, streams |-> <<>>, times |-> <<>>, target |-> "-"]
Nothing == [img |-> "", vol |-> "", fs |-> ""]
No == [x \in {} |-> 0]
R == E(<<"">>, "dir", No, Nothing)
Part(n, v, s) == E(<<"", n>>, "file", v, s)
W == [fss |-> <<
  [type |-> "Os", entries |-> <<R, Part("d", "Gpt" :> 2 @@ "Mbr" :> 3, [Nothing EXCEPT !.vol = "Gpt"]), Part("q", "Qcow" :> 5, [Nothing EXCEPT !.img = "Qcow"])>>],
  [type |-> "Gpt", entries |-> <<R, Part("gpt1", "Ext" :> 4, [Nothing EXCEPT !.fs = "Ext"]), Part("gpt2", No, Nothing)>>],
  [type |-> "Mbr", entries |-> <<R, Part("mbr1", No, Nothing), Part("mbr2", "Ext" :> 4, [Nothing EXCEPT !.fs = "Ext"])>>],
  [type |-> "Ext", entries |-> <<R, Part("q", "Qcow" :> 5, [Nothing EXCEPT !.img = "Qcow"]), E(<<"", "d">>, "dir", No, Nothing), E(<<"", "d", "f">>, "file", No, Nothing)>>],
  [type |-> "Qcow", entries |-> <<R, Part("qcow1", "Ext" :> 7, [Nothing EXCEPT !.fs = "Ext"]), Part("qcow2", "Ntfs" :> 6, [Nothing EXCEPT !.fs = "Ntfs"])>>],
  [type |-> "Ntfs", entries |-> <<R, E(<<"", "f">>, "file", No, Nothing)>>],
  [type |-> "Ext", entries |-> <<R>>] >>]
Types == {W.fss[f].type : f \in DOMAIN W.fss}
\* over a place, as a type; the places that are there only, for all others fail alike
RECURSIVE Reach(_)
Reach(n) ==
  IF n = 0 THEN {<<1, <<>>>>}
  ELSE LET now == Reach(n - 1)
       IN now \cup {<<W.fss[x[1]].entries[i].views[t], Append(x[2], <<W.fss[x[1]].type, W.fss[x[1]].entries[i].path>>)>> :
                    <<x, i, t>> \in {<<x, i, t>> \in now \X (1..4) \X Types : i \in DOMAIN W.fss[x[1]].entries /\ t \in DOMAIN W.fss[x[1]].entries[i].views}}
\* locations to be opened: over the places that are there, as the type that is right and as others
Locs == {Append(x[2], <<W.fss[x[1]].type, <<"">>>>) : x \in Reach(Depth)}
        \cup {Append(Append(x[2], <<W.fss[x[1]].type, W.fss[x[1]].entries[i].path>>), <<t, <<"">>>>) :
              <<x, i, t>> \in {<<x, i, t>> \in Reach(Depth - 1) \X (1..4) \X Types : i \in DOMAIN W.fss[x[1]].entries}}
VARIABLES held
Free == [loc |-> <<>>, key |-> <<>>, fs |-> 0]
KeyOf(loc) == IF Key = "parent" THEN <<Front1(loc)>> ELSE <<Top(loc)[1], Front1(loc)>>
Kept(key) == {s \in Slots : held[s].fs # 0 /\ held[s].key = key}
RECURSIVE Open(_)
Open(loc) ==
  LET kept == Kept(KeyOf(loc))
  IN IF kept # {} THEN held[CHOOSE s \in kept: TRUE].fs
     ELSE IF Len(loc) = 1 THEN (IF loc[1][1] = "Os" THEN 1 ELSE 0)
     ELSE LET f == Open(Front1(loc))
              i == IF f = 0 THEN 0 ELSE Find(W, f, Top(Front1(loc))[2])
          IN IF i = 0 THEN 0 ELSE View(Entries(W, f)[i], Top(loc)[1])
MCInit == held = [s \in Slots |-> Free]
Take(s, loc) ==
  LET f == Open(loc)
  IN held' = IF f = 0 THEN held ELSE [held EXCEPT ![s] = [loc |-> loc, key |-> KeyOf(loc), fs |-> f]]
Release(s) == held[s].fs # 0 /\ held' = [held EXCEPT ![s] = Free]
Next == \E s \in Slots: Release(s) \/ \E loc \in Locs: Take(s, loc)
Spec == MCInit /\ [][Next]_held
\* what is held is what the location names, and an open gives it whatever is in use
Sound == \A s \in Slots: held[s].fs # 0 => held[s].fs = FsOf(W, held[s].loc)
Transparent == \A loc \in Locs: Open(loc) = FsOf(W, loc)
\* what is there is found by all: below the one entry or by the paths
Paths == \A f \in DOMAIN W.fss: \A i \in DOMAIN W.fss[f].entries:
           LET p == W.fss[f].entries[i].path
           IN /\ Len(p) > 1 => i \in Kids(W, f, Parent(p))
              /\ \A j \in DOMAIN W.fss[f].entries: Joined("Ext", p) = Joined("Ext", W.fss[f].entries[j].path) => i = j
Scans == /\ Len(Nodes(W, W.fss[1].entries[2], <<<<"Os", "/d">>>>, "os")) = 1
         /\ LET n == Nodes(W, W.fss[1].entries[3], <<<<"Os", "/q">>>>, "os")[1]
            IN n.sub[1].loc = <<<<"Os", "/q">>, <<"Qcow", "/qcow2">>, <<"Ntfs", "\\">>>>
         /\ LET n == Nodes(W, W.fss[1].entries[2], <<<<"Os", "/d">>>>, "os")[1]
            IN n.sub[1].sub[1].loc = <<<<"Os", "/d">>, <<"Gpt", "/gpt1">>, <<"Ext", "/">>>> /\ n.sub[2].sub = <<>>
=============================================================================
