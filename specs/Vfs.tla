-------------------------------- MODULE Vfs --------------------------------
(* The virtual file system: locations are layers, the first in the file system of the
   operating system, each other one in what the file of the layer before it is seen as.
   A world is a sequence of file systems; number 1 is that of the operating system.
   A file system is [type, entries]; an entry has a path (names, the first is the empty name of
   the root), a kind, its contents (a size and a checksum), other streams, times, a link's target
   and `views`: the file systems its contents can be opened as, by type.
   A location is a sequence of <<type, path>>.

   Opening is kept: while a file system is in use, opening it again gives what is in use.  What
   is found must not depend on that: on which locations were opened before, in what order, as
   which types, and which of them are still in use. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions
None == [k |-> "none"]
Err == [k |-> "err"]
Ok == [k |-> "ok"]

Front1(s) == SubSeq(s, 1, Len(s) - 1)
Top(loc) == loc[Len(loc)]
Entries(w, f) == w.fss[f].entries
\* the place of an entry in its file system, or 0
Find(w, f, path) ==
  LET at == {i \in DOMAIN Entries(w, f) : Entries(w, f)[i].path = path} IN IF at = {} THEN 0 ELSE CHOOSE i \in at: TRUE
View(e, t) == IF t \in DOMAIN e.views THEN e.views[t] ELSE 0
\* the file system of a location, or 0; layer by layer
FsOf(w, loc) ==
  IF loc[1][1] # "Os" THEN 0
  ELSE FoldLeft(LAMBDA f, k: IF f = 0 THEN 0
                             ELSE LET i == Find(w, f, loc[k - 1][2])
                                  IN IF i = 0 THEN 0 ELSE View(Entries(w, f)[i], loc[k][1]),
                1, [k \in 1..(Len(loc) - 1) |-> k + 1])
EntryOf(w, loc) ==
  LET f == FsOf(w, loc) IN IF f = 0 THEN 0 ELSE Find(w, f, Top(loc)[2])

\* ---- what is seen of an entry
Volumes == {"Apm", "Gpt", "Mbr"}
FileSystems == {"Ext", "Fat", "Ntfs"}
Images == {"Ewf", "Qcow", "SparseImage", "Udif", "Vhd", "Vhdx"}
Kids(w, f, path) == {i \in DOMAIN Entries(w, f) : LET p == Entries(w, f)[i].path IN Len(p) = Len(path) + 1 /\ SubSeq(p, 1, Len(path)) = path}
KidNames(w, f, path) == {Entries(w, f)[i].name : i \in Kids(w, f, path)}
Stream(w, f, i, name) ==
  LET e == Entries(w, f)[i]
  IN IF name = "" THEN IF e.has THEN [k |-> "ok", size |-> e.size, crc |-> e.crc] ELSE None
     ELSE LET s == {j \in DOMAIN e.streams : e.streams[j][1] = name}
          IN IF s = {} THEN None ELSE LET j == CHOOSE j \in s: TRUE IN [k |-> "ok", size |-> e.streams[j][2], crc |-> e.streams[j][3]]
Streams(w, f, i) ==
  LET e == Entries(w, f)[i] IN {e.streams[j] : j \in DOMAIN e.streams} \cup (IF e.has THEN {<<"", e.size, e.crc>>} ELSE {})
\* the components of the target of a link
Shown(w, f, i) ==
  LET e == Entries(w, f)[i]
  IN [k |-> "ok", name |-> e.name, kind |-> e.kind, times |-> e.times, target |-> e.target]

\* ---- scanning
Format(e, at) ==
  LET s == e.scan
      rest == IF at = "part" THEN s.fs ELSE IF s.vol # "" THEN s.vol ELSE s.fs
  IN IF at = "os" /\ s.img # "" THEN s.img ELSE rest
Root(t) == IF t = "Ntfs" THEN "\\" ELSE "/"
LocText(loc, t, p) == Append(loc, <<t, p>>)
Slash(path) == "/" \o path[2]
RECURSIVE Nodes(_, _, _, _)
\* the nodes below an entry (at a location of texts): none, or one, with those below it
Nodes(w, e, text, at) ==
  LET t == Format(e, at)
      f == View(e, t)
  IN IF t = "" THEN <<>>
     ELSE LET es == Entries(w, f)
              parts == SelectSeq([i \in DOMAIN es |-> i], LAMBDA i: Len(es[i].path) = 2)
              below == IF t \in FileSystems THEN <<>>
                       ELSE IF t \in Volumes
                       THEN [j \in DOMAIN parts |-> LET x == es[parts[j]]
                                                        here == Append(text, <<t, Slash(x.path)>>)
                                                    IN [loc |-> here, sub |-> Nodes(w, x, here, "part"), fs |-> FALSE]]
                       ELSE LET x == es[parts[Len(parts)]] IN Nodes(w, x, Append(text, <<t, Slash(x.path)>>), "image")
          IN <<[loc |-> Append(text, <<t, Root(t)>>), sub |-> below, fs |-> t \in FileSystems]>>

\* ---- paths: names joined by a separator; a path of only the root is the separator
Sep(t) == IF t = "Ntfs" THEN "\\" ELSE "/"
Joined(t, p) == IF p = <<"">> THEN Sep(t) ELSE FoldLeft(LAMBDA acc, k: IF k = 1 THEN p[1] ELSE acc \o Sep(t) \o p[k], "", [k \in DOMAIN p |-> k])
\* of the operating system: below the directory the world is in
PathText(p) == IF Len(p) = 1 THEN "" ELSE "/" \o p[2]
Known == [Apm |-> "APM", Ext |-> "EXT", Ewf |-> "EWF", Fat |-> "FAT", Gpt |-> "GPT", Mbr |-> "MBR", Ntfs |-> "NTFS", Os |-> "OS", Qcow |-> "QCOW",
          SparseImage |-> "SPARSEIMAGE", Udif |-> "UDIF", Vhd |-> "VHD", Vhdx |-> "VHDX"]
Parent(p) == IF Len(p) > 1 THEN Front1(p) ELSE p

\* ---- the history of one resolver: which file systems are in use
\* st: slots |-> [slot -> file system or 0], streams |-> [slot -> what a stream gives]
VfsInit == [slots |-> [k \in 0..3 |-> 0], streams |-> [k \in 0..3 |-> None]]
Same(st, o) == [st |-> st, out |-> o]
Inside(w, f, e) ==
  IF f = 0 THEN None ELSE
  LET i == Find(w, f, e.path)
  IN CASE e.op = "in" -> (IF i = 0 THEN None ELSE Shown(w, f, i))
       [] e.op = "exists" -> [k |-> "ok", yes |-> i # 0]
       [] e.op = "names" -> (IF i = 0 THEN None ELSE [k |-> "ok", names |-> KidNames(w, f, e.path)])
       [] OTHER -> None
VfsStep(w, st, e) ==
  CASE e.op = "open" ->
         LET f == FsOf(w, e.loc)
         IN IF f = 0 THEN Same(st, Err) ELSE [st |-> [st EXCEPT !.slots[e.slot] = f], out |-> Ok]
    [] e.op = "drop" -> [st |-> [st EXCEPT !.slots[e.slot] = 0], out |-> Ok]
    [] e.op \in {"in", "exists", "names"} -> Same(st, Inside(w, st.slots[e.slot], e))
    [] e.op = "entry" ->
         LET f == FsOf(w, e.loc)
             i == EntryOf(w, e.loc)
         IN Same(st, IF f = 0 THEN Err ELSE IF i = 0 THEN None ELSE Shown(w, f, i))
    [] e.op = "stream" ->
         LET f == FsOf(w, e.loc)
             i == EntryOf(w, e.loc)
             s == IF f = 0 THEN Err ELSE IF i = 0 THEN None ELSE Stream(w, f, i, e.name)
         IN [st |-> IF s.k = "ok" THEN [st EXCEPT !.streams[e.slot] = s] ELSE st, out |-> s]
    [] e.op = "again" -> Same(st, st.streams[e.slot])
    [] e.op = "walk" -> Same(st, [k |-> "walk", f |-> st.slots[e.slot]])
    [] e.op = "scan" ->
         LET f == FsOf(w, e.loc)
             i == EntryOf(w, e.loc)
         IN Same(st, IF i = 0 \/ ~Entries(w, f)[i].has THEN Err
                     ELSE [k |-> "ok", nodes |-> Nodes(w, Entries(w, f)[i], e.text, "os")])
    [] e.op = "text" -> Same(st, [k |-> "ok", lines |-> [j \in DOMAIN e.loc |-> "type: " \o Known[e.loc[j][1]] \o ": path: " \o (IF e.loc[j][1] = "Os" THEN PathText(e.loc[j][2]) ELSE Joined(e.loc[j][1], e.loc[j][2]))]])
    [] e.op = "path" ->
         LET q == e.path \o e.join
         IN Same(st, [k |-> "ok", text |-> Joined(e.type, e.path), same |-> TRUE, joined |-> Joined(e.type, q), name |-> IF Len(q) > 1 THEN q[Len(q)] ELSE "-",
                      parent |-> Joined(e.type, Parent(q))])
    [] OTHER -> Same(st, None)

Pairs(a, b) == {<<a[i], b[i]>> : i \in DOMAIN a}
\* a walk: every entry once, after all that is below it, with what is in it
WalkAgrees(w, f, o) ==
  IF f = 0 THEN o.k = "none" ELSE
  LET es == Entries(w, f)
      mine == {i \in DOMAIN es : es[i].kind # "own"}
      got == o.found
      own == {j \in DOMAIN got : Len(got[j].path) >= 2 /\ got[j].path[2] \in {es[i].name : i \in {i \in DOMAIN es : es[i].kind = "own"}} \cup {"."}}
      rest == IF w.fss[f].type = "Ntfs" THEN DOMAIN got \ own ELSE DOMAIN got
  IN /\ o.k = "ok"
     /\ Cardinality(rest) = Cardinality(mine)
     /\ \A i \in mine: \E j \in rest: /\ got[j].path = es[i].path /\ got[j].kind = es[i].kind
                                      /\ {got[j].streams[x] : x \in DOMAIN got[j].streams} = Streams(w, f, i)
                                      /\ \A x \in rest: x > j => ~IsStrictPrefix(es[i].path, got[x].path)
ShownAgrees(x, o) ==
  /\ o.k = "ok" /\ o.kind = x.kind /\ o.name = x.name /\ o.target = x.target
  /\ o.times = x.times
\* of the operating system: not the name of the top directory, nor when a file was read, changed or made
OsAgrees(x, o) ==
  /\ o.k = "ok" /\ o.kind = x.kind
  /\ x.kind = "dir" \/ (o.name = x.name /\ o.times[1] = x.times[1])
VfsAgrees(w, x, e) ==
  LET o == e.out
  IN CASE x.k = "err" -> o.k = "err"
       [] x.k = "none" -> o.k = "none"
       [] x.k = "walk" -> WalkAgrees(w, x.f, o)
       [] e.op \in {"entry", "in"} -> (IF x.kind = "own" THEN o.k = "ok" /\ o.name = x.name ELSE IF e.os THEN OsAgrees(x, o) ELSE ShownAgrees(x, o))
       [] e.op = "names" ->
            \* the root of an NTFS volume lists itself
            LET got == SelectSeq(o.names, LAMBDA n: n # ".")
            IN o.k = "ok" /\ {got[i] : i \in DOMAIN got} = x.names /\ Len(got) = Cardinality(x.names)
       [] OTHER -> o = x
=============================================================================
