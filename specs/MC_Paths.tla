------------------------------ MODULE MC_Paths ------------------------------
(* Walks over paths: into files and directories and back out. *)
EXTENDS Paths, FiniteSets
CONSTANTS Letters, MaxName, MaxDepth, Kinds
VARIABLES kind, path, last
vars == <<kind, path, last>>

Names(k) == {n \in UNION {[1..i -> Letters] : i \in 1..MaxName} : IsName(k, n)}

Init == kind \in Kinds /\ path = Root /\ last = <<"start">>
Enter(n) == /\ Len(path) <= MaxDepth /\ path' = Joined(path, <<n>>) /\ last' = <<"enter", n, path>> /\ UNCHANGED kind
Leave == path' = Parent(path) /\ last' = <<"leave", path>> /\ UNCHANGED kind
Next == (\E n \in Names(kind) : Enter(n)) \/ Leave
Spec == Init /\ [][Next]_vars

OnlyPaths == IsPath(kind, path)
TextAndBack == AllTold(kind, Parse(kind, Text(kind, path))) = path
FromTheRoot == Text(kind, path)[1] = SeparatorOf(kind)
(* no separators but those between the names *)
Separators == LET t == Text(kind, path)
                  s == {i \in 1..Len(t) : t[i] = SeparatorOf(kind)}
              IN Cardinality(s) = (IF path = Root THEN 1 ELSE Len(path) - 1)
BackOut == last[1] = "enter" => /\ Parent(path) = last[3] /\ FileName(path) = <<last[2]>>
RootStays == path = Root <=> (FileName(path) = << >> /\ Parent(path) = path)
(* the parts of a name make up the name *)
PartsOfName ==
  Len(path) > 1 =>
    LET n == FileName(path)[1]
        s == Stem(path)[1]
        e == Extension(path)
    IN /\ Len(s) > 0
       /\ IF e = << >> THEN s = n /\ Len(SelectSeq(Tail(n), LAMBDA x : x = Dot)) = 0
          ELSE n = s \o <<Dot>> \o e[1] /\ Len(SelectSeq(e[1], LAMBDA x : x = Dot)) = 0
=============================================================================
