------------------------------- MODULE Paths -------------------------------
(* Paths: the names one has to follow from the root to get to a file.

   A path is the sequence of its components.  The first component of a path from the root is
   empty, so that the root itself is << << >> >>; the path that says nothing is << >>.  A name
   is a sequence of characters (code points), without the separator and not empty.

   Kinds of paths: "ext", "fat", "ntfs" (the paths of the file systems), "string" (of images and
   volumes) and "os" (of the operating system).  The names of an ext path are bytes, those of FAT
   and NTFS 16-bit units; here both are the characters that they stand for. *)
EXTENDS Integers, Sequences, SequencesExt

Dot == 46
SeparatorOf(kind) == IF kind = "ntfs" THEN 92 ELSE 47

Root == << << >> >>
IsName(kind, n) == Len(n) > 0 /\ \A i \in 1..Len(n) : n[i] # SeparatorOf(kind)
IsPath(kind, p) == Len(p) > 0 /\ p[1] = << >> /\ \A i \in 2..Len(p) : IsName(kind, p[i])

(* In text a backslash in a name of ext or FAT is doubled, as a single one introduces what is not a
   character.  Told is the name that is shown so. *)
Backslash == 92
Escapes(kind) == kind \in {"ext", "fat"}
Shown(kind, n) ==
  IF Escapes(kind) THEN FoldLeft(LAMBDA a, x : a \o (IF x = Backslash THEN <<x, x>> ELSE <<x>>), << >>, n) ELSE n
Told(kind, n) ==
  IF Escapes(kind)
  THEN FoldLeft(LAMBDA a, x : IF x = Backslash /\ a[2] THEN <<a[1], FALSE>> ELSE <<Append(a[1], x), x = Backslash>>,
                << << >>, FALSE >>, n)[1]
  ELSE n
AllShown(kind, p) == [i \in 1..Len(p) |-> Shown(kind, p[i])]
AllTold(kind, p) == [i \in 1..Len(p) |-> Told(kind, p[i])]

(* The text of a path and back. *)
Text(kind, p) ==
  LET sep == SeparatorOf(kind)
  IN IF p = Root THEN <<sep>>
     ELSE IF p = << >> THEN << >>
     ELSE FoldLeft(LAMBDA t, n : t \o <<sep>> \o Shown(kind, n), p[1], SubSeq(p, 2, Len(p)))

Parse(kind, t) ==
  LET sep == SeparatorOf(kind)
      (* <<parts, part>> after some characters *)
      r == FoldLeft(LAMBDA a, x : IF x = sep THEN <<Append(a[1], a[2]), << >> >>
                                  ELSE <<a[1], Append(a[2], x)>>, << << >>, << >> >>, t)
  IN IF t = << >> THEN << >>
     ELSE IF t = <<sep>> THEN Root
     ELSE Append(r[1], r[2])

(* From a path to another. *)
Joined(p, names) == p \o names
Parent(p) == IF Len(p) > 1 THEN SubSeq(p, 1, Len(p) - 1) ELSE p

(* Parts of a path; <<x>> when there is one, << >> when there is none. *)
FileName(p) == IF Len(p) > 1 THEN <<p[Len(p)]>> ELSE << >>

(* A name that starts with its only dot is hidden; it has no extension. *)
DotsOf(n) == {i \in 2..Len(n) : n[i] = Dot}
LastDot(n) == CHOOSE i \in DotsOf(n) : \A j \in DotsOf(n) : j <= i
ExtensionOf(n) == IF DotsOf(n) = {} THEN << >> ELSE <<SubSeq(n, LastDot(n) + 1, Len(n))>>
StemOf(n) == IF DotsOf(n) = {} THEN n ELSE SubSeq(n, 1, LastDot(n) - 1)

Extension(p) == IF Len(p) > 1 THEN ExtensionOf(p[Len(p)]) ELSE << >>
Stem(p) == IF Len(p) > 1 THEN <<StemOf(p[Len(p)])>> ELSE << >>

(* The forms in which a name can be given to the virtual file system: "text", "bytes" and
   "units".  Every kind of path takes text and the form of its own names, and may refuse others. *)
MustTake(kind, form) == \/ form = "text"
                        \/ (kind = "ext" /\ form = "bytes")
                        \/ (kind = "ntfs" /\ form = "units")
                        \/ kind = "fat"

ShownPart(kind, part) == [i \in 1..Len(part) |-> Shown(kind, part[i])]
View(kind, p) == [comps |-> AllShown(kind, p), text |-> Text(kind, p), name |-> ShownPart(kind, FileName(p)),
                  stem |-> ShownPart(kind, Stem(p)), ext |-> ShownPart(kind, Extension(p)), empty |-> p = << >>]
=============================================================================
