-------------------------------- MODULE Info --------------------------------
(* What keramicsinfo is to report about an image, a volume system, a file system or a
   file: a sequence of labels and what may stand after each of them.  A source is a record
   of what was stored in it; numbers are Big triples, times are calendar strings. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Big

\* ---- numbers as text
Digit == [i \in 0..15 |-> SubSeq(<<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>, i + 1, i + 1)[1]]
\* quotient and remainder of a triple by a small number (the remainder times 2^24 is to fit)
Div(x, k) ==
  LET a == x[1] \div k   ra == x[1] % k
      b == (ra * BM + x[2]) \div k   rb == (ra * BM + x[2]) % k
      c == (rb * BM + x[3]) \div k   rc == (rb * BM + x[3]) % k
  IN [q |-> <<a, b, c>>, r |-> rc]
RECURSIVE Dec(_)
Dec(x) == LET d == Div(x, 10) IN IF d.q = B0 THEN Digit[d.r] ELSE Dec(d.q) \o Digit[d.r]
RECURSIVE HexOf(_)
HexOf(x) == LET d == Div(x, 16) IN IF d.q = B0 THEN Digit[d.r] ELSE HexOf(d.q) \o Digit[d.r]
RECURSIVE OctOf(_)
OctOf(n) == IF n < 8 THEN Digit[n] ELSE OctOf(n \div 8) \o Digit[n % 8]
\* hexadecimal with at least n digits
Pad(s, n) == LET k == n - Len(s) IN IF k <= 0 THEN s ELSE FoldLeft(LAMBDA a, x : "0" \o a, s, [i \in 1..k |-> 0])
Hex(x, n) == "0x" \o Pad(HexOf(x), n)
\* a size in binary units with one decimal: what is nearest, of two as near either
Shift(x) == <<x[1] \div 1024, (x[1] % 1024) * 16384 + x[2] \div 1024, (x[2] % 1024) * 16384 + x[3] \div 1024>>
Low(x) == x[3] % 1024
Unit == <<"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB">>
RECURSIVE Scale(_, _, _, _)
Scale(x, k, rem, rem2) == IF BLess(x, BInt(1024)) THEN <<BSmall(x), k, rem, rem2>> ELSE Scale(Shift(x), k + 1, Low(x), rem)
Tenths(t, unit) == ToString(t \div 10) \o "." \o Digit[t % 10] \o " " \o unit
Human(x) ==
  LET s == Scale(x, 1, 0, 0)
      part == (s[3] * 1024 + s[4]) * 10
      t == s[1] * 10 + part \div 1048576
      f == part % 1048576
  IN IF s[2] = 1 THEN {Dec(x) \o " B"}
     ELSE (IF f <= 524288 THEN {Tenths(t, Unit[s[2]])} ELSE {}) \cup (IF f > 524288 - 10 THEN {Tenths(t + 1, Unit[s[2]])} ELSE {})
Size(x) == IF BLess(x, BInt(1024)) THEN {Dec(x), Dec(x) \o " bytes"} ELSE {h \o " (" \o Dec(x) \o " bytes)" : h \in Human(x)}
Offset(x) == {Dec(x) \o " (" \o Hex(x, 8) \o ")"}
Plain(x) == {Dec(x)}
Bytes(x) == {Dec(x) \o " bytes", Dec(x)}

\* ---- flags: the ones that are set, by value; bits: <<mask, digits>> in order
BitOf(x, i) == LET c == IF i < 24 THEN x[3] ELSE x[2] n == IF i < 24 THEN i ELSE i - 24 IN (c \div 2 ^ n) % 2 = 1
\* the bit numbers of `known` that are set in x, as lines
Flags(x, known, digits) ==
  LET set == SelectSeq(known, LAMBDA i : BitOf(x, i))
  IN [i \in 1..Len(set) |-> <<Hex(IF set[i] < 24 THEN <<0, 0, 2 ^ set[i]>> ELSE <<0, 2 ^ (set[i] - 24), 0>>, digits), {""}>>]

\* ---- images and volume systems
Opt(name, v) == IF v = "" THEN <<>> ELSE << <<name, {v}>> >>
MbrTypes == [x \in {1, 4, 5, 6, 7, 11, 12, 14, 15, 130, 131, 133, 142, 165, 175, 238, 239, 253} |->
  (CASE x = 1 -> "FAT12 (CHS)" [] x = 4 -> "FAT16 < 32 MiB (CHS)" [] x = 5 -> "Extended (CHS)" [] x = 6 -> "FAT16 (CHS)" [] x = 7 -> "HPFS/NTFS"
     [] x = 11 -> "FAT32 (CHS)" [] x = 12 -> "FAT32 (LBA)" [] x = 14 -> "FAT16 (LBA)" [] x = 15 -> "Extended (LBA)" [] x = 130 -> "Linux swap / Solaris"
     [] x = 131 -> "Linux" [] x = 133 -> "Linux extended" [] x = 142 -> "Linux LVM" [] x = 165 -> "FreeBSD" [] x = 175 -> "MacOS-X"
     [] x = 238 -> "EFI GPT protective" [] x = 239 -> "EFI System (FAT)" [] OTHER -> "Linux raid autodetect")]
MbrType(t) == LET h == Hex(BInt(t), 2) IN IF t \in DOMAIN MbrTypes THEN {h \o " (" \o MbrTypes[t] \o ")"} ELSE {h}
Concat(seqs) == FoldLeft(LAMBDA a, s : a \o s, <<>>, seqs)
Parts(s, Of(_)) == Concat([i \in 1..Len(s.parts) |-> << <<"Partition", {ToString(i)}>> >> \o Of(s.parts[i])])
ApmBits == <<0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 30, 31>>
Title(title) == << <<title, {""}>> >>
EwfValues == <<"Case number", "Description", "Examiner name", "Evidence number", "Notes", "Acquisition date", "System date", "Operating system used", "Software version used",
  "Compression level", "Model", "Serial number", "Device label", "Process identifier">>

Image(s) ==
  CASE s.kind = "mbr" ->
         Title("Master Boot Record (MBR) information") \o << <<"Disk identity", {Hex(s.disk, 1)}>>, <<"Bytes per sector", Bytes(s.bps)>>, <<"Number of partitions", {ToString(Len(s.parts))}>> >>
         \o Parts(s, LAMBDA p : << <<"Type", MbrType(p.type)>>, <<"Offset", Offset(p.offset)>>, <<"Size", Size(p.size)>>, <<"Flags", {Hex(BInt(p.flags), 2)}>> >>)
    [] s.kind = "gpt" ->
         Title("GUID Partition Table (GPT) information") \o << <<"Disk identifier", {s.disk}>>, <<"Bytes per sector", Bytes(s.bps)>>, <<"Number of partitions", {ToString(Len(s.parts))}>> >>
         \o Parts(s, LAMBDA p : << <<"Identifier", {p.id}>>, <<"Type identifier", {p.type}>>, <<"Offset", Offset(p.offset)>>, <<"Size", Size(p.size)>> >>)
    [] s.kind = "apm" ->
         Title("Apple Partition Map (APM) information") \o << <<"Bytes per sector", Bytes(s.bps)>>, <<"Number of partitions", {ToString(Len(s.parts))}>> >>
         \o Parts(s, LAMBDA p : << <<"Type identifier", {p.type}>> >> \o Opt("Name", p.name) \o << <<"Offset", Offset(p.offset)>>, <<"Size", Size(p.size)>>,
                                   <<"Status flags", {Hex(p.flags, 8)}>> >> \o Flags(p.flags, ApmBits, 8))
    [] s.kind = "qcow" ->
         Title("QEMU Copy-On-Write (QCOW) information") \o << <<"Format version", {ToString(s.version)}>>, <<"Media size", Size(s.size)>>, <<"Compression method", {"zlib"}>>,
           <<"Encryption method", {<<"None", "AES-CBC 128-bit", "Linux Unified Key Setup (LUKS)">>[s.encryption + 1]}>> >> \o Opt("Backing file name", s.backing)
    [] s.kind = "sparse" ->
         Title("Sparse image (.sparseimage) information") \o << <<"Media size", Size(s.size)>>, <<"Bytes per sector", Bytes(s.bps)>>, <<"Band size", Size(s.band)>> >>
    [] s.kind = "udif" ->
         Title("Universal Disk Image Format (UDIF) information") \o << <<"Media size", Size(s.size)>>, <<"Bytes per sector", Bytes(s.bps)>>,
           <<"Compression method", {CASE s.method = "raw" -> "Uncompressed" [] s.method = "zlib" -> "zlib" [] OTHER -> "bzip2"}>> >>
    [] s.kind \in {"vhd", "vhdx"} ->
         Title(IF s.kind = "vhd" THEN "Virtual Hard Disk (VHD) information" ELSE "Virtual Hard Disk (VHDX) information")
         \o << <<"Format version", {IF s.kind = "vhd" THEN "1.0" ELSE "2.1"}>>, <<"Disk type", {CASE s.type = "diff" -> "Differential" [] s.type = "dynamic" -> "Dynamic" [] OTHER -> "Fixed"}>>,
               <<"Media size", Size(s.size)>>, <<"Bytes per sector", Bytes(s.bps)>>, <<"Identifier", {s.id}>> >> \o Opt("Parent identifier", s.parent) \o (IF s.names = <<>> THEN <<>> ELSE << <<"Parent name", ToSet(s.names)>> >>)
    [] s.kind = "ewf" ->
         Title("Expert Witness Compression Format (EWF) information") \o Opt("Set identifier", s.id)
         \o << <<"Sectors per chunk", Plain(s.spc)>>, <<"Error granularity", {Dec(s.granularity) \o " sectors"}>>, <<"Media information", {""}>>,
               <<"Media type", CASE s.media = 0 -> {"removable disk"} [] s.media = 1 -> {"fixed disk"} [] s.media = 3 -> {"optical disk (CD/DVD/BD)"}
                                 [] s.media = 14 -> {"logical evidence"} [] s.media = 16 -> {"memory", "memory (RAM)"} [] OTHER -> {"Unknown"}>>,
               <<"Bytes per sector", Bytes(s.bps)>>, <<"Number of sectors", Plain(s.sectors)>>, <<"Media size", Size(s.size)>> >>
         \o Opt("MD5", s.md5) \o Opt("SHA1", s.sha1) \o << <<"Case information", {""}>> >>
         \o Concat([i \in 1..Len(EwfValues) |-> IF EwfValues[i] \in DOMAIN s.values THEN Opt(EwfValues[i], s.values[EwfValues[i]]) ELSE <<>>])

\* ---- a file of a file system
Letters == <<"r", "w", "x", "r", "w", "x", "r", "w", "x">>
KindLetter(mode) == CASE mode \div 4096 = 1 -> "p" [] mode \div 4096 = 2 -> "c" [] mode \div 4096 = 4 -> "d" [] mode \div 4096 = 6 -> "b"
                      [] mode \div 4096 = 10 -> "l" [] mode \div 4096 = 12 -> "s" [] OTHER -> "-"
ModeText(mode) == FoldLeft(LAMBDA a, i : a \o (IF (mode \div 2 ^ (9 - i)) % 2 = 1 THEN Letters[i] ELSE "-"), KindLetter(mode), [i \in 1..9 |-> i])
           \o " (0o" \o OctOf(mode) \o ")"
FatBits == <<0, 1, 2, 4, 5, 6, 7>>
NtfsBits == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16>>
FsTitle(fs) == CASE fs = "Ext" -> "Extended File System (ext)" [] fs = "Fat" -> "File Allocation Table (FAT)" [] OTHER -> "New Technologies File System (NTFS)"
\* f.times: modification, access, change, creation
File(fs, f) ==
  Title(FsTitle(fs) \o " file entry information") \o
  (CASE fs = "Ext" ->
         << <<"Inode number", {f.id}>> >> \o Opt("Name", f.name) \o << <<"Size", Plain(f.size)>> >>
         \o Opt("Modification time", f.times[1]) \o Opt("Access time", f.times[2]) \o Opt("Inode change time", f.times[3]) \o Opt("Creation time", f.times[4])
         \o << <<"Deletion time", {"Not set (0)"}>>, <<"Owner identifier", {f.uid}>>, <<"Group identifier", {f.gid}>>, <<"File mode", {ModeText(f.mode)}>> >>
         \o (IF f.kind = "link" THEN << <<"Symbolic link target", {f.target}>> >> ELSE <<>>)
     [] fs = "Fat" ->
         Opt("Name", f.name) \o << <<"Size", Plain(f.size)>> >>
         \o Opt("Modification time", f.times[1]) \o Opt("Access time", f.times[2]) \o Opt("Creation time", f.times[4])
         \o << <<"File attribute flags", {Hex(BInt(f.flags), 2)}>> >> \o Flags(BInt(f.flags), FatBits, 4)
     [] OTHER ->
         Opt("Name", f.name) \o << <<"Size", Bytes(f.size)>> >>
         \o Opt("Creation time", f.times[4]) \o Opt("Modification time", f.times[1]) \o Opt("Access time", f.times[2]) \o Opt("Entry modification time", f.times[3])
         \o << <<"File attribute flags", {Hex(BInt(f.flags), 8)}>> >>)

\* ---- a file system
AnyBit(x, bits) == \E i \in bits : BitOf(x, i)
ExtVersion(v) ==
  IF AnyBit(v.compat, {9}) \/ AnyBit(v.incompat, {6, 7, 8, 9, 10, 12, 13, 14, 15, 16}) \/ AnyBit(v.rocompat, {3, 4, 5, 6, 8, 9}) THEN 4
  ELSE IF AnyBit(v.compat, {2}) \/ AnyBit(v.incompat, {2, 3}) THEN 3 ELSE 2
System(v) ==
  Title(FsTitle(v.fs) \o " information") \o
  (CASE v.fs = "Ext" ->
         << <<"Format version", {"ext" \o ToString(ExtVersion(v))}>>, <<"Volume label", {v.label}>>, <<"Compatible features", {Hex(v.compat, 8)}>> >> \o Flags(v.compat, <<0, 1, 2, 3, 4, 5, 9, 10, 11, 12>>, 8)
         \o << <<"Incompatible features", {Hex(v.incompat, 8)}>> >> \o Flags(v.incompat, <<0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17>>, 8)
         \o << <<"Read-only compatible features", {Hex(v.rocompat, 8)}>> >> \o Flags(v.rocompat, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>, 8)
         \o << <<"Number of inodes", Plain(v.inodes)>>, <<"Last mount path", {v.mounted}>>, <<"Last mount time", {v.times[1]}>>, <<"Last written time", {v.times[2]}>> >>
     [] v.fs = "Fat" -> << <<"Format version", {"FAT-" \o ToString(v.version)}>>, <<"Volume label", {v.label}>> >>
     [] OTHER ->
         << <<"Format version", {v.version}>>, <<"Volume label", {v.label}>>, <<"Volume serial number", {Hex(v.serial, 1)}>>, <<"Volume flags", {Hex(v.flags, 4)}>> >>
         \o Flags(v.flags, <<0, 1, 2, 3, 4, 5, 14, 15>>, 4)
         \o << <<"Bytes per sector", Bytes(v.sizes[1])>>, <<"Cluster block size", Bytes(v.sizes[2])>>, <<"MFT entry size", Bytes(v.sizes[3])>>, <<"Index entry size", Bytes(v.sizes[4])>> >>)

\* ---- what the tool is to say
Wanted(e) == CASE e.op = "image" -> Image(e.src) [] e.op = "system" -> System(e.src) [] OTHER -> File(e.fs, e.file)
\* labels that are spoken for: every one of an image; of a file the ones named
Spoken(e, want) ==
  IF e.op # "file" THEN {}
  ELSE {want[i][1] : i \in 1..Len(want)} \cup {"Name", "Modification time", "Access time", "Inode change time", "Entry modification time", "Creation time", "Symbolic link target", "Size"}
Reported(e, lines) ==
  LET want == Wanted(e)
      spoken == Spoken(e, want)
      seen == IF e.op # "file" THEN lines
              ELSE IF e.fs = "Ntfs" THEN LET n == SelectInSeq(lines, LAMBDA l : l[1] = "Attribute") IN SelectSeq(IF n = 0 THEN lines ELSE SubSeq(lines, 1, n - 1), LAMBDA l : l[1] \in spoken)
              ELSE SelectSeq(lines, LAMBDA l : l[1] \in spoken)
  IN Len(seen) = Len(want) /\ \A i \in 1..Len(want) : seen[i][1] = want[i][1] /\ seen[i][2] \in want[i][2]
\* a hierarchy names every file once, parents before what they hold
Listed(e, lines) ==
  /\ Len(lines) = Len(e.paths) + 1
  /\ lines[1] = FsTitle(e.fs) \o " hierarchy:"
  /\ LET seen == SubSeq(lines, 2, Len(lines))
     IN /\ {seen[i] : i \in 1..Len(seen)} = {e.paths[i][1] : i \in 1..Len(e.paths)}
        /\ \A i \in 1..Len(e.paths) :
             e.paths[i][2] # "" => SelectInSeq(seen, LAMBDA l : l = e.paths[i][2]) < SelectInSeq(seen, LAMBDA l : l = e.paths[i][1])
Allowed(e) ==
  CASE e.op = "missing" -> e.out.k = "failed"
    [] e.op = "hierarchy" -> e.out.k = "ok" /\ Listed(e, e.out.raw)
    [] OTHER -> e.out.k = "ok" /\ Reported(e, e.out.lines)
=============================================================================
