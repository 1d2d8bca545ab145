------------------------------ MODULE MC_Info ------------------------------
(* A reader of the report: of a source that is put together one partition at a time, the
   report tells everything that was stored, and nothing else; numbers as text are read
   back as the same numbers. *)
EXTENDS Info
CONSTANTS Limit, Most
VARIABLES n, src
vars == <<n, src>>
Val(ch) == CHOOSE i \in 0..15 : Digit[i] = ch
At(s, i) == SubSeq(s, i, i)
RECURSIVE Parse(_, _, _)
Parse(s, base, i) == IF i = 0 THEN 0 ELSE Parse(s, base, i - 1) * base + Val(At(s, i))
Num(s) == Parse(s, 10, Len(s))
\* sizes at which the text changes
Edges == {0, 1, 511, 512, 1023, 1024, 1025, 1075, 1076, 1280, 1535, 1536, 10188, 10189, 10240, 1047961, 1047962, 1048575, 1048576, 1048577, 1100000, 1625292, 2097152, 1073741823, 1073741824, 2000000000}
Offs == {BInt(0), BInt(512), <<0, 255, 16777215>>, <<0, 256, 0>>, <<1, 2, 3>>}
Init == n = 0 /\ src = [kind |-> "apm", bps |-> BInt(512), parts |-> <<>>]
Put(p) == src' = [src EXCEPT !.parts = Append(@, p)] /\ UNCHANGED n
Next == \/ src.parts = <<>> /\ n < Limit /\ n' = n + 1 /\ UNCHANGED src
        \/ n = 0 /\ Len(src.parts) < Most /\ \E o \in Offs, f \in {BInt(0), BInt(51), BInt(1907), <<0, 64, 3>>, <<0, 128, 0>>}, nm \in {"", "disk"} :
             Put([type |-> "Apple_HFS", name |-> nm, offset |-> o, size |-> BInt(1536), flags |-> f])
Spec == Init /\ [][Next]_vars

Numbers ==
  \A x \in {n} \cup (IF n = 0 /\ src.parts = <<>> THEN Edges ELSE {}) : LET b == BInt(x) IN
    /\ Dec(b) = ToString(x) /\ Num(Dec(b)) = x
    /\ Parse(HexOf(b), 16, Len(HexOf(b))) = x
    /\ (x < 65536 => Parse(OctOf(x), 8, Len(OctOf(x))) = x)
\* the shortened size is one of the two tenths of a unit around the size, and the nearer
Near ==
  \A x \in {n} \cup (IF n = 0 /\ src.parts = <<>> THEN Edges ELSE {}) :
    x >= 1024 =>
      LET unit == IF x >= 1073741824 THEN 1073741824 ELSE IF x >= 1048576 THEN 1048576 ELSE 1024
          name == IF unit = 1024 THEN "KiB" ELSE IF unit = 1048576 THEN "MiB" ELSE "GiB"
          whole == x \div unit  rest == x % unit
          tenth == IF unit = 1073741824 THEN rest \div (unit \div 10) ELSE (rest * 10) \div unit
          over == IF unit = 1073741824 THEN 0 ELSE (rest * 10) % unit
          t == whole * 10 + tenth
          T(k) == ToString(k \div 10) \o "." \o ToString(k % 10) \o " " \o name
      IN /\ Cardinality(Human(BInt(x))) \in {1, 2}
         /\ Human(BInt(x)) \subseteq {T(t), T(t + 1)}
         /\ unit # 1073741824 =>
              /\ (2 * over < unit - unit \div 40000 - 1 => Human(BInt(x)) = {T(t)})
              /\ (2 * over > unit => Human(BInt(x)) = {T(t + 1)})
\* what a reader of the report learns
Lines == Image(src)
Of(k) == LET from == SelectInSeq(Lines, LAMBDA l : l[1] = "Partition" /\ l[2] = {ToString(k)})
             rest == SubSeq(Lines, from + 1, Len(Lines))
             to == SelectInSeq(rest, LAMBDA l : l[1] = "Partition")
         IN IF to = 0 THEN rest ELSE SubSeq(rest, 1, to - 1)
Field(ls, name) == LET i == SelectInSeq(ls, LAMBDA l : l[1] = name) IN IF i = 0 THEN {""} ELSE ls[i][2]
Faithful ==
  /\ Field(Lines, "Number of partitions") = {ToString(Len(src.parts))}
  /\ \A k \in 1..Len(src.parts) :
       LET p == src.parts[k] ls == Of(k) IN
       /\ Field(ls, "Name") = {p.name} /\ Field(ls, "Type identifier") = {p.type}
       /\ Field(ls, "Offset") = {Dec(p.offset) \o " (" \o Hex(p.offset, 8) \o ")"}
       \* the flags named add up to the flags stored (those that have a name)
       /\ {l \in {ls[i][1] : i \in 1..Len(ls)} : SubSeq(l, 1, 2) = "0x"} = {Hex(IF i < 24 THEN <<0, 0, 2 ^ i>> ELSE <<0, 2 ^ (i - 24), 0>>, 8) : i \in {j \in ToSet(ApmBits) : BitOf(p.flags, j)}}
\* different sources, different reports
Tells == \A o \in Offs, q \in Offs : o # q => Offset(o) # Offset(q)
\* every mode has its own text
Modes == \A a \in {n % 65536} : \A b \in {(n + 1) % 65536, (n + 512) % 65536} : a # b => ModeText(a) # ModeText(b)
=============================================================================
