------------------------------ MODULE MC_Layout ------------------------------
(* Properties of layouts: the members tile the structure, a member's entries depend on its
   own bytes only, both byte orders agree up to reversal, the bits of a divided integer are
   its bits, a group that is not there shows nothing and still takes up its space. *)
EXTENDS Layout, TLC
CONSTANT MaxMembers
NoMod == [op |-> "", bits |-> <<>>]
M(k, name, type, n, order, fields, cond) ==
  [k |-> k, name |-> name, type |-> type, n |-> n, order |-> order, fmt |-> "", mod |-> NoMod, fields |-> fields,
   cond |-> cond, size |-> 0]
Always == [op |-> ">=", n |-> 0]
F(name, type, n, order) == M("field", name, type, n, order, <<>>, Always)
Pool == {F("a", "u8", 1, ""), F("b", "u16", 1, "be"), F("c", "u16", 2, ""), F("d", "i32", 1, "le"), F("e", "u8", 3, ""),
         F("f", "FatDate", 1, ""), M("str", "g", "ucs2", 2, "", <<>>, Always),
         M("bits", "h", "u16", 1, "", <<F("h1", "u16", 3, ""), F("h2", "u16", 13, "")>>, Always),
         M("group", "i", "", 1, "", <<F("i1", "u16", 1, ""), F("i2", "u8", 2, "")>>, [op |-> ">", n |-> 4]),
         M("group", "j", "", 1, "", <<F("j1", "u8", 1, "")>>, [op |-> "<", n |-> 4])}
VARIABLES members, order, data
Init == members = <<>> /\ order \in {"be", "le"} /\ data = <<>>
Next == \/ /\ Len(members) < MaxMembers /\ data = <<>> /\ UNCHANGED <<order, data>>
           /\ \E m \in Pool : members' = Append(members, m)
        \/ /\ members # <<>> /\ data = <<>> /\ UNCHANGED <<members, order>>
           /\ \E s \in 0..2 : data' = [i \in 1..TotalSize([order |-> order, members |-> members]) |-> (i * 37 + s * 101) % 256]
Spec == Init /\ [][Next]_<<members, order, data>>
L == [order |-> order, members |-> members]
Tiles == /\ \A i \in DOMAIN members : Offset(members, i) + Size(members[i]) =
                (IF i = Len(members) THEN TotalSize(L) ELSE Offset(members, i + 1))
Flip(d) == [i \in DOMAIN d |-> 255 - d[i]]
\* changing the bytes of one member changes no entry of another
Local == data # <<>> => \A i \in DOMAIN members :
   LET o == Offset(members, i)
       d2 == [k \in DOMAIN data |-> IF k > o /\ k <= o + Size(members[i]) THEN 255 - data[k] ELSE data[k]]
   IN \A j \in DOMAIN members \ {i} : MemberEntries(L, members[j], data, Offset(members, j)) =
                                      MemberEntries(L, members[j], d2, Offset(members, j))
Divided == data # <<>> => \A i \in DOMAIN members :
   LET m == members[i] o == Offset(members, i) e == MemberEntries(L, m, data, o)
   IN /\ m.k = "bits" => SubSeq(e[1].vals[1], 1, 3) \o SubSeq(e[2].vals[1], 1, 13) = BitsAt(data, o, 2, OrderOf(L, m))
      /\ m.k = "group" => (e = <<>> <=> ~Holds(m.cond, Len(data)))
Orders == \A w \in {1, 2, 4} : Len(data) >= w =>
             BitsAt(data, 0, w, "be") = BitsAt(Reverse(SubSeq(data, 1, w)), 0, w, "le")
=============================================================================
