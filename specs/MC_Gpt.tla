------------------------------ MODULE MC_Gpt ------------------------------
(* A partitioning tool replaces both tables, writing entries and header of one and then of the
   other, in either order, and may stop anywhere; apart from that one of the four can be
   damaged.  What is shown is what the disk had before or after, and the last when the tool
   was not stopped. *)
EXTENDS Gpt, Json
CONSTANTS MaxVersion, U
VARIABLES v, done, todo, harm, n
\* v: versions of header and entries of the tables, "p" and "b"; done: last complete version
vars == <<v, done, todo, harm, n>>
Pieces == {"pa", "ph", "ba", "bh"}
Init == v = [x \in Pieces |-> 1] /\ done = 1 /\ todo = <<>> /\ harm = {} /\ n = 0
Begin ==
  /\ todo = <<>> /\ done < MaxVersion /\ harm = {} /\ UNCHANGED <<v, done, harm>>
  /\ \E o \in {<<"ba", "bh", "pa", "ph">>, <<"pa", "ph", "ba", "bh">>, <<"bh", "ba", "ph", "pa">>}: todo' = o
WritePiece == /\ todo # <<>> /\ v' = [v EXCEPT ![Head(todo)] = done + 1] /\ todo' = Tail(todo)
         /\ UNCHANGED harm /\ done' = IF Len(todo) = 1 THEN done + 1 ELSE done
Damage(x) == harm = {} /\ todo = <<>> /\ harm' = {x} /\ UNCHANGED <<v, done, todo>>
Next == n < 12 /\ n' = n + 1 /\ (Begin \/ WritePiece \/ \E x \in Pieces: Damage(x))
Spec == Init /\ [][Next]_vars
\* version k has k partitions
Entries(k) == [i \in 1..k |-> [i |-> (2 * i) - 1, type |-> ToString(i), id |-> ToString((10 * k) + i), start |-> (10 * i) + 30, end |-> (10 * i) + 30 + k]]
Blocks == 200
Table(h, a, at, other) ==
  [at |-> at * U, ok |-> h \notin harm, arr |-> v[h] = v[a] /\ a \notin harm, other |-> other, id |-> ToString(v[h]), entries |-> Entries(v[h])]
Image == [given |-> 0, sectors |-> Blocks * U, loose |-> FALSE, any |-> FALSE, runs |-> <<>>, tables |-> <<Table("ph", "pa", 1, Blocks - 1), Table("bh", "ba", Blocks - 1, 1)>>]
ShownVersion == LET c == Chosen(Image) IN IF c.t = 0 THEN 0 ELSE Len(Image.tables[c.t].entries)
Survives == IF todo = <<>> THEN ShownVersion = done ELSE ShownVersion \in {done, done + 1}
RightSize == Chosen(Image).u = U
Show == PrintT("IMAGE " \o ToJson(Image))
===========================================================================
