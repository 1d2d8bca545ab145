------------------------------ MODULE MC_Ntfs ------------------------------
(* Writers of small streams and directories, which keep what they mean to store (truth: a function
   of clusters, or the names there are) next to the structures; what Ntfs derives from these is the
   truth: runs are encoded as differences and spread over parts, compression units change between
   the three ways to store them, and names go to a tree of nodes, which are split and joined. *)
EXTENDS Ntfs
CONSTANT MaxSteps
VARIABLES mode, truth, parts, tree, steps
vars == <<mode, truth, parts, tree, steps>>
\* --- runs, in parts: each [first, list], a list of <<count, cluster or -1>>
Low(x) == IF x < 0 THEN (x + 65536) % 256 ELSE x % 256
High(x) == IF x < 0 THEN (x + 65536) \div 256 ELSE x \div 256
EncodeOne(r, last, wide) ==
  LET d == r[2] - last
  IN IF r[2] = -1 THEN IF wide THEN <<2, r[1], 0>> ELSE <<1, r[1]>>
     ELSE IF ~wide /\ d \in -128..127 THEN <<17, r[1], Low(d)>> ELSE <<33, r[1], Low(d), High(d)>>
Encode(list, wide) ==
  FoldLeft(LAMBDA a, r: [b |-> a.b \o EncodeOne(r, a.last, wide), last |-> IF r[2] = -1 THEN a.last ELSE r[2]], [b |-> <<>>, last |-> 0], list).b \o <<0>>
Clusters == {-1, 1, 5, 100, 130, 300}
Length == FoldLeft(LAMBDA a, r: a + r[1], 0, FlattenSeq([i \in 1..Len(parts) |-> parts[i].list]))
AddRun(n, c, new) ==
  /\ parts' = IF new /\ parts[Len(parts)].list # <<>> THEN Append(parts, [first |-> Length, list |-> <<<<n, c>>>>, wide |-> n = 2])
              ELSE [parts EXCEPT ![Len(parts)].list = Append(@, <<n, c>>)]
  /\ truth' = truth \o [k \in 1..n |-> IF c = -1 THEN -1 ELSE c + (k - 1)]
PartRecords == [i \in 1..Len(parts) |-> [t |-> 128, name |-> NoName, res |-> FALSE, first |-> parts[i].first, runs |-> Encode(parts[i].list, parts[i].wide), comp |-> 0]]
RunsAgree ==
  mode = "runs" =>
    /\ \A i \in 1..Len(parts) : RunsOf(Encode(parts[i].list, parts[i].wide)) = parts[i].list
    /\ LET w == Attr(Reverse(PartRecords), 128, NoName) IN \A k \in 1..Len(truth) : LcnAt(w.runs, k - 1) = truth[k]
\* --- compression units of four clusters: <<"sparse">>, <<"raw", c>> or <<"comp", c, n>>, of which n are there, in one or two runs
UnitRuns(u, joined) == CASE u[1] = "sparse" -> <<<<4, -1>>>>
  [] u[1] = "raw" -> IF joined THEN <<<<4, u[2]>>>> ELSE <<<<1, u[2]>>, <<3, u[2] + 1>>>>
  [] OTHER -> (IF joined \/ u[3] = 1 THEN <<<<u[3], u[2]>>>> ELSE <<<<1, u[2]>>, <<u[3] - 1, u[2] + 10>>>>) \o <<<<4 - u[3], -1>>>>
\* neighbours that are zeros become one run
Join(list) == FoldLeft(LAMBDA a, r: IF a # <<>> /\ r[2] = -1 /\ a[Len(a)][2] = -1 THEN [a EXCEPT ![Len(a)] = <<@[1] + r[1], -1>>] ELSE Append(a, r), <<>>, list)
CompRuns == Join(FlattenSeq([i \in 1..Len(truth) |-> UnitRuns(truth[i], steps % 2 = 0)]))
Vol == [bs |-> 512]
UnitsAgree ==
  mode = "units" =>
    \A i \in 1..Len(truth) : \A k \in 0..3 :
      LET w == Where(Vol, [runs |-> CompRuns, comp |-> 4], (4 * (i - 1)) + k) u == truth[i]
      IN w = CASE u[1] = "sparse" -> Zero [] u[1] = "raw" -> <<1, u[2] + k>> [] OTHER -> <<2, u[2] + k>>
\* --- a tree of names; nodes by number: values [ref, file, sub, last]
Names == {<<65>>, <<97, 66>>, <<66>>, <<98, 97>>, <<67>>, <<68>>, <<99, 65>>}
File(name) == [i \in 1..66 + (2 * Len(name)) |-> IF i = 65 THEN Len(name) ELSE IF i < 67 THEN 0 ELSE IF i % 2 = 1 THEN name[((i - 67) \div 2) + 1] ELSE 0]
Value(name, sub) == [ref |-> <<Len(name), 1>>, file |-> File(name), sub |-> sub, last |-> FALSE]
Last0(sub) == [ref |-> <<0, 0>>, file |-> <<>>, sub |-> sub, last |-> TRUE]
TV == [bs |-> 512, up |-> <<<<97, 122, 1, -32>>>>,
       nodes |-> SetToSeq({[at |-> 50 + n, values |-> tree[n]] : n \in DOMAIN tree \ {0}})]
Root == [node |-> 512]
Index == [runs |-> <<<<20, 51>>>>]          \* node n at sector 50 + n is number n - 1
Sub(n) == n - 1
Node(sub) == sub + 1
Key(x) == Upper(TV, NameOf(x.file))
PutIn(values, name) ==
  LET i == SelectInSeq(values, LAMBDA x: x.last \/ Less(Upper(TV, name), Key(x)))
  IN SubSeq(values, 1, i - 1) \o <<Value(name, -1)>> \o SubSeq(values, i, Len(values))
RECURSIVE LeafFor(_, _)
LeafFor(n, name) ==
  LET values == tree[n]
      i == SelectInSeq(values, LAMBDA x: x.last \/ Less(Upper(TV, name), Key(x)))
  IN IF values[i].sub = -1 THEN n ELSE LeafFor(Node(values[i].sub), name)
Insert(name) == /\ \A x \in truth : Upper(TV, x) # Upper(TV, name)
                /\ tree' = [tree EXCEPT ![LeafFor(0, name)] = PutIn(@, name)] /\ truth' = truth \cup {name}
\* value k of node n goes up, to the node above or to a new root
FreeNode == CHOOSE k \in 1..20 : k \notin DOMAIN tree /\ \A j \in 1..k - 1 : j \in DOMAIN tree
CutAt(values, k) == [left |-> SubSeq(values, 1, k - 1) \o <<Last0(values[k].sub)>>, right |-> SubSeq(values, k + 1, Len(values))]
SplitRoot(k) ==
  LET c == CutAt(tree[0], k) f == FreeNode g == CHOOSE j \in 1..20 : j \notin DOMAIN tree \cup {f}
  IN /\ k < Len(tree[0])
     /\ tree' = (f :> c.left) @@ (g :> c.right) @@ [tree EXCEPT ![0] = <<[tree[0][k] EXCEPT !.sub = Sub(f)], Last0(Sub(g))>>]
SplitBelow(n, i, k) ==
  LET child == Node(tree[n][i].sub) c == CutAt(tree[child], k) f == FreeNode
  IN /\ tree[n][i].sub # -1 /\ k < Len(tree[child])
     /\ tree' = (f :> c.left) @@ [tree EXCEPT ![child] = c.right, ![n] = SubSeq(@, 1, i - 1) \o <<[tree[child][k] EXCEPT !.sub = Sub(f)]>> \o SubSeq(@, i, Len(@))]
\* a name of a leaf goes
Drop(n, i) == /\ tree[n][i].sub = -1 /\ ~tree[n][i].last
                /\ tree' = [tree EXCEPT ![n] = RemoveAt(@, i)] /\ truth' = truth \ {NameOf(tree[n][i].file)}
TreeAgrees ==
  mode = "tree" =>
    LET all == Under(TV, Index, Root, tree[0])
    IN /\ {NameOf(all[i].file) : i \in 1..Len(all)} = truth /\ Len(all) = Cardinality(truth)
       /\ \A i \in 1..Len(all) - 1 : Less(Key(all[i]), Key(all[i + 1]))
       /\ \A name \in Names \cup {<<97>>, <<65, 98>>, <<90>>, <<64>>} :
            LET hit == Descend(TV, Index, Root, tree[0], Upper(TV, name)) IN
            IF \E x \in truth : Upper(TV, x) = Upper(TV, name) THEN Len(hit) = 1 /\ Key(hit[1]) = Upper(TV, name) ELSE hit = <<>>
---------------------------------------------------------------------------
Init == /\ mode \in {"runs", "units", "tree"} /\ steps = 0
        /\ parts = <<[first |-> 0, list |-> <<>>, wide |-> FALSE]>>
        /\ tree = (0 :> <<Last0(-1)>>)
        /\ truth = IF mode = "tree" THEN {} ELSE <<>>
Next ==
  /\ steps < (IF mode = "runs" THEN MaxSteps - 2 ELSE MaxSteps) /\ steps' = steps + 1 /\ UNCHANGED mode
  /\ CASE mode = "runs" -> UNCHANGED tree /\ \E n \in 1..2 : \E c \in Clusters : \E new \in BOOLEAN : AddRun(n, c, new)
       [] mode = "units" -> UNCHANGED <<parts, tree>> /\
            \/ \E u \in {<<"sparse">>, <<"raw", 100 + 20 * steps>>, <<"comp", 100 + 20 * steps, 1>>, <<"comp", 100 + 20 * steps, 3>>} :
                 \/ truth' = Append(truth, u)
                 \/ \E i \in 1..Len(truth) : truth' = [truth EXCEPT ![i] = u]
       [] OTHER -> UNCHANGED parts /\
            \/ \E name \in Names : Insert(name)
            \/ \E k \in 1..Len(tree[0]) : SplitRoot(k) /\ UNCHANGED truth
            \/ \E n \in DOMAIN tree : \E i \in 1..Len(tree[n]) : \E k \in 1..(IF tree[n][i].sub = -1 THEN 0 ELSE Len(tree[Node(tree[n][i].sub)])) : SplitBelow(n, i, k) /\ UNCHANGED truth
            \/ \E n \in DOMAIN tree : \E i \in 1..Len(tree[n]) : Drop(n, i)
Spec == Init /\ [][Next]_vars
=============================================================================
