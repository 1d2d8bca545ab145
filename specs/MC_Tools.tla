------------------------------ MODULE MC_Tools ------------------------------
(* What is shown of a path says which path it is: it can be read back, whatever the characters of
   its names, and fits on one line of a bodyfile.  A path grows by a character or a name.  With
   Bare # {} (characters that are shown as they are) this is refuted. *)
EXTENDS Tools
CONSTANTS Alphabet, Most, Bare
VARIABLE path
\* the path that is shown
HexValue(c) == IF c >= 97 THEN c - 87 ELSE c - 48
Hex(s) == FoldLeft(LAMBDA acc, c: (acc * 16) + HexValue(c), 0, s)
Put(names, n) == [names EXCEPT ![Len(names)] = Append(@, n)]
\* (in, what is missing: -1 nothing, 0 what kind of escape it is, else as many digits)
ReadOne(acc, c) ==
  CASE acc.left = 0 -> (CASE c = 120 -> [acc EXCEPT !.left = 2] [] c = 85 -> [acc EXCEPT !.left = 8] [] OTHER -> [acc EXCEPT !.left = -1, !.names = Put(@, c)])
    [] acc.left > 1 -> [acc EXCEPT !.left = @ - 1, !.hex = Append(@, c)]
    [] acc.left = 1 -> [names |-> Put(acc.names, Hex(Append(acc.hex, c))), left |-> -1, hex |-> <<>>]
    [] OTHER -> (CASE c = 92 -> [acc EXCEPT !.left = 0] [] c = 47 -> [acc EXCEPT !.names = Append(@, <<>>)] [] OTHER -> [acc EXCEPT !.names = Put(@, c)])
Read(shown) == FoldLeft(ReadOne, [names |-> <<<<>>>>, left |-> -1, hex |-> <<>>], shown)
\* of bytes that are not characters
Torn(name) == name # <<>> /\ name[1] = 255
Kept(name) == [k \in DOMAIN name |-> IF Torn(name) /\ name[k] >= 128 THEN 56320 + name[k] ELSE name[k]]
Raw(p) == <<<<FALSE, <<>>>>>> \o [k \in DOMAIN p |-> <<Torn(p[k]), p[k]>>]
ShownOf(p, more) == IF Bare = {} THEN ShownPath([raw |-> Raw(p)], more)
                    ELSE FoldLeft(LAMBDA acc, n: acc \o <<47>> \o FoldLeft(LAMBDA a, c: a \o (IF c \in Bare THEN <<c>> ELSE EscapeOne(c, more)), <<>>, n), <<>>, p)
Letters(p) == FoldLeft(LAMBDA acc, n: acc + Len(n), 0, p)
Init == path = <<>>
Next == \/ /\ path # <<>> /\ Letters(path) < Most
           /\ \E c \in Alphabet: (Torn(path[Len(path)]) => c < 256) /\ path' = Put(path, c)
        \/ /\ Letters(path) < Most
           /\ \E c \in Alphabet \cup {255}: path' = Append(path, <<c>>)
Spec == Init /\ [][Next]_path
ReadsBack ==
  \A more \in {{}, {124}}:
    LET s == ShownOf(path, more)
        r == Read(s)
    IN path # <<>> => r.left = -1 /\ r.names = <<<<>>>> \o [k \in DOMAIN path |-> Kept(path[k])]
OneField ==
  path # <<>> =>
    LET s == ShownOf(path, {124})
    IN \A k \in DOMAIN s: /\ s[k] >= 32 /\ ~(s[k] >= 127 /\ s[k] < 160)
                           /\ s[k] = 124 => k > 1 /\ s[k - 1] = 92
\* times: the digits are those of the number
ASSUME \A v \in 0..1300, p \in 0..3:
  LET x == TimeParts(<<FALSE, <<0, 0, v>>, p>>)
      n(s) == FoldLeft(LAMBDA acc, c: (acc * 10) + c, 0, s)
  IN /\ x.whole # <<>> /\ (Len(x.whole) > 1 => x.whole[1] # 0)
     /\ (x.rest # <<>> => x.rest[Len(x.rest)] # 0) /\ Len(x.rest) <= p
     /\ n(x.whole \o x.rest) * (10 ^ (p - Len(x.rest))) = v
ASSUME TimeText(<<TRUE, <<0, 0, 5>>, 1>>) = "-0.5" /\ TimeText(<<TRUE, <<0, 0, 0>>, 1>>) = "0" /\ TimeText(<<>>) = ""
\* modes: ten letters, of which the rights tell all nine bits
ASSUME Cardinality({Rwx(m) : m \in 0..511}) = 512
ASSUME \A t \in {1, 2, 4, 6, 8, 10, 12}: Mode("Ext", [mode |-> (t * 4096) + 493]) = TypeLetter(t * 4096) \o "rwxr-xr-x"
=============================================================================
