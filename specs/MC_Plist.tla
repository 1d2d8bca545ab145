------------------------------ MODULE MC_Plist ------------------------------
(* Writers of property lists.  Every value of the pool is written in every style; reading gives
   the value, and without any one of the tags, or any part of the end, there is no value. *)
EXTENDS Plist, FiniteSets
CONSTANTS Wide
VARIABLES tree, style, phase
Leaf == {[k |-> "string", s |-> x] : x \in {<<>>, <<97>>, <<38, 13>>, <<13, 10, 60>>, <<93, 93, 62>>}}
        \cup {[k |-> "integer", s |-> x] : x \in {<<48>>, <<45, 57>>, Append(Limit, 55), <<45>> \o Append(Limit, 56)}}
        \cup {[k |-> "boolean", b |-> x] : x \in BOOLEAN}
        \cup {[k |-> "real", n |-> x] : x \in {0, -512, 1280}}
        \cup {[k |-> "data", s |-> x] : x \in {<<>>, <<255>>, <<1, 2>>, <<0, 254, 7>>}}
        \cup {[k |-> "date", s |-> x] : x \in {<<0, 0>>, <<-1, 86399>>, <<11016, 3661>>}}
Few == {[k |-> "string", s |-> <<>>], [k |-> "boolean", b |-> TRUE], [k |-> "data", s |-> <<255>>]}
Over(items) ==
  {[k |-> "array", items |-> <<>>], [k |-> "dict", keys |-> <<>>, items |-> <<>>]}
  \cup {[k |-> "array", items |-> <<a>>] : a \in items}
  \cup {[k |-> "array", items |-> <<a, b>>] : a \in items, b \in Few}
  \cup {[k |-> "dict", keys |-> <<x>>, items |-> <<a>>] : a \in items, x \in {<<>>, <<38>>}}
  \cup {[k |-> "dict", keys |-> <<<<98>>, <<97>>>>, items |-> <<a, b>>] : a \in items, b \in Few}
Pool == Leaf \cup Over(Leaf) \cup Over(Over(IF Wide THEN Leaf ELSE Few))

Styles == [noise : {"no", "note", "white"}, how : {"ref", "cdata", "mixed"}, short : BOOLEAN,
           head : {<<>>, <<"decl">>, <<"decl", "doctype">>, <<"doctype", "note">>, <<"decl", "note", "doctype", "note">>}]

Noise == CASE style.noise = "no" -> <<>>
           [] style.noise = "note" -> <<[t |-> "note"]>>
           [] OTHER -> <<[t |-> "text", s |-> <<10, 32>>], [t |-> "note"], [t |-> "text", s |-> <<9>>]>>
\* A carriage return can only be written as a reference; a section cannot hold its own end.
Chars(s) ==
  LET one(x) == IF x = 13 \/ style.how = "ref" \/ (style.how = "mixed" /\ x \in {38, 60, 62}) THEN <<[t |-> "ref", v |-> x]>>
                ELSE IF style.how = "cdata" /\ x # 62 THEN <<[t |-> "cdata", s |-> <<x>>]>>
                ELSE IF x \in {38, 60, 62} THEN <<[t |-> "ref", v |-> x]>>
                ELSE <<[t |-> "text", s |-> <<x>>]>>
  IN FoldLeft(LAMBDA a, x : a \o one(x) \o (IF style.noise = "note" THEN Noise ELSE <<>>), <<>>, s)
Element(n, inside) == IF inside = <<>> /\ style.short THEN <<[t |-> "empty", n |-> n]>>
                      ELSE <<[t |-> "open", n |-> n]>> \o inside \o <<[t |-> "close", n |-> n]>>
Digit(n) == <<48 + n>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN Digit(n) ELSE Dec(n \div 10) \o Digit(n % 10)
Fixed(n, w) == LET d == Dec(n) IN [i \in 1..(w - Len(d)) |-> 48] \o d
Alphabet(x) == CASE x < 26 -> 65 + x [] x < 52 -> 71 + x [] x < 62 -> x - 4 [] x = 62 -> 43 [] OTHER -> 47
RECURSIVE Encoded(_)
Encoded(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF Len(s) = 1 THEN <<Alphabet(s[1] \div 4), Alphabet((s[1] % 4) * 16), 61, 61>>
  ELSE IF Len(s) = 2 THEN <<Alphabet(s[1] \div 4), Alphabet(((s[1] % 4) * 16) + (s[2] \div 16)), Alphabet((s[2] % 16) * 4), 61>>
  ELSE <<Alphabet(s[1] \div 4), Alphabet(((s[1] % 4) * 16) + (s[2] \div 16)), Alphabet(((s[2] % 16) * 4) + (s[3] \div 64)),
         Alphabet(s[3] % 64)>> \o Encoded(SubSeq(s, 4, Len(s)))
RealText(n) == LET a == IF n < 0 THEN -n ELSE n
               IN (IF n < 0 THEN <<45>> ELSE <<>>) \o Dec(a \div 1024) \o <<46>> \o Fixed(((a % 1024) * 100) \div 1024, 2)
DateText(s) == LET c == D!Civil(s[1])
               IN Fixed(c[1], 4) \o <<45>> \o Fixed(c[2], 2) \o <<45>> \o Fixed(c[3], 2) \o <<84>> \o Fixed(s[2] \div 3600, 2)
                  \o <<58>> \o Fixed((s[2] \div 60) % 60, 2) \o <<58>> \o Fixed(s[2] % 60, 2) \o <<90>>
RECURSIVE Write(_)
Write(v) ==
  CASE v.k = "boolean" -> Element(IF v.b THEN "true" ELSE "false", <<>>)
    [] v.k = "array" -> Element("array", FoldLeft(LAMBDA a, i : a \o Write(i) \o Noise, <<>>, v.items))
    [] v.k = "dict" -> Element("dict", FoldLeft(LAMBDA a, i : a \o Element("key", Chars(v.keys[i])) \o Noise \o Write(v.items[i]),
                                                <<>>, [i \in DOMAIN v.keys |-> i]))
    [] OTHER -> Element(v.k, Chars(CASE v.k \in {"string", "integer"} -> v.s [] v.k = "data" -> Encoded(v.s)
                                     [] v.k = "real" -> RealText(v.n) [] OTHER -> DateText(v.s)))
Document == [i \in DOMAIN style.head |-> [t |-> style.head[i]]] \o <<[t |-> "open", n |-> "plist"]>> \o Noise \o Write(tree)
            \o <<[t |-> "close", n |-> "plist"]>> \o Noise

\* The tree is chosen first, then the style.
Plain == [noise |-> "no", how |-> "ref", short |-> FALSE, head |-> <<>>]
Init == tree \in Pool /\ style = Plain /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ style' \in Styles /\ UNCHANGED tree
Spec == Init /\ [][Next]_<<tree, style, phase>>
Done == phase = 1
ReadsBack == Done => LET r == Read(Document) IN r[1] = "ok" /\ r[2] = tree
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
EveryTagCounts == Done => LET d == Document IN \A i \in DOMAIN d : d[i].t \in {"open", "close"} => Read(Without(d, i)) = <<"err">>
WholeOnly == Done => LET d == Document
                     IN \A i \in 1..(Len(d) - 1) : (\E j \in (i + 1)..Len(d) : d[j].t = "close") => Read(SubSeq(d, 1, i)) = <<"err">>
NothingBehind == Done => LET d == Document IN \A t \in {"decl", "doctype"} : Read(Append(d, [t |-> t])) = <<"err">>
KeysHaveNoOrder == tree.k = "dict" /\ Len(tree.keys) = 2 =>
  Same(tree, [tree EXCEPT !.keys = <<@[2], @[1]>>, !.items = <<@[2], @[1]>>])
=============================================================================
