------------------------------- MODULE Plist -------------------------------
(* XML property lists.

   A document is a sequence of tokens: the XML declaration ("decl"), the document type
   ("doctype"), start tags ("open"), end tags ("close"), tags of elements without content
   ("empty"), characters ("text"), references ("ref", to a character, -1 for what is none),
   character data sections ("cdata"), comments and processing instructions ("note") and what
   XML does not allow at all ("bad").  Reading is a machine with a stack of open elements; what
   it has at the end is the value the document stands for:

     [k |-> "dict", keys, items] [k |-> "array", items] [k |-> "string", s] [k |-> "integer", s]
     [k |-> "real", n] [k |-> "boolean", b] [k |-> "data", s] [k |-> "date", s]

   Texts are sequences of code points, integers are their canonical decimal text, reals are
   1024ths, dates are days since 1970-01-01 and seconds.  `bad`: the document is no property
   list and must be refused.  `open`: it is well-formed XML but not what the document type
   says (for example a word between the members of an array), or written in a way that readers
   differ about; what is made of it is left open. *)
EXTENDS Integers, Sequences, SequencesExt
U == INSTANCE Utf8
D == INSTANCE DateTime

Leaves == {"string", "integer", "real", "date", "data", "key", "true", "false"}
Values == (Leaves \ {"key"}) \cup {"array", "dict"}
Names == Values \cup {"key", "plist"}
White == {9, 10, 13, 32}
AllWhite(s) == \A i \in DOMAIN s : s[i] \in White
Within(s, set) == \A i \in DOMAIN s : s[i] \in set

\* The end of a line is one line feed, however it is written.
Lines(s) == FoldLeft(LAMBDA a, i : IF s[i] = 10 /\ i > 1 /\ s[i - 1] = 13 THEN a
                                  ELSE Append(a, IF s[i] = 13 THEN 10 ELSE s[i]),
                     <<>>, [i \in 1..Len(s) |-> i])

Digits == 48..57
Number(s) == FoldLeft(LAMBDA a, d : a * 10 + (d - 48), 0, s)
Limit == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48>>   \* 9223372036854775807 without the last
LessEq(a, b) == a = b \/ \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
\* Without leading zeros.
Stripped(s) == LET i == SelectInSeq(s, LAMBDA d : d # 48) IN IF i = 0 THEN <<48>> ELSE SubSeq(s, i, Len(s))
Must == [k |-> "bad"]
Left == [k |-> "open"]
IntegerOf(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      d == IF neg THEN Tail(s) ELSE s
  IN IF d # <<>> /\ Within(d, Digits)
     THEN LET c == Stripped(d)
              most == Append(Limit, IF neg THEN 56 ELSE 55)
          IN IF Len(c) > 19 \/ (Len(c) = 19 /\ ~LessEq(c, most)) THEN Must
             ELSE [k |-> "integer", s |-> IF neg /\ c # <<48>> THEN <<45>> \o c ELSE c]
     ELSE IF d # <<>> /\ Within(s, Digits \cup White \cup {43, 45, 120, 88} \cup 65..70 \cup 97..102)
             /\ ~AllWhite(s) THEN Left
     ELSE Must

\* [-]digits[.digits]; the sizes are such that the value is a number of 1024ths.
RealOf(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      d == IF neg THEN Tail(s) ELSE s
      p == SelectInSeq(d, LAMBDA x : x = 46)
      whole == IF p = 0 THEN d ELSE SubSeq(d, 1, p - 1)
      part == IF p = 0 THEN <<>> ELSE SubSeq(d, p + 1, Len(d))
  IN IF whole # <<>> /\ Within(whole, Digits) /\ (p = 0 \/ part # <<>>) /\ Within(part, Digits) /\ Len(whole) <= 6 /\ Len(part) <= 5
     THEN LET n == Number(whole) * 1024 + ((Number(part) * 1024) \div (10 ^ Len(part)))
          IN [k |-> "real", n |-> IF neg THEN -n ELSE n]
     ELSE IF s = <<>> \/ AllWhite(s) \/ \E i \in DOMAIN s : s[i] \in {33, 35, 113, 122, 71, 58} THEN Must
     ELSE Left

\* YYYY-MM-DDTHH:MM:SSZ
DateShape(s) ==
  /\ Len(s) = 20
  /\ \A i \in DOMAIN s : CASE i \in {5, 8} -> s[i] = 45 [] i = 11 -> s[i] = 84 [] i \in {14, 17} -> s[i] = 58
                           [] i = 20 -> s[i] = 90 [] OTHER -> s[i] \in Digits
\* Days from 1970-01-01: the inverse of Civil.
DaysTo(y, m, d) ==
  LET z == IF m <= 2 THEN y - 1 ELSE y
      era == z \div 400
      yoe == z - (era * 400)
      doy == (((153 * (IF m > 2 THEN m - 3 ELSE m + 9)) + 2) \div 5) + d - 1
  IN (era * 146097) + (yoe * 365) + (yoe \div 4) - (yoe \div 100) + doy - 719468
DateOf(s) ==
  IF ~DateShape(s) THEN (IF Within(s, Digits \cup White \cup {43, 45, 46, 58, 84, 90}) /\ s # <<>> THEN Left ELSE Must)
  ELSE LET f(a, b) == Number(SubSeq(s, a, b))
           y == f(1, 4) m == f(6, 7) d == f(9, 10) hh == f(12, 13) mm == f(15, 16) ss == f(18, 19)
       IN IF m \notin 1..12 THEN Must
          ELSE IF d \notin 1..D!DaysInMonth(y, m) \/ hh > 23 \/ mm > 59 \/ ss > 60 THEN Must
          ELSE IF y = 0 \/ ss = 60 THEN Left
          ELSE [k |-> "date", s |-> <<DaysTo(y, m, d), (hh * 3600) + (mm * 60) + ss>>]

DataOf(s) ==
  LET c == SelectSeq(s, LAMBDA x : x \notin White)
  IN IF U!B64Proper(c, FALSE) THEN [k |-> "data", s |-> U!B64Bytes(U!B64Scan(c, FALSE, 1, <<>>).digits)]
     ELSE IF \E i \in DOMAIN c : c[i] # 61 /\ U!Sixtet(c[i]) = -1 /\ \A j \in 1..i : c[j] # 61 THEN Must
     ELSE Left

Frame(n) == [n |-> n, text |-> <<>>, items |-> <<>>, keys |-> <<>>, key |-> <<>>]
ValueOf(f) ==
  CASE f.n = "string" -> [k |-> "string", s |-> f.text]
    [] f.n = "integer" -> IntegerOf(f.text)
    [] f.n = "real" -> RealOf(f.text)
    [] f.n = "date" -> DateOf(f.text)
    [] f.n = "data" -> DataOf(f.text)
    [] f.n \in {"true", "false"} -> IF f.text = <<>> THEN [k |-> "boolean", b |-> f.n = "true"] ELSE Left
    [] f.n = "array" -> [k |-> "array", items |-> f.items]
    [] f.n = "dict" -> IF f.key # <<>> THEN Must
                       ELSE IF \E i, j \in DOMAIN f.keys : i < j /\ f.keys[i] = f.keys[j] THEN Left
                       ELSE [k |-> "dict", keys |-> f.keys, items |-> f.items]

Start == [phase |-> "start", stack |-> <<>>, value |-> <<>>, bad |-> FALSE, open |-> FALSE]
Wrong(s) == [s EXCEPT !.bad = TRUE]
Begun(s) == IF s.phase = "start" THEN [s EXCEPT !.phase = "prolog"] ELSE s
Top(s) == s.stack[Len(s.stack)]
WithTop(s, f) == [s EXCEPT !.stack[Len(s.stack)] = f]

\* Whether an element may start within the one that is open.
MayHold(f, n) ==
  CASE f.n = "plist" -> n \in Values /\ f.items = <<>>
    [] f.n = "array" -> n \in Values
    [] f.n = "dict" -> IF f.key = <<>> THEN n = "key" ELSE n \in Values
    [] OTHER -> FALSE
Opened(s, n) ==
  IF s.stack = <<>>
  THEN IF n = "plist" /\ s.phase # "end" THEN [s EXCEPT !.stack = <<Frame(n)>>, !.phase = "root"] ELSE Wrong(s)
  ELSE IF MayHold(Top(s), n) THEN [s EXCEPT !.stack = Append(@, Frame(n))] ELSE Wrong(s)
Closed(s, n) ==
  IF s.stack = <<>> THEN Wrong(s)
  ELSE IF Top(s).n # n THEN Wrong(s)
  ELSE LET f == Top(s)
           rest == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
       IN IF n = "plist" THEN [rest EXCEPT !.phase = "end", !.value = f.items]
          ELSE IF n = "key" THEN WithTop(rest, [Top(rest) EXCEPT !.key = <<f.text>>])
          ELSE LET v == ValueOf(f)
                   p == Top(rest)
                   q == IF p.n = "dict" THEN [p EXCEPT !.keys = Append(@, p.key[1]), !.key = <<>>, !.items = Append(@, v)]
                        ELSE [p EXCEPT !.items = Append(@, v)]
               IN [WithTop(rest, q) EXCEPT !.bad = @ \/ v.k = "bad", !.open = @ \/ v.k = "open"]
Characters(s, x) ==
  IF Top(s).n \in Leaves THEN WithTop(s, [Top(s) EXCEPT !.text = @ \o x])
  ELSE [s EXCEPT !.open = @ \/ ~AllWhite(x)]

Step(s, t) ==
  IF s.bad THEN s
  ELSE CASE t.t = "decl" -> IF s.phase = "start" THEN Begun(s) ELSE Wrong(s)
         [] t.t = "doctype" -> IF s.phase \in {"start", "prolog"} THEN [s EXCEPT !.phase = "typed"] ELSE Wrong(s)
         [] t.t = "note" -> Begun(s)
         [] t.t = "text" -> IF s.stack # <<>> THEN Characters(s, Lines(t.s))
                            ELSE IF AllWhite(t.s) THEN (IF t.s = <<>> THEN s ELSE Begun(s)) ELSE Wrong(s)
         [] t.t = "ref" -> IF s.stack = <<>> \/ t.v = -1 THEN Wrong(s)
                           ELSE IF Top(s).n \in Leaves THEN Characters(s, <<t.v>>) ELSE [s EXCEPT !.open = TRUE]
         [] t.t = "cdata" -> IF s.stack = <<>> THEN Wrong(s)
                             ELSE IF Top(s).n \in Leaves THEN Characters(s, Lines(t.s)) ELSE [s EXCEPT !.open = TRUE]
         [] t.t = "open" -> Opened(s, t.n)
         [] t.t = "empty" -> LET o == Opened(s, t.n) IN IF o.bad THEN o ELSE Closed(o, t.n)
         [] t.t = "close" -> Closed(s, t.n)
         [] OTHER -> Wrong(s)

\* What a document stands for: <<"err">>, <<"open">>, <<"none">> (no value) or <<"ok", value>>.
Read(tokens) ==
  LET s == FoldLeft(Step, Start, tokens)
  IN IF s.bad \/ s.phase # "end" THEN <<"err">>
     ELSE IF s.open THEN <<"open">>
     ELSE IF s.value = <<>> THEN <<"none">>
     ELSE <<"ok", s.value[1]>>

\* The same value; the keys of a dictionary have no order.
RECURSIVE Same(_, _)
Same(v, o) ==
  /\ v.k = o.k
  /\ CASE v.k \in {"string", "integer", "data", "date"} -> v.s = o.s
       [] v.k = "real" -> v.n = o.n
       [] v.k = "boolean" -> v.b = o.b
       [] v.k = "array" -> Len(v.items) = Len(o.items) /\ \A i \in DOMAIN v.items : Same(v.items[i], o.items[i])
       [] v.k = "dict" -> /\ Len(v.keys) = Len(o.keys)
                          /\ \A i \in DOMAIN v.keys : LET j == SelectInSeq(o.keys, LAMBDA x : x = v.keys[i])
                                                      IN j # 0 /\ Same(v.items[i], o.items[j])
=============================================================================
