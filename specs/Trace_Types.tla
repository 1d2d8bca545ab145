----------------------------- MODULE Trace_Types -----------------------------
(* Events act on register e.r (1 or 2); e.o is the other register. *)
EXTENDS Types, TraceWalk
InitState(c) == <<[enc |-> "utf8", el |-> IF c.kind = "uuid" THEN [i \in 1..16 |-> 0] ELSE <<>>],
                  [enc |-> "utf8", el |-> IF c.kind = "uuid" THEN [i \in 1..16 |-> 0] ELSE <<>>]>>
Ok(el) == [k |-> "el", el |-> el]
Text(t) == [k |-> "text", el |-> t]
Num(n) == [k |-> "num", el |-> <<n>>]
Set(s, e, el) == [st |-> [s EXCEPT ![e.r].el = el], out |-> Ok(el)]
\* an operation that failed may have taken over part of its input
Failed(s, e, good) ==
  [st |-> IF e.out.k = "err" /\ IsPrefix(s[e.r].el, e.out.el) THEN [s EXCEPT ![e.r].el = e.out.el] ELSE s,
   out |-> [k |-> "err", el |-> IF e.out.k = "err" /\ good THEN e.out.el ELSE <<-1, -1>>]]
Extend(s, e, cps) ==
  LET enc == s[e.r].enc el == s[e.r].el IN
  IF Faulty(cps) \/ \E i \in DOMAIN cps : cps[i] \notin CT!Mapped[enc]
  THEN Failed(s, e, e.out.k = "err" => IsPrefix(el, e.out.el))
  ELSE \* any right encoding: take what was written when it decodes to the code points
       LET new == IF e.out.k = "el" THEN e.out.el ELSE <<>>
           right == IsPrefix(el, new) /\ CT!Decode(enc, SubSeq(new, Len(el) + 1, Len(new))) = cps
       IN [st |-> IF right THEN [s EXCEPT ![e.r].el = new] ELSE s,
           out |-> Ok(IF right THEN new ELSE <<-1>> \o cps)]
Bytes(c, s, e) ==
  CASE e.op = "new" -> [st |-> [s EXCEPT ![e.r] = [enc |-> e.enc, el |-> <<>>]], out |-> Ok(<<>>)]
    [] e.op = "from" -> [st |-> [s EXCEPT ![e.r] = [enc |-> "utf8", el |-> Cut(e.data)]], out |-> Ok(Cut(e.data))]
    [] e.op = "read" -> Set(s, e, s[e.r].el \o Cut(e.data))
    [] e.op = "extend" -> IF s[e.r].enc = s[e.o].enc THEN Set(s, e, s[e.r].el \o s[e.o].el)
                          ELSE Extend(s, e, CodePoints(s[e.o].enc, s[e.o].el))
    [] e.op = "codepoints" -> Extend(s, e, e.data)
    [] e.op = "text" -> [st |-> s, out |-> IF e.out.k = "text" /\ ByteTextMatches(s[e.r].enc, s[e.r].el, e.out.el)
                                           THEN e.out ELSE Text(ByteText(s[e.r].enc, s[e.r].el))]
    [] e.op = "eqslice" -> [st |-> s, out |-> Num(IF s[e.r].el = e.data THEN 1 ELSE 0)]
    [] e.op = "cmp" -> [st |-> s, out |-> IF s[1].enc = s[2].enc THEN Num(Order(s[e.r].el, s[e.o].el)) ELSE e.out]
    [] e.op = "len" -> [st |-> s, out |-> Num(Len(s[e.r].el))]
Wide(c, s, e) ==
  CASE e.op = "new" -> Set(s, e, <<>>)
    [] e.op = "from_be" -> Set(s, e, Cut(Units(e.data, TRUE)))
    [] e.op = "from_le" -> Set(s, e, Cut(Units(e.data, FALSE)))
    [] e.op = "read_le" -> Set(s, e, s[e.r].el \o Cut(Units(e.data, FALSE)))
    [] e.op = "from_units" -> Set(s, e, Cut(e.data))
    [] e.op = "from_str" -> Set(s, e, UnitsOfText(e.data))
    [] e.op = "fold" -> Set(s, e, Fold(s[e.o].el))
    [] e.op = "text" -> [st |-> s, out |-> Text(IF c.kind = "ucs2" THEN Ucs2Text(s[e.r].el) ELSE Utf16Text(s[e.r].el))]
    [] e.op = "cmp" -> [st |-> s, out |-> Num(Order(s[e.r].el, s[e.o].el))]
    [] e.op = "len" -> [st |-> s, out |-> Num(Len(s[e.r].el))]
UuidOp(c, s, e) ==
  CASE e.op = "from_be" -> Set(s, e, UuidBe(e.data))
    [] e.op = "from_le" -> Set(s, e, UuidLe(e.data))
    [] e.op = "from_string" ->
         IF IsUuidText(Unbraced(e.data)) THEN Set(s, e, UuidParse(Unbraced(e.data)))
         ELSE [st |-> IF e.out.k = "err" THEN [s EXCEPT ![e.r].el = e.out.el] ELSE s,
               out |-> IF e.out.k = "err" THEN e.out ELSE [k |-> "err", el |-> <<>>]]
    [] e.op = "text" -> [st |-> s, out |-> Text(UuidText(s[e.r].el))]
    [] e.op = "nil" -> [st |-> s, out |-> Num(IF \A i \in 1..16 : s[e.r].el[i] = 0 THEN 1 ELSE 0)]
    [] e.op = "max" -> [st |-> s, out |-> Num(IF \A i \in 1..16 : s[e.r].el[i] = 255 THEN 1 ELSE 0)]
    [] e.op = "cmp" -> [st |-> s, out |-> Num(IF s[e.r].el = s[e.o].el THEN 0 ELSE 1)]
StepOf(c, s, e) == CASE c.kind = "bytes" -> Bytes(c, s, e) [] c.kind \in {"ucs2", "utf16"} -> Wide(c, s, e)
                     [] c.kind = "uuid" -> UuidOp(c, s, e)
Agrees(o, e) == o = e.out
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars
=============================================================================
