------------------------------- MODULE MC_Types -------------------------------
(* Properties of the value types over small alphabets: texts are unambiguous, the order is
   a total order that agrees with equality, folding is idempotent on the table, UTF-16
   round-trips, UUID text round-trips. *)
EXTENDS Types
CONSTANT Alphabet, MaxLen
VARIABLES a, b
Init == a = <<>> /\ b = <<>>
Next == \/ Len(a) < MaxLen /\ \E x \in Alphabet : a' = Append(a, x) /\ UNCHANGED b
        \/ Len(b) < MaxLen /\ \E x \in Alphabet : b' = Append(b, x) /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>
TotalOrder == /\ Order(a, b) = -Order(b, a)
              /\ (Order(a, b) = 0) <=> (a = b)
              /\ IsPrefix(a, b) => Order(a, b) <= 0
\* distinct strings have distinct texts: escapes do not collide with plain text
TextInjective == a # b => Ucs2Text(a) # Ucs2Text(b)
CutIsPrefix == IsPrefix(Cut(a), a) /\ \A i \in DOMAIN Cut(a) : Cut(a)[i] # 0
CutIsMax == Cut(a) = a \/ a[Len(Cut(a)) + 1] = 0
FoldOnce == Fold(Fold(a)) = Fold(a) /\ Len(Fold(a)) = Len(a)
\* a text survives UTF-16
Scalars(s) == [i \in DOMAIN s |-> IF s[i] \in 55296..57343 THEN 65536 + s[i] ELSE s[i]]
RoundTrip == Utf16Text(UnitsOfText(Scalars(a))) = Scalars(a)
Bytes16(s) == [i \in 1..16 |-> IF s = <<>> THEN 0 ELSE (s[1 + (i % Len(s))] + i) % 256]
UuidRoundTrip == LET u == Bytes16(a) IN IsUuidText(UuidText(u)) /\ UuidParse(UuidText(u)) = u /\
                   UuidLe(UuidLe(u)) = u /\ ~IsUuidText(Append(UuidText(u), 48))
=============================================================================
