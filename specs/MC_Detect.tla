------------------------------ MODULE MC_Detect ------------------------------
(* Data that gets signatures at or next to their places, and is cut and extended. *)
EXTENDS Detect, TLC
CONSTANTS MaxSteps, Sizes
VARIABLES d, steps
vars == <<d, steps>>
Init == \E n \in Sizes \cup {0}: d = [size |-> BInt(n), pieces |-> <<>>] /\ steps = 0
Put == \E s \in Signatures, x \in {-1, 0, 1}:
         LET p == BAdd(Place(d, s), BInt(x))
         IN ~BNeg(p) /\ d' = [d EXCEPT !.pieces = Append(@, [off |-> p, data |-> s.pat])]
Resize == \E n \in Sizes: BInt(n) # d.size /\ d' = [d EXCEPT !.size = BInt(n)]
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Put \/ Resize)
Spec == Init /\ [][Next]_vars
View == d
FromStart(f) == \A s \in Signatures: s.fmt = f => s.from = "start"
\* one format does not hide another, and those at one place exclude each other
Separate == \A f \in Formats: (f \in Detected(d, Formats)) <=> (Detected(d, {f}) = {f})
SamePlace == Cardinality({s \in Signatures : s.from = "start" /\ s.off = 0 /\ IsAt(d, s)}) <= 1
Short == BLess(d.size, BInt(512)) => Detected(d, Formats) \cap {"Mbr", "Gpt", "Apm", "Ext", "Udif", "Vhd"} = {}
\* data only has what was put there, nothing is from beyond its end
Plain == d.pieces = <<>> => Detected(d, Formats) = {}
\* cutting data does not add what is found from its start
Cut == \A n \in Sizes: BLess(BInt(n), d.size) =>
         {f \in Detected([d EXCEPT !.size = BInt(n)], Formats) : FromStart(f)} \subseteq Detected(d, Formats)
=============================================================================
