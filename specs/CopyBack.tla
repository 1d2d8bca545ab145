------------------------------ MODULE CopyBack ------------------------------
EXTENDS Integers, Sequences
\* Copying n bytes from d bytes back repeats what the copy itself writes.
CopyBack(out, d, n) == out \o [i \in 1..n |-> out[Len(out) - d + ((i - 1) % d) + 1]]
=============================================================================
