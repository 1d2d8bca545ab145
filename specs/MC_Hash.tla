------------------------------ MODULE MC_Hash ------------------------------
(* The incremental context refines the whole-message definition for every chunking. *)
EXTENDS Hash, LongMessages, TLC
CONSTANTS Kinds, ChunkLens, MaxLen, MaxSteps
VARIABLES kind, ctx, msg, out, n
vars == <<kind, ctx, msg, out, n>>
Chunk(from, k) == [i \in 1..k |-> (7 * (from + i)) % 256]
Init == kind \in Kinds /\ ctx = Fresh(kind) /\ msg = <<>> /\ out = <<>> /\ n = 0
DoUpdate == \E k \in ChunkLens:
   /\ Len(msg) + k <= MaxLen
   /\ msg' = msg \o Chunk(Len(msg), k)
   /\ ctx' = Update(kind, ctx, Chunk(Len(msg), k)).st
   /\ out' = <<>>
DoFinalize == /\ out' = <<Finalize(kind, ctx).out, msg>>
              /\ ctx' = Finalize(kind, ctx).st /\ msg' = <<>>
Next == n < MaxSteps /\ n' = n + 1 /\ UNCHANGED kind /\ (DoUpdate \/ DoFinalize)
Spec == Init /\ [][Next]_vars
BufferIsTail == /\ Len(ctx.buf) < BlockSize(kind) /\ ctx.n = Len(msg)
                /\ ctx.buf = SubSeq(msg, Len(msg) - (Len(msg) % BlockSize(kind)) + 1, Len(msg))
OutputIsDigest == out # <<>> => out[1] = DigestOf(kind, out[2]) /\ ctx = Fresh(kind)
PaddingFills == (Len(msg) + Len(Padding(kind, Len(msg)))) % BlockSize(kind) = 0
\* the rows of the table that are short enough to compute
ASSUME \A k \in DigestKinds : LongDigest(k, "1000") = DigestOf(k, LongMessage(1000))
Abc == <<97, 98, 99>>
\* Known answers of RFC 1321 and FIPS 180-4: first four bytes
ASSUME SubSeq(DigestOf("md5", Abc), 1, 4) = <<144, 1, 80, 152>>
ASSUME SubSeq(DigestOf("sha1", Abc), 1, 4) = <<169, 153, 62, 54>>
ASSUME SubSeq(DigestOf("sha224", Abc), 1, 4) = <<35, 9, 125, 34>>
ASSUME SubSeq(DigestOf("sha256", Abc), 1, 4) = <<186, 120, 22, 191>>
ASSUME SubSeq(DigestOf("sha512", Abc), 1, 4) = <<221, 175, 53, 161>>
=============================================================================
