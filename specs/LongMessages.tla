---------------------------- MODULE LongMessages ----------------------------
(* Digests and checksums of messages too long to compute here, as a table (tools/gen_vectors.py).
   A row has the kind, the length n as text, the configuration of a checksum as cfg, and the
   value as out.  The model checks of Hash and Checksum confirm the rows of 1000 bytes. *)
EXTENDS Integers, Sequences, Json
LongTable == JsonDeserialize("tables/vectors.json")
LongMessage(n) == [i \in 1..n |-> ((7 * ((i - 1) % 251)) + 3) % 256]
IsChecksum(r) == "cfg" \in DOMAIN r
RowsOf(kinds, n) == {LongTable[i] : i \in {j \in DOMAIN LongTable : LongTable[j].kind \in kinds /\ LongTable[j].n = n}}
DigestKinds == {"md5", "sha1", "sha224", "sha256", "sha512"}
ChecksumKinds == {"adler", "crc", "rcrc"}
LongDigest(kind, n) == (CHOOSE r \in RowsOf({kind}, n) : TRUE).out
LongChecksum(cfg, n) == (CHOOSE r \in RowsOf({cfg.kind}, n) : r.cfg = cfg).out
=============================================================================
