------------------------------ MODULE Checksum ------------------------------
(* Checksum contexts: a state machine with the actions Update(bytes) and Finalize.
   The values are given by the bit-level definitions, one byte at a time.

   cfg: [kind |-> "adler" | "crc" | "rcrc", poly |-> word, init |-> word]
   The abstract state is the checksum of the bytes fed since the last reset. *)
EXTENDS Word32, SequencesExt

(* Adler-32 (RFC 1950): a = 1 + sum of bytes, b = sum of the running a, mod 65521. *)
AdlerByte(w, byte) == LET a == (w[2] + byte) % 65521
                          b == (w[1] + a) % 65521
                      IN <<b, a>>

(* One bit of polynomial division, most significant bit first. *)
CrcBit(poly, w) == IF w[1] >= 32768 THEN WXor(WShl1(w), poly) ELSE WShl1(w)
RCrcBit(poly, w) == IF w[2] % 2 = 1 THEN WXor(WShr1(w), poly) ELSE WShr1(w)
RECURSIVE Times(_, _, _)
Times(Op(_), n, w) == IF n = 0 THEN w ELSE Times(Op, n - 1, Op(w))
CrcByte(poly, w, byte) == LET Op(x) == CrcBit(poly, x) IN Times(Op, 8, <<w[1] ^^ (byte * 256), w[2]>>)
RCrcByte(poly, w, byte) == LET Op(x) == RCrcBit(poly, x) IN Times(Op, 8, <<w[1], w[2] ^^ byte>>)

\* Internal register at the start, one byte, and the value reported.
Start(cfg) == IF cfg.kind = "adler" THEN cfg.init ELSE WNot(cfg.init)
Byte(cfg, w, b) == CASE cfg.kind = "adler" -> AdlerByte(w, b)
                     [] cfg.kind = "crc" -> CrcByte(cfg.poly, w, b)
                     [] cfg.kind = "rcrc" -> RCrcByte(cfg.poly, w, b)
Value(cfg, w) == IF cfg.kind = "adler" THEN w ELSE WNot(w)

Bytes(cfg, w, s) == FoldLeft(LAMBDA acc, b: Byte(cfg, acc, b), w, s)

\* The actions: <<next register, observation>>
Update(cfg, w, s) == [st |-> Bytes(cfg, w, s), out |-> "ok"]
Finalize(cfg, w) == [st |-> Start(cfg), out |-> Value(cfg, w)]
Apply(cfg, w, op) == IF op.op = "update" THEN Update(cfg, w, op.data) ELSE Finalize(cfg, w)

(* The definition on a whole message, used as the property. *)
ChecksumOf(cfg, msg) == Value(cfg, Bytes(cfg, Start(cfg), msg))
=============================================================================
