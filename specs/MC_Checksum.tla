---------------------------- MODULE MC_Checksum ----------------------------
(* Model check of the checksum contexts over a small alphabet: the register after
   any history of updates and finalizes is the checksum of the bytes since the last
   finalize; known-answer, continuation and algebraic identities of the definitions. *)
EXTENDS Checksum, LongMessages, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES cfg, reg, msg, out, n
vars == <<cfg, reg, msg, out, n>>

Poly == <<1217, 7607>>      \* 0x04c11db7
RPoly == <<60856, 33568>>   \* 0xedb88320
Configs == {[kind |-> "adler", poly |-> W0, init |-> <<0, 1>>],
            [kind |-> "adler", poly |-> W0, init |-> <<65520, 65520>>],
            [kind |-> "crc", poly |-> Poly, init |-> W0],
            [kind |-> "crc", poly |-> Poly, init |-> <<4660, 22136>>],
            [kind |-> "rcrc", poly |-> RPoly, init |-> W0],
            [kind |-> "rcrc", poly |-> <<33464, 30267>>, init |-> W1s]}
Chunks == UNION {[1..k -> Alphabet] : k \in 0..2}

Init == cfg \in Configs /\ reg = Start(cfg) /\ msg = <<>> /\ out = <<>> /\ n = 0
DoUpdate == \E s \in Chunks: /\ Len(msg) + Len(s) <= MaxLen
                             /\ reg' = Update(cfg, reg, s).st
                             /\ msg' = msg \o s
                             /\ out' = <<>>
DoFinalize == /\ out' = <<Finalize(cfg, reg).out, msg>>
              /\ reg' = Finalize(cfg, reg).st
              /\ msg' = <<>>
Next == /\ n < 6 /\ n' = n + 1 /\ UNCHANGED cfg /\ (DoUpdate \/ DoFinalize)
Spec == Init /\ [][Next]_vars

\* Closed form of Adler-32.
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE SumTo(s, k - 1) + s[k]
RECURSIVE SumSums(_, _, _)
SumSums(s, a, k) == IF k = 0 THEN 0 ELSE SumSums(s, a, k - 1) + a + SumTo(s, k)
AdlerClosed(c, s) == LET a == c.init[2] b == c.init[1] IN
   <<(b + SumSums(s, a, Len(s))) % 65521, (a + SumTo(s, Len(s))) % 65521>>

\* Bit reversal, relating the two CRC directions.
RECURSIVE Rev(_, _)
Rev(x, bits) == IF bits = 0 THEN 0 ELSE (x % 2) * Pow2[bits] + Rev(x \div 2, bits - 1)
RevW(w) == <<Rev(w[2], 16), Rev(w[1], 16)>>

Resume == Value(cfg, reg)   \* a context started with the value so far ...
TypeOK == reg[1] \in 0..65535 /\ reg[2] \in 0..65535
RegisterIsChecksum == Value(cfg, reg) = ChecksumOf(cfg, msg)
OutputIsChecksum == out # <<>> => out[1] = ChecksumOf(cfg, out[2]) /\ reg = Start(cfg)
ContinuationWorks == Start([cfg EXCEPT !.init = Resume]) = reg
AdlerIsClosedForm == cfg.kind = "adler" => reg = AdlerClosed(cfg, msg)
ReverseIsMirror == cfg.kind = "rcrc" =>
   RevW(ChecksumOf(cfg, msg)) =
     ChecksumOf([kind |-> "crc", poly |-> RevW(cfg.poly), init |-> RevW(cfg.init)],
                [i \in DOMAIN msg |-> Rev(msg[i], 8)])

Digits == <<49, 50, 51, 52, 53, 54, 55, 56, 57>>
ASSUME ChecksumOf([kind |-> "rcrc", poly |-> RPoly, init |-> W0], Digits) = <<52212, 14630>>   \* cbf43926
ASSUME ChecksumOf([kind |-> "crc", poly |-> Poly, init |-> W0], Digits) = <<64649, 6424>>      \* fc891918 (CRC-32/BZIP2)
ASSUME ChecksumOf([kind |-> "adler", poly |-> W0, init |-> <<0, 1>>], Digits) = <<2334, 478>>  \* 091e01de
\* the rows of the table that are short enough to compute
ASSUME \A r \in RowsOf(ChecksumKinds, "1000") : r.out = ChecksumOf(r.cfg, LongMessage(1000))
=============================================================================
