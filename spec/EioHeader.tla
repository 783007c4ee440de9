----------------------------- MODULE EioHeader -----------------------------
(* Bit-exact decoding of an object header.

   A header is 3 or 4 little-endian 32-bit words (after the sync marker at top
   level): type word, id, length, and the extension word if the extended flag is
   set.  TLC integers have 32 bits, so words are sequences of bytes and
   numbers above 2^31 are given as limbs:
     id   = sign/magnitude by the four bytes (two's complement)
     size = <<hi, lo>>  meaning hi * 2^30 + lo
   The reader consumes one word per step.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Family,   \* "bits" | "words" | "random" (simulation)
          Tops      \* set of BOOLEAN: at top level / as sub-object

VARIABLES bytes,    \* 16 bytes: the last four are only used if the extended flag is set
          top, got, pc

vars == <<bytes, top, got, pc>>

Pow2(n) == 2 ^ n
BitOf(b, i) == (b \div Pow2(i)) % 2

\* the 16 bytes with the bits a and b set (bit k of the header: byte k \div 8, bit k % 8), or all others
TwoBits(a, b) == [i \in 1..16 |-> (IF a \div 8 = i - 1 THEN Pow2(a % 8) ELSE 0) + (IF b # a /\ b \div 8 = i - 1 THEN Pow2(b % 8) ELSE 0)]
Invert(bs) == [i \in 1..16 |-> 255 - bs[i]]

B == {0, 1, 2, 16, 64, 127, 128, 255}
Filler == << 18, 52, 96, 17,  21, 33, 72, 104,  9, 0, 0, 0,  0, 0, 0, 0 >>
WithWord(w, q) == [i \in 1..16 |-> IF (i - 1) \div 4 = w THEN q[((i - 1) % 4) + 1] ELSE Filler[i]]

Init == /\ bytes = Filler
        /\ top \in Tops
        /\ got = [n |-> 0]
        /\ pc = "start"

\* choose the header
Start ==
  /\ pc = "start" /\ pc' = "word"
  /\ UNCHANGED <<top, got>>
  /\ \/ /\ Family = "bits"
        /\ \E a \in 0..127 : \E b \in 0..a : \E inv \in BOOLEAN : bytes' = (IF inv THEN Invert(TwoBits(a, b)) ELSE TwoBits(a, b))
     \/ /\ Family = "words"
        /\ \E w \in 0..3 : \E q \in [1..4 -> B] :
              bytes' = IF w < 3 THEN WithWord(w, q) ELSE [WithWord(3, q) EXCEPT ![3] = 98]    \* 98: extended flag set
     \/ /\ Family = "random"
        /\ bytes' = [i \in 1..16 |-> RandomElement(0..255)]

TypeWord == LET b == bytes IN
  /\ pc = "word"
  /\ got' = [t |-> b[1] + 256 * b[2], u |-> b[3] % 2, x |-> BitOf(b[3], 1) = 1, v |-> (b[3] \div 16) + 16 * b[4]]
  /\ pc' = "id"
  /\ UNCHANGED <<bytes, top>>

\* two's complement: <<upper 16 bits signed, lower 16 bits>>
Id == LET b == bytes IN
  /\ pc = "id"
  /\ LET up == b[7] + 256 * b[8] IN
     got' = got @@ [idh |-> IF up >= 32768 THEN up - 65536 ELSE up, idl |-> b[5] + 256 * b[6]]
  /\ pc' = "length"
  /\ UNCHANGED <<bytes, top>>

Length == LET b == bytes IN
  /\ pc = "length"
  /\ got' = got @@ [s |-> BitOf(b[12], 6) = 1, lo |-> b[9] + 256 * b[10] + 65536 * b[11] + 16777216 * (b[12] % 64), hi |-> 0]
  /\ pc' = IF got.x THEN "ext" ELSE "done"
  /\ UNCHANGED <<bytes, top>>

Ext == LET b == bytes IN
  /\ pc = "ext"
  /\ got' = [got EXCEPT !.hi = b[13] + 256 * (b[14] % 16)]
  /\ pc' = "done"
  /\ UNCHANGED <<bytes, top>>

Finish == pc = "done" /\ pc' = "end" /\ UNCHANGED <<bytes, top, got>>
Next == Start \/ Finish \/ TypeWord \/ Id \/ Length \/ Ext
Spec == Init /\ [][Next]_vars

HSize == 12 + (IF top THEN 4 ELSE 0) + (IF got.x THEN 4 ELSE 0)
\* start of the sibling relative to the start of this object, normalised limbs
NextStart == LET l == got.lo + HSize IN IF l >= 1073741824 THEN [hi |-> got.hi + 1, lo |-> l - 1073741824] ELSE [hi |-> got.hi, lo |-> l]

(* encoding is the inverse of decoding, up to the reserved bits (bits 18, 19 of the type word,
   bit 31 of the length, bits 12.. of the extension word) *)
Encode(g) == LET m == IF g.idh < 0 THEN g.idh + 65536 ELSE g.idh IN
  << g.t % 256, g.t \div 256, g.u + (IF g.x THEN 2 ELSE 0) + 16 * (g.v % 16), g.v \div 16,
     g.idl % 256, g.idl \div 256, m % 256, m \div 256,
     g.lo % 256, (g.lo \div 256) % 256, (g.lo \div 65536) % 256, (g.lo \div 16777216) + (IF g.s THEN 64 ELSE 0) >>
  \o (IF g.x THEN << g.hi % 256, g.hi \div 256 >> ELSE <<>>)
Masked == [i \in 1..(IF got.x THEN 14 ELSE 12) |->
             CASE i = 3 -> (bytes[3] % 4) + 16 * (bytes[3] \div 16)
               [] i = 12 -> bytes[12] % 128
               [] i = 14 -> bytes[14] % 16
               [] OTHER -> bytes[i]]
RoundTrip == pc = "end" => Encode(got) = Masked
Ranges == pc = "end" => /\ got.t \in 0..65535 /\ got.v \in 0..4095 /\ got.idh \in -32768..32767 /\ got.lo \in 0..1073741823 /\ got.hi \in 0..4095
                         /\ (~got.x => got.hi = 0)
Inv == RoundTrip /\ Ranges

(* objects of the types of tracking positions are refused if type and id disagree (see TelId) *)
IsTracking == got.t \in 2100..11199 /\ got.t % 1000 \in 100..199
Refused == IsTracking /\ 100 * ((got.t - 2100) \div 1000) + ((got.t - 2100) % 1000) # (bytes[8] % 64) * 256 + bytes[5]

Export == pc = "end" => CSVWrite("%1$s", <<ToJson([b |-> bytes, top |-> top, r |-> got, hs |-> HSize, nxt |-> NextStart, refused |-> Refused])>>, IOEnv.OUT)
=============================================================================
