------------------------------ MODULE EioPrim ------------------------------
(* Variable length integers and the primitive readers.

   A behaviour writes a stream item by item and reads every item back: `stream`
   is the bytes so far, every operation consumes exactly the item's bytes.
   64 bit values are eight bytes, most significant first; a signed value is
   [neg, mag]: mag or -mag-1.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Mode,      \* "single": every encoding of the families once, "mix": random sequences
          Depth

VARIABLES stream, hist
vars == <<stream, hist>>

(* ------------------------- variable length encoding ------------------------- *)
\* n bytes: the first one has n-1 leading ones, a zero (n < 9) and the upper 8-n bits
Lead(n) == IF n = 9 THEN 255 ELSE 256 - 2 ^ (9 - n)
FreeBits(n) == IF n >= 8 THEN 0 ELSE 8 - n
\* encoding of length n with the low bits of p[1] in the first byte
Enc(n, p) == [i \in 1..n |-> IF i = 1 THEN Lead(n) + (p[1] % (2 ^ FreeBits(n))) ELSE p[i]]

EncLength(b) == CASE b < 128 -> 1 [] b \in 128..191 -> 2 [] b \in 192..223 -> 3 [] b \in 224..239 -> 4 [] b \in 240..247 -> 5
                  [] b \in 248..251 -> 6 [] b \in 252..253 -> 7 [] b = 254 -> 8 [] b = 255 -> 9
ValueOf(e) == LET n == Len(e) IN
   [i \in 1..8 |-> IF n = 9 THEN e[i + 1]
                   ELSE IF i < 9 - n THEN 0
                   ELSE IF i = 9 - n THEN e[1] % (2 ^ FreeBits(n))
                   ELSE e[i - (8 - n)]]
Half(v) == [i \in 1..8 |-> (v[i] \div 2) + (IF i > 1 THEN 128 * (v[i - 1] % 2) ELSE 0)]
Signed(v) == [neg |-> v[8] % 2 = 1, mag |-> Half(v)]
\* the inverse: shortest encoding
Significant(v) == LET nz == {i \in 1..8 : v[i] # 0} IN IF nz = {} THEN 9 ELSE CHOOSE i \in nz : \A j \in nz : i <= j
Shortest(v) == LET s == Significant(v)
                   fits(n) == n = 9 \/ (\A i \in 1..8 : (i < 9 - n => v[i] = 0) /\ (i = 9 - n => v[i] < 2 ^ FreeBits(n)))
                   n == CHOOSE m \in 1..9 : fits(m) /\ \A k \in 1..(m - 1) : ~fits(k)
               IN [i \in 1..n |-> IF n = 9 THEN (IF i = 1 THEN 255 ELSE v[i - 1])
                                  ELSE IF i = 1 THEN Lead(n) + (IF n < 8 THEN v[9 - n] ELSE 0) ELSE v[8 - n + i]]

F == {0, 1, 85, 127, 128, 254, 255}
\* one payload byte differs from the others
Enumerated == { <<n, f, j, g>> : n \in 1..9, f \in F, j \in 1..9, g \in F }
EncOf(q) == Enc(q[1], [i \in 1..9 |-> IF i = q[3] THEN q[4] ELSE q[2]])
RandomBytes(n) == [i \in 1..n |-> IF RandomElement(1..3) = 1 THEN RandomElement(F) ELSE RandomElement(0..255)]
RandomEnc(x) == LET n == RandomElement(1..9) IN Enc(n, RandomBytes(9))

(* -------------------------------- operations -------------------------------- *)
DoOp(op, arg, bytes, r, ok) ==
  /\ stream' = stream \o bytes
  /\ hist' = Append(hist, [op |-> op, a |-> arg, lo |-> Len(stream), n |-> Len(bytes), r |-> r, ok |-> ok])
Do(op, arg, bytes, r) == DoOp(op, arg, bytes, r, TRUE)

Uv(e) == Do("uv", 0, e, ValueOf(e))
Sv(e) == Do("sv", 0, e, Signed(ValueOf(e)))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Uva(es) == Do("uva", Len(es), Flat(es), [i \in 1..Len(es) |-> ValueOf(es[i])])
Sva(es) == Do("sva", Len(es), Flat(es), [i \in 1..Len(es) |-> Signed(ValueOf(es[i]))])

\* little endian numbers: as two 16 bit halves
Lo16(b, o) == b[o] + 256 * b[o + 1]
Int16(b, o) == IF Lo16(b, o) >= 32768 THEN Lo16(b, o) - 65536 ELSE Lo16(b, o)
Limbs(b, o, signed) == <<IF signed THEN Int16(b, o + 2) ELSE Lo16(b, o + 2), Lo16(b, o)>>
Short(b) == Do("short", 0, b, Int16(b, 1))
UShort(b) == Do("ushort", 0, b, Lo16(b, 1))
Int32(b) == Do("int", 0, b, Limbs(b, 1, TRUE))
UInt32(b) == Do("uint", 0, b, Limbs(b, 1, FALSE))
Float(b) == Do("float", 0, b, b)          \* the IEEE bit pattern
Double(b) == Do("double", 0, b, b)
Time(b) == Do("time", 0, b, <<Limbs(b, 1, TRUE), Limbs(b, 5, TRUE)>>)
Ints(k, b) == Do("ints", k, b, [i \in 1..k |-> Limbs(b, 4 * i - 3, TRUE)])
Array(dt, w, k, b) == Do("array", <<dt, k>>, b, b)
Str(b) == Do("string", 0, <<Len(b) % 256, Len(b) \div 256>> \o b, b)
VStr(b) == LET l == Len(b) IN
           Do("varstring", 0, (IF l < 128 THEN <<l>> ELSE <<128 + (l \div 256), l % 256>>) \o b, b)

Dtypes == { <<"<i2", 2>>, <<"<u2", 2>>, <<"<i4", 4>>, <<"<u4", 4>>, <<"<f4", 4>>, <<"<f8", 8>>, <<"u1", 1>> }
StrLens == {0, 1, 2, 127, 128, 129, 300}

\* an encoding cut short: reading it fails
Cut(e, k, op) == /\ k < Len(e)
                 /\ DoOp(op, 1, SubSeq(e, 1, k), 0, FALSE)

\* likewise the numbers of fixed size
CutFixed(b) == \/ \E q \in {<<"short", 2>>, <<"ushort", 2>>, <<"int", 4>>, <<"uint", 4>>, <<"float", 4>>, <<"double", 8>>, <<"time", 8>>} : \E k \in 0..(q[2] - 1) : DoOp(q[1], 0, SubSeq(b, 1, k), 0, FALSE)
               \/ \E k \in 0..7 : DoOp("ints", 2, SubSeq(b, 1, k), 0, FALSE)
               \/ \E d \in Dtypes : \E k \in 0..(2 * d[2] - 1) : DoOp("array", <<d[1], 2>>, SubSeq(b, 1, k), 0, FALSE)

More == Len(hist) < Depth /\ (hist # <<>> => hist[Len(hist)].ok)

Single ==
  /\ Mode = "single" /\ More
  /\ \/ \E q \in Enumerated : q[3] <= q[1] /\ (Uv(EncOf(q)) \/ Sv(EncOf(q)))
     \/ \E n \in 1..9 : \E k \in 0..(n - 1) : \E op \in {"uv", "sv", "uva", "sva"} : \E f \in {0, 255} : Cut(Enc(n, [i \in 1..9 |-> f]), k, op)
     \/ \E f \in {0, 255} : CutFixed([i \in 1..16 |-> f])
     \/ \E f \in F : \E g \in F : LET b == <<f, g, g, f, g, f, f, g>> IN
          \/ Short(SubSeq(b, 1, 2)) \/ UShort(SubSeq(b, 1, 2)) \/ Int32(SubSeq(b, 1, 4)) \/ UInt32(SubSeq(b, 1, 4))
          \/ Int32(<<f, f, g, g>>) \/ UInt32(<<f, f, f, g>>)
          \/ Float(SubSeq(b, 1, 4)) \/ Double(b) \/ Time(b) \/ Ints(2, b)
          \/ \E l \in StrLens : Str([i \in 1..l |-> IF i % 2 = 0 THEN f ELSE g]) \/ VStr([i \in 1..l |-> IF i % 2 = 0 THEN f ELSE g])
          \/ \E d \in Dtypes : \E k \in 0..3 : Array(d[1], d[2], k, [i \in 1..(d[2] * k) |-> IF i % 3 = 0 THEN f ELSE g])

\* (the random choice is one LET so that the bytes in the stream are the ones of the result)
Mix ==
  /\ Mode = "mix" /\ More
  /\ \/ LET e == RandomEnc(0) IN Uv(e) \/ Sv(e)
     \/ LET e == RandomEnc(0) IN Sv(e)
     \/ \E k \in 0..5 : LET es == [i \in 1..k |-> RandomEnc(i)] IN Uva(es) \/ Sva(es)
     \/ LET b == RandomBytes(8) IN Short(SubSeq(b, 1, 2)) \/ UShort(SubSeq(b, 1, 2)) \/ Int32(SubSeq(b, 1, 4)) \/ UInt32(SubSeq(b, 1, 4))
          \/ Float(SubSeq(b, 1, 4)) \/ Double(b) \/ Time(b) \/ Ints(2, b)
     \/ \E l \in StrLens : LET b == RandomBytes(l) IN Str(b) \/ VStr(b)
     \/ \E d \in Dtypes : \E k \in {1, 4} : LET b == RandomBytes(d[2] * k) IN Array(d[1], d[2], k, b)
     \/ /\ Len(hist) = Depth - 1
        /\ LET e == RandomEnc(0) IN \E op \in {"uv", "sv"} : Cut(e, RandomElement(0..(Len(e) - 1)), op)
     \/ Len(hist) = Depth - 1 /\ LET b == RandomBytes(16) IN CutFixed(b)

End == Len(hist) = Depth /\ stream' = stream /\ hist' = Append(hist, [op |-> "end", ok |-> TRUE])
Init == stream = <<>> /\ hist = <<>>
Next == Single \/ Mix \/ (Mode = "mix" /\ End)
Spec == Init /\ [][Next]_vars

(* -------------------------------- properties -------------------------------- *)
LastIs(ops) == hist # <<>> /\ hist[Len(hist)].op \in ops /\ hist[Len(hist)].ok
Last == hist[Len(hist)]
Item == SubSeq(stream, Last.lo + 1, Last.lo + Last.n)
\* decoding inverts the shortest encoding, every encoding announces its length
RoundTrip == LastIs({"uv"}) => /\ ValueOf(Shortest(Last.r)) = Last.r
                               /\ Len(Shortest(Last.r)) <= Last.n
                               /\ EncLength(Item[1]) = Last.n
\* the operations tile the stream
Tiled == \A i \in 1..Len(hist) : hist[i].op = "end" \/
            (IF i = 1 THEN hist[i].lo = 0 ELSE hist[i].lo = hist[i - 1].lo + hist[i - 1].n)
Inv == RoundTrip /\ Tiled
InvSim == Len(hist) > Depth => Tiled

Export == Len(hist) = Depth + (IF Mode = "mix" THEN 1 ELSE 0) =>
            CSVWrite("%1$s", <<ToJson([s |-> stream, hist |-> SubSeq(hist, 1, Depth)])>>, IOEnv.OUT)
=============================================================================
