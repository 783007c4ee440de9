------------------------------ MODULE EioGate ------------------------------
(* What is accepted as eventio data (C07).

   A file consists of N top-level objects; object i is preceded by the four bytes
   mark[i].  Opening looks at the first four bytes, every access to an object at its
   marker.  Only the little-endian marker is read, the big-endian marker is refused
   with NotImplementedError, everything else with ValueError.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS N,        \* number of objects
          Where,    \* candidates for the object with the unusual marker
          Depth,    \* operations
          Words     \* "all" | "few": unusual markers

LE == <<55, 138, 31, 212>>
BE == <<212, 31, 138, 55>>
Other == <<0, 137, 30, 211>>
\* every byte is that of the little-endian marker, of the big-endian one or another one
Marks == {<<a, b, c, d>> : a \in {55, 212, 0, 54}, b \in {138, 31, 137}, c \in {31, 138, 30}, d \in {212, 55, 211, 255}} \ {LE}
Foreign == Marks \cup {<<31, 139, 8, 0>>, <<40, 181, 47, 253>>, <<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<10, 10, 10, 10>>, <<31, 212, 55, 138>>}
Few == {BE, <<55, 138, 31, 211>>, <<0, 138, 31, 212>>, <<212, 138, 31, 55>>, <<0, 0, 0, 0>>, <<138, 31, 212, 0>>}
Strange == IF Words = "all" THEN Foreign ELSE Few

VARIABLES mark, size, opened, pos, stuck, peeked, hist, phase
vars == <<mark, size, opened, pos, stuck, peeked, hist, phase>>
\* size: number of bytes which exist at all (-1: the whole file)
Init ==
  /\ \/ \E i \in Where : \E m \in Strange : mark = [j \in 1..N |-> IF j = i THEN m ELSE LE] /\ size = -1
     \/ mark = [j \in 1..N |-> LE] /\ size = -1
     \* short files: the first 0..4 bytes of a marker
     \/ \E m \in Strange \cup {LE} : \E s \in 0..3 : 1 \in Where /\ mark = [j \in 1..N |-> IF j = 1 THEN m ELSE LE] /\ size = s
  /\ opened = "no" /\ pos = 0 /\ stuck = "" /\ peeked = FALSE /\ hist = <<>> /\ phase = "use"

\* the file announces to be compressed by its first bytes
Magic(m) == (m[1] = 31 /\ m[2] = 139 /\ (size < 0 \/ size >= 2)) \/ (m = <<40, 181, 47, 253>> /\ size < 0)
Verdict(m) == IF m = LE THEN "ok" ELSE IF m = BE THEN "big" ELSE "bad"
Open == /\ opened = "no" /\ phase = "use"
        /\ opened' = IF Magic(mark[1]) THEN "refused" ELSE IF size >= 0 \/ Verdict(mark[1]) = "bad" THEN "bad" ELSE "yes"
        /\ UNCHANGED <<mark, size, pos, stuck, peeked, hist, phase>>

Op(o, k) == hist' = Append(hist, [op |-> o, k |-> k, i |-> IF k = "obj" THEN pos + 1 ELSE 0])
See == IF pos = N THEN "stop" ELSE LET v == Verdict(mark[pos + 1]) IN IF v = "ok" THEN "obj" ELSE v
Read == /\ opened = "yes" /\ Len(hist) < Depth
        /\ LET k == IF peeked THEN "obj" ELSE See IN
           /\ Op("next", k) /\ pos' = IF k = "obj" THEN pos + 1 ELSE pos
           /\ stuck' = IF k \in {"big", "bad"} THEN k ELSE stuck
        /\ peeked' = FALSE /\ UNCHANGED <<mark, size, opened, phase>>
Peek == /\ opened = "yes" /\ Len(hist) < Depth
        /\ LET k == IF peeked THEN "obj" ELSE See IN Op("peek", IF k = "stop" THEN "none" ELSE k) /\ peeked' = (k = "obj")
        /\ stuck' = IF See \in {"big", "bad"} THEN See ELSE stuck
        /\ UNCHANGED <<mark, size, opened, pos, phase>>
End == phase = "use" /\ opened # "no" /\ (opened = "yes" => Len(hist) = Depth) /\ phase' = "end" /\ UNCHANGED <<mark, size, opened, pos, stuck, peeked, hist>>
Next == Open \/ Read \/ Peek \/ End

\* no object behind or with a wrong marker is delivered, and the refusal is permanent
Gate == \A h \in 1..Len(hist) : hist[h].k = "obj" => \A j \in 1..hist[h].i : mark[j] = LE
Permanent == stuck # "" => (pos + 1 <= N /\ mark[pos + 1] # LE /\ See = stuck)
Closed == opened = "yes" => mark[1] \in {LE, BE} /\ size = -1
Inv == Gate /\ Permanent /\ Closed
Export == phase = "end" => CSVWrite("%1$s", <<ToJson([mark |-> mark, size |-> size, opened |-> opened, hist |-> hist])>>, IOEnv.OUT)
=============================================================================
