----------------------------- MODULE Lifecycle -----------------------------
(* Descriptors and child processes of open files (C08).

   A slot is a variable of the user's program which may hold a file object.  Opening
   acquires resources (a descriptor; for gzip through a child process a child and its
   pipes), which are released by close, by leaving a with block (normally or by an
   exception), when the last reference is dropped, and by a constructor that raises.
   res is the set of slots of which resources exist.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization

CONSTANTS Slots, Classes, Forms, Sim, Depth
VARIABLES slot, res, hist, phase
vars == <<slot, res, hist, phase>>

\* contents of the file
Good == {"good", "torn"}                        \* can be opened by the class; torn: ends in the middle of an object
Bad == {"foreign", "broken", "shorthead", "wrongobj", "bigendian"}
NoFile == [st |-> "none", cls |-> "", form |-> "", ct |-> "", n |-> 0, w |-> FALSE]
Some(S) == RandomElement({x \in S : Len(hist) >= 0})
Ok(cls, ct) == ct \in Good \/ (cls = "EventIOFile" /\ ct \in {"shorthead", "wrongobj", "bigendian"})

Init == slot = [s \in Slots |-> NoFile] /\ res = {} /\ hist = <<>> /\ phase = "use"
Log(op, s, x) == hist' = Append(hist, [op |-> op, s |-> s, x |-> x, res |-> res'])
Opens == IF Sim THEN {[cls |-> Some(Classes), form |-> Some(Forms), ct |-> Some(Good \cup Good \cup {"good2", "good3"} \cup Bad), w |-> Some(BOOLEAN)]}
         ELSE [cls : Classes, form : Forms, ct : Good \cup Bad, w : BOOLEAN]
Ct(c) == IF c \in {"good2", "good3"} THEN "good" ELSE c
\* opening into a slot drops what was there before
Open(s) == \E o \in Opens :
  LET ok == Ok(o.cls, Ct(o.ct)) IN
  /\ (slot[s].st # "none" => ok /\ ~o.w /\ ~slot[s].w)
  /\ slot' = [slot EXCEPT ![s] = IF ok THEN [st |-> "open", cls |-> o.cls, form |-> o.form, ct |-> Ct(o.ct), n |-> 0, w |-> o.w] ELSE NoFile]
  /\ res' = IF ok THEN res \cup {s} ELSE res
  /\ Log("open", s, [cls |-> o.cls, form |-> o.form, ct |-> Ct(o.ct), ok |-> ok, w |-> o.w])
Read(s) == /\ slot[s].st = "open" /\ slot[s].n < 9
           /\ slot' = [slot EXCEPT ![s].n = @ + 1] /\ res' = res /\ Log("read", s, [n |-> slot[s].n + 1])
\* reading to the end keeps the file open
Exhaust(s) == /\ slot[s].st = "open" /\ slot[s].n < 90
              /\ slot' = [slot EXCEPT ![s].n = 99] /\ res' = res /\ Log("exhaust", s, [n |-> 99])
Close(s) == /\ slot[s].st \in {"open", "closed"} /\ ~slot[s].w
            /\ slot' = [slot EXCEPT ![s].st = "closed"] /\ res' = res \ {s} /\ Log("close", s, [n |-> 0])
\* end of a with block, x.exc: by an exception (of any kind)
Exits == {"", "Error", "EOF", "Interrupt", "Exit", "GeneratorExit"}
Leave(s) == /\ slot[s].st = "open" /\ slot[s].w
            /\ slot' = [slot EXCEPT ![s].st = "closed", ![s].w = FALSE] /\ res' = res \ {s}
            /\ \E e \in IF Sim THEN {Some(Exits)} ELSE {"", "Error", "Interrupt"} : Log("leave", s, [exc |-> e])
\* close inside of the with block
CloseIn(s) == /\ slot[s].st = "open" /\ slot[s].w
              /\ slot' = [slot EXCEPT ![s].st = "closed"] /\ res' = res \ {s} /\ Log("close", s, [n |-> 0])
LeaveClosed(s) == /\ slot[s].st = "closed" /\ slot[s].w
                  /\ slot' = [slot EXCEPT ![s].w = FALSE] /\ res' = res /\ Log("leave", s, [exc |-> ""])
Drop(s) == /\ slot[s].st # "none" /\ ~slot[s].w
           /\ slot' = [slot EXCEPT ![s] = NoFile] /\ res' = res \ {s} /\ Log("drop", s, [n |-> 0])
Next == \/ /\ phase = "use" /\ Len(hist) < Depth /\ phase' = "use"
           /\ \E s \in IF Sim THEN {Some(Slots)} ELSE Slots :
                \/ /\ (IF Sim THEN slot[s].st = "none" \/ Some(1..6) = 1 ELSE hist = <<>>)
                   /\ Open(s)
                \/ Read(s) \/ Exhaust(s)
                \/ ((Sim => Some(1..2) = 1) /\ Close(s))
                \/ Leave(s) \/ CloseIn(s) \/ LeaveClosed(s) \/ Drop(s)
        \/ /\ phase = "use" /\ (Len(hist) = Depth \/ (~Sim /\ hist # <<>> /\ \A s \in Slots : slot[s].st = "none")) /\ phase' = "end" /\ UNCHANGED <<slot, res, hist>>
Owned == res = {s \in Slots : slot[s].st = "open"}                \* nothing left behind, nothing taken from an open file
Others == \A i \in 2..Len(hist) : \A s \in Slots : s # hist[i].s => (s \in hist[i].res <=> s \in hist[i - 1].res)
Inv == Owned /\ (phase = "end" => Others)
Export == phase = "end" => CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
=============================================================================
