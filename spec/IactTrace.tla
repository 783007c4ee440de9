----------------------------- MODULE IactTrace -----------------------------
(* The block sequences of real CORSIKA files, read by the reader of Iact. *)
EXTENDS Iact

Given == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE no
TraceInit == /\ no \in 1..Len(Given) /\ file = <<>> /\ split = FALSE /\ left = 0 /\ phase = "head" /\ cut = [at |-> 0, how |-> ""] /\ mut = <<>> /\ rd = NoRd /\ hist = <<>>
Load == /\ phase = "head" /\ phase' = "use"
        /\ file' = Given[no].file
        /\ \E c \in IF Cuts THEN [at : 1..Len(Given[no].file), how : {"between", "header", "payload"}] ELSE {cut} : cut' = c
        /\ LET c == IF cut'.at > 0 THEN cut'.at - 1 ELSE Len(file') IN rd' = [rd EXCEPT !.pos = HeadEnd(file', c)]
        /\ UNCHANGED <<split, left, mut, hist, no>>
Closed == phase = "use" /\ First = 0 /\ phase' = "end" /\ UNCHANGED <<file, split, left, cut, mut, rd, hist, no>>
TraceNext == Load \/ Closed \/ (First > 0 /\ (Use \/ End) /\ UNCHANGED no)
TraceExport == phase = "end" =>
  CSVWrite("%1$s", <<ToJson([no |-> no, cut |-> cut, mut |-> mut, opened |-> First, openfail |-> IF First = 0 THEN OpenFails(file, C) ELSE "",
                             events |-> IF First = 0 THEN <<>> ELSE Total.ev, hist |-> hist])>>, IOEnv.OUT)
=============================================================================
