-------------------------------- MODULE Plot --------------------------------
(* The tool which draws histograms (C28).

   A file has top-level objects: blocks of histograms and others.  Every histogram
   is one picture, numbered from 1 in file order; a picture shows the bin contents over
   the bin edges, restricted to the range of bins with contents (everything, if there are none). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxBlocks, MaxHists, Sizes, Values, Sim

VARIABLES file, at, pics, phase
vars == <<file, at, pics, phase>>

\* file: sequence of blocks: sequences of histograms [ty, nx, ny, te, d]; an object of another kind is [other |-> TRUE]
Some(S) == RandomElement({x \in S : Len(file) >= 0})
Types == {"I", "i", "R", "r", "F", "D"}
\* contents of one histogram have the same sign (what is shown of sums which cancel is not specified)
Contents(n) == IF Sim THEN (LET k == Some(1..4) s == Some({1, 1, -1}) IN {[i \in 1..n |-> IF k = 1 THEN 0 ELSE IF k = 2 /\ i # (n + 1) \div 2 THEN 0 ELSE s * Some(Values)]})
               ELSE [1..n -> Values] \cup [1..n -> {-v : v \in Values}]
Init == file = <<>> /\ at = 1 /\ pics = <<>> /\ phase = "build"
NHists == Cardinality({<<i, j>> \in (DOMAIN file) \X (1..MaxHists) : file[i].other = FALSE /\ j <= Len(file[i].h)})
AddBlock == phase = "build" /\ Len(file) < MaxBlocks /\ file' = Append(file, [other |-> FALSE, h |-> <<>>]) /\ UNCHANGED <<at, pics, phase>>
AddOther == phase = "build" /\ Len(file) < MaxBlocks /\ file' = Append(file, [other |-> TRUE, h |-> <<>>]) /\ UNCHANGED <<at, pics, phase>>
AddHist == /\ phase = "build" /\ file # <<>> /\ ~file[Len(file)].other /\ NHists < MaxHists
           /\ \E ty \in (IF Sim THEN {Some(Types)} ELSE {"I", "F"}), nx \in (IF Sim THEN {Some(Sizes)} ELSE Sizes), ny \in (IF Sim THEN {IF Some({1, 2}) = 1 THEN 0 ELSE Some(Sizes)} ELSE {0, 2}), te \in BOOLEAN :
              \E d \in Contents(nx * (IF ny = 0 THEN 1 ELSE ny)) :
                /\ (~te => \A i \in DOMAIN d : d[i] = 0)
                /\ file' = [file EXCEPT ![Len(file)].h = Append(@, [ty |-> ty, nx |-> nx, ny |-> ny, te |-> te, d |-> d])]
           /\ UNCHANGED <<at, pics, phase>>
Begin == phase = "build" /\ NHists > 0 /\ (Sim => Len(file) = MaxBlocks) /\ phase' = "draw" /\ UNCHANGED <<file, at, pics>>

\* marginal sums and the range of bins (first, last) which are not empty
Row(h, y) == [x \in 1..h.nx |-> h.d[(y - 1) * h.nx + x]]
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
MargX(h) == IF h.ny = 0 THEN h.d ELSE [x \in 1..h.nx |-> SumTo([y \in 1..h.ny |-> Row(h, y)[x]], h.ny)]
MargY(h) == [y \in 1..h.ny |-> SumTo(Row(h, y), h.nx)]
Filled(m) == {i \in DOMAIN m : m[i] # 0}
Span(m) == IF Filled(m) = {} THEN <<1, Len(m)>> ELSE <<CHOOSE i \in Filled(m) : \A j \in Filled(m) : i <= j, CHOOSE i \in Filled(m) : \A j \in Filled(m) : i >= j>>
Pic(b, j) == LET h == file[b].h[j] IN [b |-> b, j |-> j, x |-> Span(MargX(h)), y |-> IF h.ny = 0 THEN <<0, 0>> ELSE Span(MargY(h)), rows |-> IF h.ny = 0 THEN <<h.d>> ELSE [y \in 1..h.ny |-> Row(h, y)]]
Draw == /\ phase = "draw" /\ at <= Len(file)
        /\ pics' = pics \o (IF file[at].other THEN <<>> ELSE [j \in 1..Len(file[at].h) |-> Pic(at, j)])
        /\ at' = at + 1 /\ UNCHANGED <<file, phase>>
Finish == phase = "draw" /\ at > Len(file) /\ phase' = "end" /\ UNCHANGED <<file, at, pics>>
Next == AddBlock \/ AddOther \/ AddHist \/ Begin \/ Draw \/ Finish

AllDrawn == phase = "end" => Len(pics) = NHists
NothingHidden == phase = "end" => \A i \in DOMAIN pics : LET h == file[pics[i].b].h[pics[i].j] m == MargX(h) IN \A x \in DOMAIN m : m[x] # 0 => x >= pics[i].x[1] /\ x <= pics[i].x[2]
Inv == AllDrawn /\ NothingHidden
Export == phase = "end" => CSVWrite("%1$s", <<ToJson([file |-> file, pics |-> pics])>>, IOEnv.OUT)
=============================================================================
