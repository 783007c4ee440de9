------------------------------ MODULE MetaTools ------------------------------
(* The tools which print the history and the meta parameters of a file (C26).

   A file: history blocks (each with entries), then meta parameter blocks (for the
   whole array, id -1, or a telescope), then the data; other objects may stand before
   the meta blocks.  History is printed entry by entry until the first other object;
   of several meta blocks for the same telescope the last one counts.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxHist, MaxEntries, Ids, MaxMeta, Sim, Modes

VARIABLES file, at, printed, meta, mode, phase
vars == <<file, at, printed, meta, mode, phase>>
\* file: sequence of [k |-> "hist", n |-> number of entries] | [k |-> "meta", id, n |-> number of items] | [k |-> "other"]

Some(S) == RandomElement({x \in S : phase # "x"})
NoMode == [m |-> "", a |-> 0, b |-> 0]
Init == file = <<>> /\ at = 0 /\ printed = <<>> /\ meta = <<>> /\ mode = NoMode /\ phase = "hist"

Count(k) == Cardinality({i \in DOMAIN file : file[i].k = k})
AddHist == /\ phase = "hist" /\ Count("hist") < MaxHist
           /\ \E n \in (IF Sim THEN {Some(0..MaxEntries)} ELSE 0..MaxEntries) : file' = Append(file, [k |-> "hist", id |-> 0, n |-> n])
           /\ UNCHANGED <<at, printed, meta, mode, phase>>
AddOther == /\ phase \in {"hist", "meta"} /\ Len(SelectSeq(file, LAMBDA x : x.k = "other")) < 2
            /\ file' = Append(file, [k |-> "other", id |-> 0, n |-> 0])
            /\ phase' = IF phase = "hist" /\ Count("meta") = 0 /\ (Sim => Some(1..2) = 1) THEN "other" ELSE "data"
            /\ UNCHANGED <<at, printed, meta, mode>>
AddMeta == /\ phase \in {"hist", "other", "meta"} /\ Count("meta") < MaxMeta
           /\ \E id \in (IF Sim THEN {Some(Ids)} ELSE Ids), n \in (IF Sim THEN {Some(0..4)} ELSE {0, 2}) : file' = Append(file, [k |-> "meta", id |-> id, n |-> n])
           /\ phase' = "meta" /\ UNCHANGED <<at, printed, meta, mode>>
\* what is asked for: all parameters as text or JSON, or how two telescopes differ, or the history
Ask == /\ phase \in {"hist", "other", "meta", "data"} /\ file # <<>>
       /\ \E m \in (IF Sim THEN {Some(Modes)} ELSE Modes) :
            \/ m # "diff" /\ mode' = [m |-> m, a |-> 0, b |-> 0]
            \/ m = "diff" /\ \E a, b \in {file[i].id : i \in {j \in DOMAIN file : file[j].k = "meta" /\ file[j].id # -1}} : mode' = [m |-> m, a |-> a, b |-> b]
       /\ phase' = "run" /\ at' = 1 /\ UNCHANGED <<file, printed, meta>>

(* walking through the file *)
IsHist == mode.m = "history"
ReadHist == /\ phase = "run" /\ IsHist /\ at <= Len(file) /\ file[at].k = "hist"
            /\ printed' = printed \o [j \in 1..file[at].n |-> <<at, j>>]
            /\ at' = at + 1 /\ UNCHANGED <<file, meta, mode, phase>>
SetMeta(s, id, i) == IF \E j \in DOMAIN s : s[j][1] = id THEN [j \in DOMAIN s |-> IF s[j][1] = id THEN <<id, i>> ELSE s[j]] ELSE Append(s, <<id, i>>)
ReadMeta == /\ phase = "run" /\ ~IsHist /\ at <= Len(file)
            /\ IF file[at].k = "meta" THEN meta' = SetMeta(meta, file[at].id, at) /\ at' = at + 1
               ELSE IF meta = <<>> THEN meta' = meta /\ at' = at + 1
               ELSE meta' = meta /\ at' = Len(file) + 1
            /\ UNCHANGED <<file, printed, mode, phase>>
Finish == /\ phase = "run" /\ (IF at > Len(file) THEN TRUE ELSE IsHist /\ file[at].k # "hist")
          /\ phase' = "end" /\ UNCHANGED <<file, at, printed, meta, mode>>
Next == AddHist \/ AddOther \/ AddMeta \/ Ask \/ ReadHist \/ ReadMeta \/ Finish

(* properties: nothing lost, nothing invented *)
LastMeta(id) == CHOOSE i \in DOMAIN file : file[i].k = "meta" /\ file[i].id = id /\ \A j \in DOMAIN file : file[j].k = "meta" /\ file[j].id = id => j <= i
AllMeta == (phase = "end" /\ ~IsHist) => {<<m[1], m[2]>> : m \in {meta[i] : i \in DOMAIN meta}} = {<<id, LastMeta(id)>> : id \in {file[i].id : i \in {j \in DOMAIN file : file[j].k = "meta"}}}
LeadHist == {i \in DOMAIN file : \A j \in 1..i : file[j].k = "hist"}
AllHist == (phase = "end" /\ IsHist) =>
  /\ {printed[i] : i \in DOMAIN printed} = {p \in LeadHist \X (1..MaxEntries) : p[2] <= file[p[1]].n}
  /\ \A i \in 1..Len(printed) - 1 : printed[i][1] < printed[i + 1][1] \/ (printed[i][1] = printed[i + 1][1] /\ printed[i][2] < printed[i + 1][2])
Inv == AllMeta /\ AllHist
Export == phase = "end" => CSVWrite("%1$s", <<ToJson([file |-> file, mode |-> mode, printed |-> printed, meta |-> meta])>>, IOEnv.OUT)
=============================================================================
