------------------------------ MODULE Inspect ------------------------------
(* What the tools print which list the objects of a file (C26).

   The file is built object by object; then the listing (structure with the level of
   each object, long runs of the same kind abbreviated) and the statistics (number of
   objects of every type, version and level) are derived step by step while walking
   through the objects which are (completely announced) in the file.               *)
EXTENDS EioFormat, TLC, Json, CSV, IOUtils

CONSTANTS MaxNodes, LabelIds, Repeats, Cuts, Sim

VARIABLES items, ns, cut, rep, at, run, lines, stat, phase
vars == <<items, ns, cut, rep, at, run, lines, stat, phase>>

\* g: type under which the statistics count it
ILabels == << [t |-> 2010, g |-> 2010, c |-> "ArrayEvent"], [t |-> 2201, g |-> 2200, c |-> "TelescopeEvent"], [t |-> 5999, g |-> 5999, c |-> "EventIOObject"],
              [t |-> 2012, g |-> 2012, c |-> "ADCSums"], [t |-> 3207, g |-> 2200, c |-> "TelescopeEvent"], [t |-> 2105, g |-> 2100, c |-> "TrackingPosition"],
              [t |-> 2005, g |-> 2005, c |-> "DisabledPixels"], [t |-> 75, g |-> 75, c |-> "HistoryMeta"], [t |-> 100, g |-> 100, c |-> "Histograms"],
              [t |-> 1204, g |-> 1204, c |-> "TelescopeData"], [t |-> 5998, g |-> 5998, c |-> "EventIOObject"], [t |-> 2000, g |-> 2000, c |-> "RunHeader"],
              [t |-> 1200, g |-> 1200, c |-> "RunHeader"],
              [t |-> 11250, g |-> 2200, c |-> "TelescopeEvent"], [t |-> 11199, g |-> 2100, c |-> "TrackingPosition"] >>
\* objects of the same kind (two classes have the same name)
Kind(l) == IF ILabels[l].t = 1200 THEN "IACT" ELSE ILabels[l].c
Known(l) == ILabels[l].c # "EventIOObject"

RECURSIVE Trees(_, _, _)
Trees(its, i, lvl) ==
  IF i > Len(its) \/ its[i].lvl < lvl THEN <<(<<>>), i>>
  ELSE LET L == ILabels[its[i].l]
           sub == IF its[i].leaf THEN <<(<<>>), i + 1>> ELSE Trees(its, i + 1, lvl + 1)
           rest == Trees(its, sub[2], lvl)
       IN <<<<[t |-> L.t, v |-> its[i].v, id |-> CASE L.t = 2105 -> 5 [] L.t = 11199 -> 231 + 3 * 16777216 [] OTHER -> 100 + i, u |-> 0, x |-> its[i].x, s |-> ~its[i].leaf, n |-> its[i].n, k |-> sub[1]]>> \o rest[1], rest[2]>>

NoRun == [kind |-> "", lvl |-> 0, n |-> 0, known |-> FALSE]
Init == items = <<>> /\ ns = <<>> /\ cut = 0 /\ rep = 0 /\ at = 0 /\ run = NoRun /\ lines = <<>> /\ stat = [x \in {} |-> 0] /\ phase = "build"
Some(S) == RandomElement({x \in S : Len(items) >= 0})

\* (runs of objects of the same kind at different levels are not specified)
Add == /\ phase = "build" /\ Len(items) < MaxNodes
       /\ LET z == items[Len(items)] IN
          \E l \in IF ~Sim THEN LabelIds ELSE IF items # <<>> /\ Some(1..10) <= 6 THEN {z.l} ELSE {Some(LabelIds)} :
          \E lvl \in IF items = <<>> THEN {0} ELSE IF Known(l) /\ Kind(l) = Kind(z.l) THEN {z.lvl} ELSE 0..(z.lvl + (IF z.leaf THEN 0 ELSE 1)) :
          \E leaf \in BOOLEAN :
            items' = Append(items, [lvl |-> lvl, l |-> l, leaf |-> leaf, n |-> IF ~leaf THEN 0 ELSE IF Sim THEN Some(0..4) ELSE 1, x |-> IF Sim THEN Some(1..6) = 1 ELSE FALSE,
                                    v |-> IF Sim THEN Some({0, 0, 1, 9}) ELSE 0])
       /\ UNCHANGED <<ns, cut, rep, at, run, lines, stat, phase>>
Start == /\ phase = "build" /\ items # <<>> /\ (Sim => Len(items) = MaxNodes)
         /\ ns' = Nodes(Trees(items, 1, 0)[1])
         /\ LET size == FileSize(Trees(items, 1, 0)[1]) IN
            cut' \in (IF ~Cuts THEN {size} ELSE IF Sim THEN {IF Some(1..3) = 1 THEN size ELSE Some(4..size)} ELSE 4..size)
         /\ rep' \in IF Sim THEN {Some(Repeats)} ELSE Repeats
         /\ phase' = "walk" /\ at' = 1 /\ UNCHANGED <<items, run, lines, stat>>

Omitted == IF run.n > rep THEN <<[k |-> "more", lvl |-> run.lvl, n |-> run.n - rep]>> ELSE <<>>
Line(i) == [k |-> "obj", lvl |-> ns[i].lvl, n |-> i]
Bump(f, key) == [x \in DOMAIN f \cup {key} |-> IF x = key THEN (IF x \in DOMAIN f THEN f[x] ELSE 0) + 1 ELSE f[x]]
Fits(n) == ns[n].start + ns[n].hsize <= cut
Visit == /\ phase = "walk" /\ at <= Len(ns) /\ Fits(at)
         /\ LET l == items[at].l
                same == run.n > 0 /\ Known(l) /\ run.kind = Kind(l)
                n == IF same THEN run.n + 1 ELSE 1 IN
            /\ run' = [kind |-> Kind(l), lvl |-> ns[at].lvl, n |-> n, known |-> Known(l)]
            /\ lines' = lines \o (IF same THEN <<>> ELSE Omitted) \o (IF n <= rep THEN <<Line(at)>> ELSE <<>>)
            /\ stat' = Bump(stat, <<ILabels[l].g, ns[at].v, ns[at].lvl, ILabels[l].c>>)
         /\ at' = at + 1 /\ UNCHANGED <<items, ns, cut, rep, phase>>
\* the end: of the file, or of what is there
Stop == /\ phase = "walk" /\ (IF at > Len(ns) THEN TRUE ELSE ~Fits(at))
        /\ lines' = lines \o Omitted
        /\ phase' = IF at > Len(ns) \/ (ns[at].lvl = 0 /\ ns[at].start >= cut) THEN "end" ELSE "eof"
        /\ UNCHANGED <<items, ns, cut, rep, at, run, stat>>
Next == Add \/ Start \/ Visit \/ Stop

(* -------------------------------- properties ------------------------------- *)
RECURSIVE SumStat(_)
SumStat(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN stat[x] + SumStat(S \ {x})
Ended == phase \in {"end", "eof"}
\* every object which is there is counted once
Counted == Ended => SumStat(DOMAIN stat) = Cardinality({n \in DOMAIN ns : Fits(n)})
\* every object is either printed or in the number of those omitted; printed in file order
RECURSIVE More(_)
More(ls) == IF ls = <<>> THEN 0 ELSE (IF Head(ls).k = "more" THEN Head(ls).n ELSE 0) + More(Tail(ls))
Listed == SelectSeq(lines, LAMBDA x : x.k = "obj")
Complete == Ended => /\ Len(Listed) + More(lines) = Cardinality({n \in DOMAIN ns : Fits(n)})
                     /\ \A i \in 1..Len(Listed) - 1 : Listed[i].n < Listed[i + 1].n
                     /\ \A i \in DOMAIN lines : lines[i].k = "more" => lines[i].n > 0
\* nothing is omitted if no kind is repeated more often than asked for
Short == (Ended /\ More(lines) > 0) => \E i \in DOMAIN items : Cardinality({j \in DOMAIN items : Kind(items[j].l) = Kind(items[i].l)}) > rep
Inv == Counted /\ Complete /\ Short
Shown(i) == [c |-> ILabels[items[i].l].c, t |-> ns[i].t, v |-> ns[i].v, id |-> ns[i].id, addr |-> ns[i].addr, size |-> ns[i].size, s |-> ns[i].s]
Export == Ended => CSVWrite("%1$s", <<ToJson([file |-> ns, size |-> FileSize(Trees(items, 1, 0)[1]), cut |-> cut, rep |-> rep, eof |-> phase = "eof", lines |-> lines, shown |-> [i \in DOMAIN ns |-> Shown(i)],
                                              stat |-> {[t |-> x[1], v |-> x[2], l |-> x[3], c |-> x[4], n |-> stat[x]] : x \in DOMAIN stat}])>>, IOEnv.OUT)
=============================================================================
