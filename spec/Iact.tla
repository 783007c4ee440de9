-------------------------------- MODULE Iact --------------------------------
(* Events of a CORSIKA/IACT file (C13, C14, the structural part of C07).

   A file is a sequence of top-level blocks [k, id, x]; contents are abstract and
   referred to by place: <<n>>, or <<n, j>> for the j-th sub-object of block n.
     RH run header, IC input card, AP atmosphere (optional), TD telescope positions,
     per shower: EH event header, AO array offsets (x.n re-uses, x.w: with weights),
     optional LO longitudinal data, PT particles at ground level,
     per re-use one TT telescope data container (x: its sub-objects) or
     TH, PH ..., TE (split mode); EE event end.   RE run end, XX anything else.

   Declared says what the property demands, as a function of the file alone.
   The reader is the machine rd with the operations of the public interface:
   iter (a new iteration), nev (its next event), nobj and peek (low-level access). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization

CONSTANTS Sim,         \* TRUE: random files and histories
          MaxShowers,
          Reuses,      \* candidates for the number of re-uses of a shower
          Ops,         \* operations besides the plain iteration; {}: only the iteration
          Depth,       \* number of operations
          Cuts,        \* TRUE: the file is cut
          Mutants      \* TRUE: the sequence of blocks is damaged

VARIABLES file, split, left, phase, cut, mut, rd, hist
vars == <<file, split, left, phase, cut, mut, rd, hist>>

Blk(k, id, x) == [k |-> k, id |-> id, x |-> x]
Simple(k) == Blk(k, 0, <<>>)
Some(S) == RandomElement({x \in S : Len(file) + Len(hist) >= 0})
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Perms(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}

-----------------------------------------------------------------------------
\* what the property demands of the events of a well-formed file
Kth(f, k, a, z) == {i \in (a + 1)..(z - 1) : f[i].k = k}
Min(S) == CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Sorted(S \ {Min(S)})
Opt(S) == IF S = {} THEN <<>> ELSE <<Min(S)>>

\* telescope -> place of its photon bunches; data of re-use r of the shower in blocks p..e
PhotonsOf(f, p, e, r) ==
  IF Kth(f, "TT", p, e) # {}
  THEN LET n == Sorted(Kth(f, "TT", p, e))[r] IN {[k |-> f[n].x[j].tel, r |-> <<n, j>>] : j \in {i \in 1..Len(f[n].x) : f[n].x[i].k = "PH"}}
  ELSE LET a == Sorted(Kth(f, "TH", p, e))[r]
           z == Sorted(Kth(f, "TE", p, e))[r] IN {[k |-> f[n].x[1].tel, r |-> <<n>>] : n \in Kth(f, "PH", a, z)}
Event(f, p, e, r) ==
  [header |-> <<p>>, off |-> <<p + 1>>, r |-> r, w |-> f[p + 1].x.w, lo |-> Opt(Kth(f, "LO", p, e)), pt |-> Opt(Kth(f, "PT", p, e)),
   end |-> <<e>>, ph |-> PhotonsOf(f, p, e, r)]
\* the first c blocks are complete
Declared(f, c) ==
  LET ps == Sorted(Kth(f, "EH", 0, c + 1))
      ends(p) == Kth(f, "EE", p, c + 1) IN
  Cat([i \in 1..Len(ps) |-> IF ends(ps[i]) = {} THEN <<>>
                            ELSE [r \in 1..f[ps[i] + 1].x.n |-> Event(f, ps[i], Min(ends(ps[i])), r)]])

-----------------------------------------------------------------------------
\* the reader of one shower: from block p (already read) on; c complete blocks
K(f, c, i) == IF i > c THEN "EOF" ELSE f[i].k
Out(k, ev, p) == [k |-> k, ev |-> ev, p |-> p]
Bad(f, c, i) == Out(IF K(f, c, i) = "EOF" THEN "eof" ELSE "err", <<>>, i)

\* blocks before the telescope data: <<place of the data or of the offending block, lo, pt, bad>>
RECURSIVE Skip(_, _, _, _, _)
Skip(f, c, i, lo, pt) ==
  LET k == K(f, c, i) IN
  CASE k \in {"TT", "TH"} -> [i |-> i, lo |-> lo, pt |-> pt, bad |-> FALSE]
    [] k \in {"EOF", "PH", "EH", "EE", "RE"} -> [i |-> i, lo |-> lo, pt |-> pt, bad |-> TRUE]
    [] k = "LO" -> Skip(f, c, i + 1, <<i>>, pt)
    [] k = "PT" -> Skip(f, c, i + 1, lo, <<i>>)
    [] OTHER -> Skip(f, c, i + 1, lo, pt)
RECURSIVE InSplit(_, _, _)
InSplit(f, c, i) == IF K(f, c, i) = "PH" THEN InSplit(f, c, i + 1) ELSE i
\* re-uses r..n at block i: sequence of photon maps and the place after them, or the offending block
RECURSIVE ReadReuses(_, _, _, _, _, _)
ReadReuses(f, c, i, r, n, sp) ==
  IF r > n THEN [i |-> i, ph |-> <<>>, bad |-> FALSE]
  ELSE IF K(f, c, i) # (IF sp THEN "TH" ELSE "TT") THEN [i |-> i, ph |-> <<>>, bad |-> TRUE]
  ELSE LET e == IF sp THEN InSplit(f, c, i + 1) ELSE i
           here == IF sp THEN {[k |-> f[j].x[1].tel, r |-> <<j>>] : j \in (i + 1)..(e - 1)}
                   ELSE {[k |-> f[i].x[j].tel, r |-> <<i, j>>] : j \in {q \in 1..Len(f[i].x) : f[i].x[q].k = "PH"}} IN
       IF sp /\ K(f, c, e) # "TE" THEN [i |-> e, ph |-> <<>>, bad |-> TRUE]
       ELSE LET rest == ReadReuses(f, c, e + 1, r + 1, n, sp) IN [rest EXCEPT !.ph = <<here>> \o @]
Shower(f, c, p) ==
  LET k == K(f, c, p + 1) IN
  IF k = "RE" THEN Out("end", <<>>, p + 1)
  ELSE IF k # "EH" THEN Bad(f, c, p + 1)
  ELSE IF K(f, c, p + 2) # "AO" THEN Bad(f, c, p + 2)
  ELSE LET s == Skip(f, c, p + 3, <<>>, <<>>) IN
       IF s.bad THEN Bad(f, c, s.i)
       ELSE LET n == f[p + 2].x.n
                q == ReadReuses(f, c, s.i, 1, n, f[s.i].k = "TH") IN
            IF q.bad THEN Bad(f, c, q.i)
            ELSE IF K(f, c, q.i) # "EE" THEN Bad(f, c, q.i)
            ELSE Out("ev", [r \in 1..n |-> [header |-> <<p + 1>>, off |-> <<p + 2>>, r |-> r, w |-> f[p + 2].x.w, lo |-> s.lo, pt |-> s.pt,
                                            end |-> <<q.i>>, ph |-> q.ph[r]]], q.i)

\* place of the last block of the header, 0 if the header is not that of an IACT file; what opening gives
HeadEnd(f, c) == IF K(f, c, 1) = "RH" /\ K(f, c, 2) = "IC" /\ K(f, c, 3) = "TD" THEN 3
                 ELSE IF K(f, c, 1) = "RH" /\ K(f, c, 2) = "IC" /\ K(f, c, 3) = "AP" /\ K(f, c, 4) = "TD" THEN 4 ELSE 0
OpenFails(f, c) == LET ok(i) == IF i = 1 THEN {"RH"} ELSE IF i = 2 THEN {"IC"} ELSE IF i = 3 THEN {"AP", "TD"} ELSE {"TD"}
                       b == Min({i \in 1..4 : K(f, c, i) \notin ok(i)}) IN IF K(f, c, b) = "EOF" THEN "eof" ELSE "err"

\* all events of one iteration, and how it ends
RECURSIVE AllFrom(_, _, _)
AllFrom(f, c, p) == LET s == Shower(f, c, p) IN
                    IF s.k = "ev" THEN LET rest == AllFrom(f, c, s.p) IN [ev |-> s.ev \o rest.ev, k |-> rest.k]
                    ELSE [ev |-> <<>>, k |-> s.k]

-----------------------------------------------------------------------------
\* the writer
HeadOf(ap) == <<Simple("RH"), Simple("IC")>> \o (IF ap THEN <<Simple("AP")>> ELSE <<>>) \o <<Simple("TD")>>
Elem(k, tel) == [k |-> k, tel |-> tel]
TelLists == IF Sim THEN {Cat([i \in 1..Len(t) |-> (IF Some(1..6) = 1 THEN <<Elem(Some({"PE", "XX"}), 1)>> ELSE <<>>) \o <<Elem("PH", t[i])>>])
                         : t \in {Some(UNION {Perms(S) : S \in SUBSET Some({{0}, {0, 1}, {5, 1, 2}, {0, 998}, {7, 100, 300, 255}})})}}
            ELSE {<<>>, <<Elem("PH", 0)>>, <<Elem("PH", 1), Elem("XX", 1), Elem("PH", 0)>>}
\* showers: options and the telescopes of the re-uses
DataBlocks(lists, sp) == Cat([r \in 1..Len(lists) |->
   IF sp THEN LET ph == SelectSeq(lists[r], LAMBDA e : e.k = "PH") IN <<Blk("TH", r - 1, <<>>)>> \o [i \in 1..Len(ph) |-> Blk("PH", r - 1, <<ph[i]>>)] \o <<Blk("TE", r - 1, <<>>)>>
   ELSE <<Blk("TT", r - 1, lists[r])>>])
ShowerBlocks(id, w, lo, pt, xx, lists, sp) ==
  <<Blk("EH", id, <<>>), Blk("AO", id, [n |-> Len(lists), w |-> w])>>
  \o (IF xx = 1 THEN <<Simple("XX")>> ELSE <<>>)
  \o (IF lo THEN <<Blk("LO", id, <<>>)>> ELSE <<>>) \o (IF pt THEN <<Blk("PT", id, <<>>)>> ELSE <<>>)
  \o (IF xx = 2 THEN <<Simple("XX")>> ELSE <<>>)
  \o DataBlocks(lists, sp) \o <<Blk("EE", id, <<>>)>>
Showers(id) ==
  IF Sim THEN {ShowerBlocks(id, Some(BOOLEAN), Some(BOOLEAN), Some(1..3) = 1, Some(0..4), l, split) : l \in {[i \in 1..Some(Reuses) |-> CHOOSE t \in TelLists : i > 0]}}
  ELSE {ShowerBlocks(id, w, lo, pt, 0, l, split) : w \in BOOLEAN, lo \in BOOLEAN, pt \in BOOLEAN, l \in UNION {[1..n -> TelLists] : n \in Reuses}}

NoRd == [pos |-> 0, nx |-> 0, gens |-> 0, act |-> 0, used |-> {}, buf |-> <<>>, dead |-> FALSE, runend |-> FALSE, touched |-> FALSE, lost |-> FALSE, perr |-> FALSE]
Init == /\ file = <<>> /\ split = FALSE /\ left = 0 /\ phase = "head" /\ cut = [at |-> 0, how |-> ""] /\ mut = <<>> /\ rd = NoRd /\ hist = <<>>
WriteHead == /\ phase = "head" /\ phase' = "showers"
             /\ \E ap \in IF Sim THEN {Some(BOOLEAN)} ELSE BOOLEAN : file' = HeadOf(ap)
             /\ \E s \in IF Sim THEN {Some(BOOLEAN)} ELSE BOOLEAN : split' = s
             /\ \E n \in IF Sim THEN {Some(0..MaxShowers)} ELSE 0..MaxShowers : left' = n
             /\ UNCHANGED <<cut, mut, rd, hist>>
WriteShower == /\ phase = "showers" /\ left > 0 /\ left' = left - 1
               /\ \E s \in Showers(left * 10 + Len(file)) : file' = file \o s
               /\ UNCHANGED <<split, phase, cut, mut, rd, hist>>

\* damage: <<"del", i>>, <<"dup", i>>, <<"rep", i, kind>>
Kinds == {"RH", "IC", "AP", "TD", "EH", "AO", "LO", "PT", "TT", "TH", "PH", "TE", "EE", "RE", "XX"}
NewBlk(k) == CASE k = "AO" -> Blk("AO", 7, [n |-> 1, w |-> FALSE]) [] k = "PH" -> LET q == IF Sim THEN Some({<<0, 3>>, <<999, 3>>, <<0, 999>>}) ELSE <<0, 3>> IN Blk("PH", q[1], <<Elem("PH", q[2])>>) [] k = "TT" -> Blk("TT", 0, <<Elem("PH", 3)>>)
               [] OTHER -> Blk(k, 7, <<>>)
Damages(f) == {<<"del", i, "">> : i \in 1..Len(f)} \cup {<<"dup", i, "">> : i \in {j \in 1..Len(f) : f[j].k \notin {"LO", "PT", "PH"}}}
              \cup {<<"rep", i, k>> : i \in 1..Len(f), k \in Kinds \ {"PT"}} \cup {<<"ins", i, k>> : i \in 1..Len(f), k \in Kinds \ {"LO", "PT"}}
Damage(f, d) == CASE d[1] = "del" -> SubSeq(f, 1, d[2] - 1) \o SubSeq(f, d[2] + 1, Len(f))
                  [] d[1] = "dup" -> SubSeq(f, 1, d[2]) \o SubSeq(f, d[2], Len(f))
                  [] d[1] = "rep" -> [f EXCEPT ![d[2]] = NewBlk(d[3])]
                  [] d[1] = "ins" -> SubSeq(f, 1, d[2] - 1) \o <<NewBlk(d[3])>> \o SubSeq(f, d[2], Len(f))
Finish ==
  /\ phase = "showers" /\ left = 0
  /\ LET full == Append(file, Simple("RE")) IN
     /\ \E d \in IF ~Mutants THEN {<<>>} ELSE IF Sim THEN {Some(Damages(full))} ELSE Damages(full) :
          /\ mut' = d /\ file' = IF d = <<>> THEN full ELSE Damage(full, d)
     /\ \E c \in IF ~Cuts THEN {[at |-> 0, how |-> ""]}
                 ELSE IF Sim THEN {Some([at : 1..Len(full), how : {"between", "header", "payload"}])}
                 ELSE [at : 1..Len(full), how : {"between", "header", "payload"}] : cut' = c
  /\ LET c == IF cut'.at > 0 THEN cut'.at - 1 ELSE Len(file')
         h == HeadEnd(file', c) IN
     /\ rd' = [rd EXCEPT !.pos = h]
     /\ phase' = IF h = 0 THEN "end" ELSE "use"
  /\ UNCHANGED <<split, left, hist>>

-----------------------------------------------------------------------------
\* the use of the reader
C == IF cut.at > 0 THEN cut.at - 1 ELSE Len(file)
First == HeadEnd(file, C)
Total == AllFrom(file, C, First)
R(k, i) == [k |-> k, i |-> i]
Op(o, g, r, bw) == hist' = Append(hist, [op |-> o, g |-> g, r |-> r, bw |-> bw, runend |-> rd'.runend])

Iter == /\ rd' = [rd EXCEPT !.gens = @ + 1]
        /\ Op("iter", rd.gens + 1, R("ok", 0), FALSE)

\* index of an event in the sequence of all events
Index(e) == CHOOSE i \in 1..Len(Total.ev) : Total.ev[i] = e
Deliver(s, g, bw) ==
  IF s.buf # <<>> THEN /\ rd' = [s EXCEPT !.buf = Tail(@)] /\ Op("nev", g, R("event", Index(Head(s.buf))), bw)
  ELSE IF s.dead THEN /\ rd' = s /\ Op("nev", g, R("stop", 0), bw)
  ELSE LET q == Shower(file, C, s.pos) IN
       CASE q.k = "ev" -> /\ rd' = [s EXCEPT !.pos = q.p, !.nx = 0, !.buf = Tail(q.ev)] /\ Op("nev", g, R("event", Index(Head(q.ev))), bw)
         [] q.k = "end" -> /\ rd' = [s EXCEPT !.pos = q.p, !.nx = 0, !.dead = TRUE, !.runend = TRUE] /\ Op("nev", g, R("stop", 0), bw)
         [] q.k \in {"eof", "err"} -> /\ rd' = [s EXCEPT !.pos = q.p, !.nx = 0, !.dead = TRUE, !.lost = TRUE] /\ Op("nev", g, R(q.k, 0), bw)
NextEvent(g) ==
  IF g = rd.act THEN Deliver([rd EXCEPT !.touched = TRUE], g, FALSE)
  ELSE /\ g \notin rd.used
       /\ Deliver([rd EXCEPT !.pos = First, !.nx = 0, !.act = g, !.used = @ \cup {g}, !.buf = <<>>, !.dead = FALSE, !.lost = FALSE, !.perr = FALSE, !.touched = TRUE], g, rd.touched)

\* the next object seen by the low-level interface (lost: unknown place, after an error)
Seen == IF rd.lost THEN R("any", 0)
        ELSE IF rd.pos + 1 <= C THEN R("obj", rd.pos + 1)
        ELSE IF cut.at = 0 \/ cut.how = "between" THEN R("stop", 0)
        ELSE IF cut.how = "header" THEN R("eof", 0) ELSE R("any", 0)
NextObj == /\ rd' = [rd EXCEPT !.pos = IF Seen.k = "obj" THEN @ + 1 ELSE @, !.nx = 0, !.act = 0, !.buf = <<>>, !.touched = TRUE, !.lost = @ \/ Seen.k = "any" \/ Seen.k = "eof"]
           /\ Op("nobj", 0, Seen, FALSE)
Peek == /\ rd' = [rd EXCEPT !.nx = IF Seen.k = "obj" THEN rd.pos + 1 ELSE 0, !.touched = TRUE, !.lost = @ \/ Seen.k = "any"]
        /\ Op("peek", 0, IF Seen.k = "stop" THEN R("none", 0) ELSE IF Seen.k = "eof" THEN R("warn", 0) ELSE Seen, FALSE)

\* without operations: one iteration to the end
Whole == /\ Ops = {} /\ rd.gens = 0
         /\ hist' = << [op |-> "all", g |-> 1, r |-> R(Total.k, Len(Total.ev)), bw |-> FALSE, runend |-> Total.k = "end"] >>
         /\ rd' = [rd EXCEPT !.gens = 1]
Use ==
  /\ phase = "use"
  /\ \/ Whole
     \/ /\ Ops # {} /\ Len(hist) < Depth
        /\ \/ "iter" \in Ops /\ rd.gens < 4 /\ (Sim => Some(1..3) = 1 \/ rd.gens = 0) /\ Iter
           \/ "nev" \in Ops /\ \E g \in (IF Sim THEN IF Some(1..5) > 1 /\ rd.act > 0 THEN {rd.act} ELSE 1..rd.gens ELSE 1..rd.gens) : NextEvent(g)
           \/ "nobj" \in Ops /\ (Sim => Some(1..2) = 1) /\ NextObj
           \/ "peek" \in Ops /\ Peek
  /\ UNCHANGED <<file, split, left, phase, cut, mut>>
End == /\ phase = "use" /\ (IF Ops = {} THEN rd.gens = 1 ELSE Len(hist) = Depth)
       /\ phase' = "end" /\ UNCHANGED <<file, split, left, cut, mut, rd, hist>>
Next == WriteHead \/ WriteShower \/ Finish \/ Use \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* checks of the specification; in simulations only at the end
At == phase = "end" \/ (~Sim /\ phase = "use" /\ hist = <<>>)
Opened == First > 0
Exact == (At /\ Opened /\ mut = <<>>) => Total.ev = Declared(file, C)                                      \* C13
CutPrefix == (At /\ Opened /\ mut = <<>>) =>                                                               \* C14
   LET d == Declared(file, Len(file)) IN
   /\ Len(Total.ev) <= Len(d) /\ SubSeq(d, 1, Len(Total.ev)) = Total.ev
   /\ Total.k = (IF cut.at = 0 THEN "end" ELSE "eof")
   /\ \A i \in 1..Len(Total.ev) : Total.ev[i].end[1] <= C
HeadNeeded == (phase # "head" /\ phase # "showers" /\ mut = <<>> /\ cut.at > 0 /\ ~Opened) => cut.at <= 1 + Min({i \in 1..Len(file) : file[i].k = "TD"}) - 1
NoMixing == (At /\ Opened) => \A i \in 1..Len(Total.ev) :                                                  \* C07
   LET e == Total.ev[i]
       a == e.header[1]
       z == e.end[1] IN
   /\ e.off = <<a + 1>> /\ \A j \in (a + 1)..(z - 1) : file[j].k \notin {"EH", "EE", "RE"}
   /\ \A m \in e.ph : m.r[1] > a /\ m.r[1] < z
   /\ \A m \in {e.lo, e.pt} : m # <<>> => m[1] > a /\ m[1] < z
\* C14: each iteration delivers the events from the first one on, in order
Delivered(g) == SelectSeq(hist, LAMBDA h : h.op = "nev" /\ h.g = g /\ h.r.k = "event")
Restarts == phase = "end" => \A g \in 1..rd.gens : LET d == Delivered(g) IN \A i \in 1..Len(d) : d[i].r.i = i
RunEndLate == phase = "end" => \A i \in 1..Len(hist) : hist[i].runend =>
   (hist[i].op = "all" \/ \E j \in 1..i : hist[j].op = "nev" /\ hist[j].r.k = "stop" /\ Len(Delivered(hist[j].g)) = Len(Total.ev))
Inv == Exact /\ CutPrefix /\ HeadNeeded /\ NoMixing /\ Restarts /\ RunEndLate

Behaviour == [file |-> file, cut |-> cut, mut |-> mut, opened |-> First, openfail |-> IF First = 0 THEN OpenFails(file, C) ELSE "",
              events |-> IF First = 0 THEN <<>> ELSE Total.ev, hist |-> hist]
Export == phase = "end" => CSVWrite("%1$s", <<ToJson(Behaviour)>>, IOEnv.OUT)
=============================================================================
