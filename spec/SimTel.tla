------------------------------- MODULE SimTel -------------------------------
(* Events of a sim_telarray file (C09 - C12).

   A file is a sequence of top-level blocks.  Block n has a kind, a telescope or
   object id and, for containers, a description of its sub-objects; its content is
   abstract and referred to by its place: <<n>>, or <<n, i, j>> for sub-objects.

   The writer emits blocks according to the documented structure of the file; the
   reader is the operator Step which folds a block into its state and delivers
   events.  Declared is what the property demands, as a function of the file
   alone; the invariants say that the reader delivers exactly that.

   Kinds: HI history, GM/TM global and telescope meta parameters, RH MR IC AP run
   headers, input card, atmosphere, CS CO PS DP SW DS PC telescope descriptions,
   CM LC PM monitoring, MS shower, PA particles at observation level, ME event,
   TD telescope data, SU photo-electron sums, AE array event, CP calibration
   photo-electrons, CE calibration event, HG histograms, UN anything else.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization

CONSTANTS TelSets,     \* candidates for the telescopes of a file
          Sim,         \* TRUE: random files, FALSE: all bodies up to the depth
          Depth,       \* number of blocks of the body
          Kinds,       \* kinds in the body
          Configs,     \* "all" | "none" | "skips": filter options
          Cuts         \* TRUE: the file is cut

VARIABLES tels, file, head, todo, rs, cfg, cut, phase
vars == <<tels, file, head, todo, rs, cfg, cut, phase>>

Desc == {"CS", "CO", "PS", "DP", "SW", "DS", "PC"}
NoRef == <<>>

Blk(k, tel, id, x) == [k |-> k, tel |-> tel, id |-> id, x |-> x]
NoAE == [trig |-> 0, ids |-> <<>>, parts |-> <<>>, tracks |-> <<>>, st |-> FALSE]
NoTD == <<>>
Simple(k) == Blk(k, 0, 0, <<>>)
Of(k, t) == Blk(k, t, t, <<>>)

-----------------------------------------------------------------------------
\* the reader
NoEvent == [type |-> "none"]
Start0 == [history |-> <<>>, gmeta |-> NoRef, tmeta |-> {}, rh |-> NoRef, nt |-> -1, mrs |-> <<>>, ics |-> <<>>, aps |-> <<>>, desc |-> {}, hist |-> NoRef,
           ms |-> NoRef, pa |-> NoRef, pe |-> {}, haspe |-> FALSE, cm |-> {}, lc |-> {}, pm |-> {}, cur |-> NoEvent, out |-> <<>>, done |-> FALSE, ready |-> 0]

\* maps are sets of [k, r]; r is a reference or, for monitoring, the sequence of references of all updates
Set(m, k, r) == {e \in m : e.k # k} \cup {[k |-> k, r |-> r]}
Get(m, k) == LET s == {e \in m : e.k = k} IN IF s = {} THEN <<>> ELSE (CHOOSE e \in s : TRUE).r
Upd(m, k, r) == Set(m, k, Append(Get(m, k), r))
Keys(m) == {e.k : e \in m}

Event(type, id) == [type |-> type, id |-> id, ct |-> -1, ms |-> NoRef, me |-> NoRef, pa |-> NoRef, pe |-> {}, ph |-> {}, em |-> {}, td |-> FALSE, su |-> NoRef,
                    ae |-> FALSE, trig |-> NoRef, tels |-> {}, tracks |-> {}, st |-> NoRef, cm |-> {}, lc |-> {}, pm |-> {}, cpe |-> {}, hascpe |-> FALSE]

\* content of an array event stored at pre
AEParts(pre, b) ==
  LET x == b.x
      nt == Len(x.ids) IN
  [id |-> IF x.trig # 0 THEN x.trig ELSE b.id, trig |-> Append(pre, 1),
   tels |-> {[k |-> x.ids[i], r |-> {[k |-> x.parts[i][j], r |-> pre \o <<1 + i, j>>] : j \in 1..Len(x.parts[i])}] : i \in 1..nt},
   tracks |-> {[k |-> x.tracks[i], r |-> Append(pre, 1 + nt + i)] : i \in 1..Len(x.tracks)},
   st |-> IF x.st THEN Append(pre, 2 + nt + Len(x.tracks)) ELSE NoRef]

Monitoring(s, T) == [cm |-> {[k |-> t, r |-> Get(s.cm, t)] : t \in T}, lc |-> {[k |-> t, r |-> Get(s.lc, t)] : t \in T},
                     pm |-> {[k |-> t, r |-> Get(s.pm, t)] : t \in T}]
AddAE(e, s, pre, b) ==
  LET p == AEParts(pre, b)
      m == Monitoring(s, Keys(p.tels)) IN
  [e EXCEPT !.id = p.id, !.ae = TRUE, !.trig = p.trig, !.tels = p.tels, !.tracks = p.tracks, !.st = p.st, !.cm = m.cm, !.lc = m.lc, !.pm = m.pm]

PEs(pre, x) == {[k |-> x[i].tel, r |-> Append(pre, i)] : i \in {j \in 1..Len(x) : x[j].k = "PE"}}
PHs(pre, x) == {[k |-> x[i].tel, r |-> Append(pre, i)] : i \in {j \in 1..Len(x) : x[j].k \in {"PH", "EM"}}}
EMs(pre, x) == {[k |-> x[i].tel, r |-> Append(pre, i)] : i \in {j \in 1..Len(x) : x[j].k = "EM"}}

Deliver(s) == IF s.cur.type = "none" THEN s ELSE [s EXCEPT !.out = Append(@, s.cur), !.cur = NoEvent]

Complete(s) == s.nt >= 0 /\ Cardinality(s.desc) >= 7 * s.nt /\ Cardinality({t \in {d.k[1] : d \in s.desc} : \A k \in Desc : <<t, k>> \in Keys(s.desc)}) = s.nt

Step1(s, n, b) ==
  CASE b.k = "HI" -> [s EXCEPT !.history = @ \o [i \in 1..b.id |-> <<n, i>>]]
    [] b.k = "GM" -> [s EXCEPT !.gmeta = <<n>>]
    [] b.k = "TM" -> [s EXCEPT !.tmeta = Set(@, b.tel, <<n>>)]
    [] b.k = "RH" -> [s EXCEPT !.rh = <<n>>, !.nt = b.id]
    [] b.k = "MR" -> [s EXCEPT !.mrs = Append(@, <<n>>)]
    [] b.k = "IC" -> [s EXCEPT !.ics = Append(@, <<n>>)]
    [] b.k = "AP" -> [s EXCEPT !.aps = Append(@, <<n>>)]
    [] b.k \in Desc -> [s EXCEPT !.desc = Set(@, <<b.tel, b.k>>, <<n>>)]
    [] b.k = "CM" -> [s EXCEPT !.cm = Upd(@, b.tel, <<n>>)]
    [] b.k = "LC" -> [s EXCEPT !.lc = Upd(@, b.tel, <<n>>)]
    [] b.k = "PM" -> [s EXCEPT !.pm = Upd(@, b.tel, <<n>>)]
    [] b.k = "MS" -> [s EXCEPT !.ms = <<n>>, !.pa = NoRef]
    [] b.k = "PA" -> [s EXCEPT !.pa = <<n>>]
    [] b.k = "ME" -> [Deliver(s) EXCEPT !.cur = [Event("data", b.id) EXCEPT !.ms = s.ms, !.me = <<n>>, !.pa = s.pa]]
    [] b.k = "TD" -> [s EXCEPT !.cur.td = TRUE, !.cur.pe = PEs(<<n>>, b.x), !.cur.ph = PHs(<<n>>, b.x), !.cur.em = EMs(<<n>>, b.x)]
    [] b.k = "SU" -> [s EXCEPT !.cur.su = <<n>>]
    [] b.k = "AE" -> IF s.ms = NoRef
                     THEN [Deliver(s) EXCEPT !.cur = AddAE(Event("calibration", b.id), s, <<n>>, b)]
                     ELSE [s EXCEPT !.cur = AddAE(@, s, <<n>>, b)]
    [] b.k = "CP" -> [s EXCEPT !.pe = PEs(<<n, 1>>, b.x), !.haspe = TRUE]
    [] b.k = "CE" -> [Deliver(s) EXCEPT !.cur = [AddAE(Event("calibration", b.id), s, <<n, 1>>, b) EXCEPT !.ct = b.tel, !.cpe = s.pe, !.hascpe = s.haspe],
                                        !.pe = {}, !.haspe = FALSE]
    [] b.k = "HG" -> [Deliver(s) EXCEPT !.hist = <<n>>, !.done = TRUE]
    [] OTHER -> s

Step(s, n, b) == IF s.done THEN s
                 ELSE LET r == Step1(s, n, b) IN IF s.ready = 0 /\ Complete(r) THEN [r EXCEPT !.ready = n] ELSE r

-----------------------------------------------------------------------------
\* what the property demands of the events, from the file alone
Last(f, S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Kth(f, S, a, z) == {i \in (a + 1)..(z - 1) : f[i].k \in S}
Ref(i) == IF i = 0 THEN NoRef ELSE <<i>>

EndOf(f) == LET h == {i \in 1..Len(f) : f[i].k = "HG"} IN IF h = {} THEN Len(f) + 1 ELSE CHOOSE i \in h : \A j \in h : i <= j
IsCalib(f, i) == f[i].k = "CE" \/ (f[i].k = "AE" /\ Kth(f, {"MS"}, 0, i) = {})
Starts(f) == {i \in 1..(EndOf(f) - 1) : f[i].k = "ME" \/ IsCalib(f, i)}

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : \A j \in S : i <= j IN <<m>> \o SortedSeq(S \ {m})

MonAt(f, p, k, T) == {[k |-> t, r |-> LET u == SortedSeq({i \in 1..(p - 1) : f[i].k = k /\ f[i].tel = t}) IN [i \in 1..Len(u) |-> <<u[i]>>]] : t \in T}
WithAE(e, f, p, pre) ==
  LET a == AEParts(pre, f[p])
      T == Keys(a.tels) IN
  [e EXCEPT !.id = a.id, !.ae = TRUE, !.trig = a.trig, !.tels = a.tels, !.tracks = a.tracks, !.st = a.st,
            !.cm = MonAt(f, p, "CM", T), !.lc = MonAt(f, p, "LC", T), !.pm = MonAt(f, p, "PM", T)]

DataEvent(f, p) ==
  LET past == {i \in Starts(f) : i > p} \cup {EndOf(f)}
      q == CHOOSE i \in past : \A j \in past : i <= j
      ms == Last(f, Kth(f, {"MS"}, 0, p))
      pa == Last(f, Kth(f, {"PA"}, ms, p))
      td == Last(f, Kth(f, {"TD"}, p, q))
      su == Last(f, Kth(f, {"SU"}, p, q))
      ae == Last(f, Kth(f, {"AE"}, p, q))
      e == [Event("data", f[p].id) EXCEPT !.ms = Ref(ms), !.me = Ref(p), !.pa = Ref(pa), !.su = Ref(su)]
      e1 == IF td = 0 THEN e ELSE [e EXCEPT !.td = TRUE, !.pe = PEs(<<td>>, f[td].x), !.ph = PHs(<<td>>, f[td].x), !.em = EMs(<<td>>, f[td].x)]
  IN IF ae = 0 THEN e1 ELSE WithAE(e1, f, ae, <<ae>>)

CalibEvent(f, p) ==
  LET before == Last(f, Kth(f, {"CE"}, 0, p))
      pe == Last(f, Kth(f, {"CP"}, before, p)) IN
  IF f[p].k = "AE" THEN WithAE(Event("calibration", 0), f, p, <<p>>)
  ELSE LET e == WithAE([Event("calibration", 0) EXCEPT !.ct = f[p].tel], f, p, <<p, 1>>) IN
       IF pe = 0 THEN e ELSE [e EXCEPT !.cpe = PEs(<<pe, 1>>, f[pe].x), !.hascpe = TRUE]

Declared(f) == LET s == SortedSeq(Starts(f)) IN [i \in 1..Len(s) |-> IF IsCalib(f, s[i]) THEN CalibEvent(f, s[i]) ELSE DataEvent(f, s[i])]

Meta(f, k) == {[k |-> t, r |-> <<Last(f, {i \in 1..Len(f) : f[i].k = k /\ f[i].tel = t})>>] : t \in {f[i].tel : i \in {j \in 1..Len(f) : f[j].k = k}}}
Where(f, k) == LET s == SortedSeq({i \in 1..Len(f) : f[i].k = k}) IN [i \in 1..Len(s) |-> <<s[i]>>]

-----------------------------------------------------------------------------
\* filters
Restrict(m, A) == {e \in m : e.k \in A}
Allow(e, A) == IF A = {} THEN e
               ELSE [e EXCEPT !.tels = Restrict(@, A), !.tracks = Restrict(@, A), !.cm = Restrict(@, A), !.lc = Restrict(@, A), !.pm = Restrict(@, A)]
Keep(e, c) == IF e.type = "data" THEN (~c.trig) \/ Keys(e.tels) # {} ELSE ~c.calib
Filtered(es, c) == SelectSeq([i \in 1..Len(es) |-> Allow(es[i], c.allowed)], LAMBDA e : Keep(e, c))

-----------------------------------------------------------------------------
\* the writer
HeadKinds == {"HI", "GM", "RH", "MR", "IC", "AP"}
Init ==
  /\ tels \in TelSets
  /\ file = <<>> /\ rs = Start0 /\ phase = "head"
  /\ head = {} /\ todo = [k : Desc, t : tels]
  /\ cfg = [calib |-> FALSE, trig |-> FALSE, allowed |-> {}]
  /\ cut = [at |-> 0, how |-> ""]

Emit(b) == file' = Append(file, b) /\ rs' = Step(rs, Len(file) + 1, b)

Perms(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* exhaustive mode: the header is one step
RECURSIVE FoldSteps(_, _, _)
FoldSteps(s, n, f) == IF n > Len(f) THEN s ELSE FoldSteps(Step(s, n, f[n]), n + 1, f)
CanonHead == <<Blk("HI", 0, 2, <<>>), Blk("RH", 0, Cardinality(tels), <<>>), Simple("MR")>>
             \o LET D == SortedSeq(tels)
                    K == <<"CS", "CO", "PS", "DP", "SW", "DS", "PC">> IN
                Cat([i \in 1..Len(D) |-> [j \in 1..7 |-> Of(K[j], D[i])]])
HeadAll == /\ ~Sim /\ phase = "head"
           /\ file' = CanonHead /\ rs' = FoldSteps(Start0, 1, CanonHead)
           /\ phase' = "body" /\ todo' = {} /\ UNCHANGED <<tels, head, cfg, cut>>

\* simulation: header blocks in any order; the run header and the last description complete it
Some(S) == RandomElement({x \in S : Len(file) >= 0})   \* (depends on a variable: chosen anew every time)
HeadStep ==
  /\ Sim /\ phase = "head"
  /\ LET d == {Of(x.k, x.t) : x \in todo}
         opt == {Blk("HI", 0, n, <<>>) : n \in 0..3} \cup {Simple("MR"), Simple("IC"), Simple("AP"), Blk("GM", -1, -1, <<>>), Simple("UN")}
                \cup {Of("TM", t) : t \in tels} \cup {Of(k, t) : k \in {"CM", "LC", "PM"}, t \in tels} IN
     \E b \in {IF "RH" \notin head /\ (todo = {} \/ Some(1..6) = 1) THEN Blk("RH", 0, Cardinality(tels), <<>>)
               ELSE IF todo # {} /\ Some(1..4) > 1 THEN Some(d) ELSE Some(opt)} :
       /\ Emit(b)
       /\ head' = head \cup {b.k}
       /\ todo' = {x \in todo : ~(x.k = b.k /\ x.t = b.tel)}
  /\ phase' = IF rs'.ready > 0 THEN "body" ELSE "head"
  /\ UNCHANGED <<tels, cfg, cut>>

\* blocks of a telescope event; L<code> lists of pixels, D<id>/A<id> digital and analog auxiliary traces, several of them in any order
Parts == {"SA", "SS", "PT", "IP", "L0", "L1", "L2", "L13", "TT", "D0", "D1", "A2", "A257", "D258", "A70000"}
PartOrders == {<<"HD", "SA", "SS", "IP", "PT", "L0", "L1", "L2", "L13", "TT", "D0", "D1", "A2", "A257", "D258", "A70000">>,
               <<"HD", "SA", "SS", "IP", "PT", "L13", "L1", "L0", "L2", "TT", "A70000", "A257", "D1", "A2", "D0", "D258">>,
               <<"HD", "SA", "SS", "IP", "PT", "L2", "L13", "L1", "L0", "TT", "D258", "A2", "D0", "A257", "A70000", "D1">>}
PartSeq(S) == LET o == Some(PartOrders) IN SelectSeq(o, LAMBDA p : p = "HD" \/ p \in S)

n0 == Len(file) + 1
AEId == 10 * n0
\* object ids are signed 32 bit numbers
EvId(i) == IF Sim THEN Some({i, 2147480000 + i, i - 2000000000, -i, 7, 0}) ELSE i
RandomAE ==
  LET s == Some(UNION {Perms(S) : S \in SUBSET tels})
      on == {s[i] : i \in DOMAIN s}
      extra == Some(SUBSET (tels \ on)) IN
  [trig |-> Some({0, AEId + 1, 2147480000 + n0, -AEId - 1}), ids |-> s, parts |-> [i \in 1..Len(s) |-> PartSeq({p \in Parts : Some(1..3) = 1})],
   tracks |-> Some(Perms(on \cup extra)), st |-> Some(BOOLEAN)]
FixedAEs == {[trig |-> t, ids |-> SortedSeq(S), parts |-> [i \in 1..Cardinality(S) |-> <<"HD", "SS">>], tracks |-> SortedSeq(R), st |-> S # {}] :
               <<S, R, t>> \in {<<{}, tels, 0>>, <<tels, tels, AEId + 1>>} \cup {<<{i}, tels, 0>> : i \in tels}}
AEs == IF Sim THEN {RandomAE} ELSE FixedAEs

TDElem(t) == {[k |-> k, tel |-> t] : k \in {"PE", "PH", "EM"}}
TDSeqs == IF Sim THEN {LET pe == Some(UNION {Perms(S) : S \in SUBSET tels})
                           ph == Some(UNION {Perms(S) : S \in SUBSET tels}) IN
                       [i \in 1..Len(ph) |-> [k |-> Some({"PH", "EM"}), tel |-> ph[i]]] \o [i \in 1..Len(pe) |-> [k |-> "PE", tel |-> pe[i]]]}
          ELSE {<<>>, LET s == SortedSeq(tels) IN [i \in 1..Len(s) |-> [k |-> IF i = 1 THEN "PE" ELSE "EM", tel |-> s[i]]]}
CPSeqs == IF Sim THEN {LET pe == Some(UNION {Perms(S) : S \in SUBSET tels}) IN [i \in 1..Len(pe) |-> [k |-> "PE", tel |-> pe[i]]]}
          ELSE {LET s == SortedSeq(tels) IN [i \in 1..Len(s) |-> [k |-> "PE", tel |-> s[i]]]}

\* kinds emitted since the last block of kind in S (all, if there is none)
Since(S) == LET p == Last(file, Kth(file, S, 0, n0)) IN {file[i].k : i \in (p + 1)..Len(file)}
InBody == Len(file) >= rs.ready /\ rs.ready > 0
HasMS == rs.ms # NoRef
Open == rs.cur.type # "none" /\ rs.cur.type = "data"
\* last of the structuring blocks
Allowed ==
  LET aft == Since({"ME"}) IN
    {"CM", "LC", "PM", "UN", "HG"}
    \cup (IF ~HasMS THEN {"CP", "CE", "AE"} ELSE {})
    \cup {"MS"}
    \cup (IF HasMS /\ "MS" \notin (IF Kth(file, {"ME"}, 0, n0) = {} THEN {} ELSE aft) /\ Kth(file, {"ME"}, 0, n0) # {} /\ Open
          THEN (IF {"TD", "SU", "AE"} \cap aft = {} THEN {"TD"} ELSE {}) \cup (IF {"SU", "AE"} \cap aft = {} THEN {"SU"} ELSE {})
               \cup (IF "AE" \notin aft THEN {"AE"} ELSE {})
          ELSE {})
    \cup (IF HasMS /\ Since({"MS"}) \cap {"ME", "PA"} = {} THEN {"PA"} ELSE {})
    \cup (IF HasMS THEN {"ME"} ELSE {})

BodyBlocks(k) ==
  CASE k \in {"CM", "LC", "PM"} -> IF Sim THEN {Of(k, Some(tels))} ELSE {Of(k, t) : t \in tels}
    [] k = "AE" -> {Blk("AE", 0, EvId(AEId), x) : x \in AEs}
    [] k = "CE" -> {Blk("CE", Some(0..4), AEId, x) : x \in IF Sim THEN AEs ELSE {CHOOSE y \in FixedAEs : Len(y.ids) = Cardinality(tels)}}
    [] k = "CP" -> {Blk("CP", 0, 0, x) : x \in CPSeqs}
    [] k = "TD" -> {Blk("TD", 0, 0, x) : x \in TDSeqs}
    [] k \in {"ME", "MS"} -> {Blk(k, 0, EvId(10 * n0 + 5), <<>>)}
    [] OTHER -> {Simple(k)}

\* weights of the kinds in the simulation
Weight(k) == CASE k = "HG" -> 0 [] k = "UN" -> 1 [] k \in {"CM", "LC", "PM"} -> 2 [] k = "AE" -> IF HasMS THEN 8 ELSE 3 [] k = "ME" -> 6 [] k = "MS" -> 3
               [] k = "CE" -> 4 [] OTHER -> 4
BodyLen == Len(file) - rs.ready
BodyStep ==
  /\ phase = "body" /\ ~rs.done /\ BodyLen < Depth
  /\ LET en == Allowed \cap Kinds IN
     \E k \in IF Sim THEN {LET w == UNION {{<<x, i>> : i \in 1..Weight(x)} : x \in en} IN IF Some(1..40) = 1 /\ "HG" \in en THEN "HG" ELSE Some(w)[1]}
              ELSE en :
       \E b \in BodyBlocks(k) : Emit(b)
  /\ UNCHANGED <<tels, head, todo, cfg, cut, phase>>

\* the file ends: options of the reader and place of the cut are chosen
Cfgs == LET c == [calib : BOOLEAN, trig : BOOLEAN, allowed : {{}} \cup (SUBSET tels \ {{}}) \cup {{4711}}] IN
        CASE Configs = "none" -> {[calib |-> FALSE, trig |-> FALSE, allowed |-> {}]}
          [] Configs = "skips" -> {x \in c : x.allowed = {}}
          [] Configs = "all" -> c
CutSet == IF Cuts THEN [at : 1..Len(file), how : {"between", "header", "payload"}] ELSE {[at |-> 0, how |-> ""]}
Finish ==
  /\ phase = "body" /\ (rs.done \/ BodyLen = Depth)
  /\ \E c \in IF Sim THEN {Some(Cfgs)} ELSE Cfgs : cfg' = c
  /\ \E c \in IF Sim THEN {Some(CutSet)} ELSE CutSet : cut' = c
  /\ phase' = "end"
  /\ UNCHANGED <<tels, file, head, todo, rs>>

Next == HeadAll \/ HeadStep \/ BodyStep \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the reader on the complete file: all events delivered, at the end also the last one
Final(s) == IF s.cur.type = "none" THEN s.out ELSE Append(s.out, s.cur)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

EventsExact == phase # "head" => Final(rs) = Declared(file)                     \* C09
DeliveredStable == phase # "head" => IsPrefix(rs.out, Declared(file))
OncePerEvent == \A i, j \in 1..Len(Final(rs)) : i # j => Final(rs)[i].me = NoRef \/ Final(rs)[i].me # Final(rs)[j].me
MetaExact == phase = "end" =>                                                    \* C10
   /\ rs.tmeta = Meta(file, "TM") /\ rs.mrs = Where(file, "MR") /\ rs.ics = Where(file, "IC") /\ rs.aps = Where(file, "AP")
   /\ Keys(rs.desc) = tels \X Desc
   /\ \A d \in rs.desc : file[d.r[1]].k = d.k[2] /\ file[d.r[1]].tel = d.k[1]
FilterSound == phase = "end" =>                                                  \* C11
   LET a == Declared(file)
       f == Filtered(a, cfg) IN
   /\ Len(f) <= Len(a)
   /\ (~cfg.calib /\ ~cfg.trig) => Len(f) = Len(a)
   /\ \A i \in 1..Len(f) : \E e \in {a[j] : j \in 1..Len(a)} : f[i] = Allow(e, cfg.allowed) /\ f[i].ms = e.ms /\ f[i].pe = e.pe

\* C12: the reader of a cut file
Before == SubSeq(file, 1, cut.at - 1)
Cut == FoldSteps(Start0, 1, Before)
CutEvents == Final(Cut)
CutPrefix == (phase = "end" /\ cut.at > 0 /\ Cut.ready > 0) =>
   LET d == Declared(file) IN
   /\ Len(CutEvents) <= Len(d)
   /\ IsPrefix(Cut.out, d)
   /\ Len(CutEvents) <= Len(Cut.out) + 1

Inv == (Sim => phase = "end") => EventsExact /\ DeliveredStable /\ OncePerEvent /\ MetaExact /\ FilterSound /\ CutPrefix

\* only events of the body phase are delivered after the constructor: the events of the header part would be lost
Behaviour ==
  LET s == IF cut.at > 0 THEN Cut ELSE rs
      full == IF cut.at > 0 THEN CutEvents ELSE Declared(file) IN
  [tels |-> tels, file |-> file, cfg |-> cfg, cut |-> cut, opened |-> s.ready > 0, complete |-> Len(s.out), total |-> Len(full),
   events |-> Filtered(full, cfg), all |-> full,
   head |-> [history |-> s.history, gmeta |-> s.gmeta, tmeta |-> s.tmeta, rh |-> s.rh, nt |-> s.nt, mrs |-> s.mrs, ics |-> s.ics, aps |-> s.aps, desc |-> s.desc,
             hist |-> s.hist, ready |-> s.ready, cm |-> s.cm, lc |-> s.lc, pm |-> s.pm]]
Export == phase = "end" => CSVWrite("%1$s", <<ToJson(Behaviour)>>, IOEnv.OUT)
=============================================================================
