------------------------------- MODULE Search -------------------------------
(* The search helpers (C24): queries on a file or on an object found before.

   The file is built object by object (Add), then queries are made one after the other.
   A query works on the objects from the file's cursor on; what it gives is the
   sequence <<node, level>> of the matches, followed by the end ("done"), a missing
   part of the file ("eof": EOFError, "warn": only a warning) or nothing, if the
   caller takes only some of the results ("taken").                              *)
EXTENDS EioFormat, TLC, Json, CSV, IOUtils

CONSTANTS MaxNodes,    \* number of objects of the file
          LabelIds,    \* kinds of objects
          Kinds,       \* queries
          TypeSets,    \* arguments: sets of classes
          Structures,  \* arguments: sequences of sets of classes
          Takes,       \* how many results are taken (99: all)
          Counts,      \* numbers of objects asked for
          Cuts, Depth, Sim

VARIABLES items,       \* the objects in depth-first order: [lvl, l, leaf, n, x]
          ns, tops, cut, cur, objs, hist, phase
vars == <<items, ns, tops, cut, cur, objs, hist, phase>>

SLabels == << [t |-> 2010, v |-> 0, c |-> "ArrayEvent", a |-> {}],
              [t |-> 2201, v |-> 0, c |-> "TelescopeEvent", a |-> {}],
              [t |-> 2012, v |-> 3, c |-> "ADCSums", a |-> {}],
              [t |-> 2011, v |-> 1, c |-> "TelescopeEventHeader", a |-> {"TelescopeObject"}],
              [t |-> 2016, v |-> 1, c |-> "PixelTiming", a |-> {"TelescopeObject"}],
              [t |-> 5999, v |-> 7, c |-> "EventIOObject", a |-> {}],
              [t |-> 1204, v |-> 2, c |-> "TelescopeData", a |-> {}],
              [t |-> 3207, v |-> 0, c |-> "TelescopeEvent", a |-> {}] >>
LabelOf(n) == SLabels[CHOOSE i \in DOMAIN SLabels : SLabels[i].t = ns[n].t]
Is(n, T) == ({LabelOf(n).c, "EventIOObject"} \cup LabelOf(n).a) \cap T # {}

\* items from i on with level >= lvl -> <<forest, next index>>
RECURSIVE Trees(_, _, _)
Trees(its, i, lvl) ==
  IF i > Len(its) \/ its[i].lvl < lvl THEN <<(<<>>), i>>
  ELSE LET L == SLabels[its[i].l]
           sub == IF its[i].leaf THEN <<(<<>>), i + 1>> ELSE Trees(its, i + 1, lvl + 1)
           rest == Trees(its, sub[2], lvl)
       IN <<<<[t |-> L.t, v |-> L.v, id |-> 10 * i, u |-> 0, x |-> its[i].x, s |-> ~its[i].leaf, n |-> its[i].n, k |-> sub[1]]>> \o rest[1], rest[2]>>

Init == items = <<>> /\ ns = <<>> /\ tops = <<>> /\ cut = 0 /\ cur = 1 /\ objs = <<>> /\ hist = <<>> /\ phase = "build"

Some(S) == RandomElement({x \in S : Len(items) >= 0})
Add == /\ phase = "build" /\ Len(items) < MaxNodes
       /\ \E l \in IF Sim THEN {Some(LabelIds)} ELSE LabelIds :
          \E lvl \in IF items = <<>> THEN {0} ELSE LET z == items[Len(items)] IN 0..(z.lvl + (IF z.leaf THEN 0 ELSE 1)) :
          \E leaf \in IF Sim THEN {(l \in {1, 2, 7, 8}) = (Some(1..12) = 1)} ELSE BOOLEAN :
            items' = Append(items, [lvl |-> lvl, l |-> l, leaf |-> leaf, n |-> IF ~leaf THEN 0 ELSE IF Sim THEN Some(0..5) ELSE 2, x |-> IF Sim THEN Some(1..6) = 1 ELSE FALSE])
       /\ UNCHANGED <<ns, tops, cut, cur, objs, hist, phase>>
Start == /\ phase = "build" /\ items # <<>> /\ (Sim => Len(items) = MaxNodes)
         /\ ns' = Nodes(Trees(items, 1, 0)[1]) /\ tops' = TopNodes(ns')
         /\ LET size == FileSize(Trees(items, 1, 0)[1]) IN
            cut' \in (IF ~Cuts THEN {size} ELSE IF Sim THEN {IF Some(1..3) = 1 THEN size ELSE Some(4..size)} ELSE 4..size)
         /\ phase' = "use" /\ UNCHANGED <<items, cur, objs, hist>>

(* ------------------------------ what is there ------------------------------ *)
\* top-level objects (from the cursor on) or sub-objects which can be read, and what follows
Seq_(root) == IF root = 0 THEN SubSeq(tops, cur, Len(tops)) ELSE ns[root].kids
Fits(n) == ns[n].start + ns[n].hsize <= cut
RECURSIVE Fitting(_)
Fitting(s) == IF s = <<>> \/ ~Fits(Head(s)) THEN <<>> ELSE <<Head(s)>> \o Fitting(Tail(s))
\* what follows the readable ones: at top level a missing object is the end
EndOf(root) == LET s == Seq_(root) f == Fitting(s) IN
               IF Len(f) = Len(s) THEN "done"
               ELSE IF root = 0 /\ ns[s[Len(f) + 1]].start >= cut THEN "done" ELSE "eof"

(* A result: r |-> sequence of [n |-> node, l |-> level, t |-> top-level object being read, opt |-> may be omitted], e |-> "done" | "eof" *)
Hit(n, l) == [n |-> n, l |-> l, opt |-> FALSE]
RECURSIVE Join(_, _)
\* results of a sequence of sub-searches: the first failing one ends it
Join(s, e) == IF s = <<>> THEN [r |-> <<>>, e |-> e]
              ELSE IF Head(s).e = "eof" THEN Head(s)
              ELSE LET j == Join(Tail(s), e) IN [r |-> Head(s).r \o j.r, e |-> j.e]
RECURSIVE JoinTolerant(_, _)
JoinTolerant(s, e) == IF s = <<>> THEN [r |-> <<>>, e |-> e]
                      ELSE LET j == JoinTolerant(Tail(s), e) IN [r |-> Head(s).r \o j.r, e |-> IF Head(s).e = "eof" THEN "eof" ELSE j.e]

\* all objects of the types directly in root
Direct(root, T) == [r |-> [i \in 1..Len(SelectSeq(Fitting(Seq_(root)), LAMBDA n : Is(n, T))) |-> Hit(SelectSeq(Fitting(Seq_(root)), LAMBDA n : Is(n, T))[i], 0)], e |-> EndOf(root)]
\* all objects with their level
RECURSIVE Everything(_, _)
Everything(root, l) ==
  IF root # 0 /\ ~ns[root].s THEN [r |-> <<>>, e |-> "done"]
  ELSE LET f == Fitting(Seq_(root)) IN
       Join([i \in DOMAIN f |-> LET sub == Everything(f[i], l + 1) IN [r |-> <<Hit(f[i], l)>> \o sub.r, e |-> sub.e]], EndOf(root))
\* objects of the types anywhere, nothing inside of a match
RECURSIVE Anywhere(_, _)
Anywhere(root, T) ==
  IF root # 0 /\ Is(root, T) THEN [r |-> <<Hit(root, 0)>>, e |-> "done"]
  ELSE IF root # 0 /\ ~ns[root].s THEN [r |-> <<>>, e |-> "done"]
  ELSE LET f == Fitting(Seq_(root)) IN Join([i \in DOMAIN f |-> Anywhere(f[i], T)], EndOf(root))
\* along a structure; whether objects of the last type which are found less deep belong to the result is not specified
RECURSIVE Along(_, _, _, _)
Along(root, st, l, tolerant) ==
  LET f == Fitting(Seq_(root))
      of(n) == IF Is(n, st[Len(st)]) THEN [r |-> <<[n |-> n, l |-> 0, opt |-> l < Len(st)]>>, e |-> "done"]
               ELSE IF l < Len(st) /\ Is(n, st[l]) THEN Along(n, st, l + 1, tolerant)
               ELSE [r |-> <<>>, e |-> "done"]
  IN IF tolerant THEN JoinTolerant([i \in DOMAIN f |-> of(f[i])], EndOf(root)) ELSE Join([i \in DOMAIN f |-> of(f[i])], EndOf(root))
\* a structure names objects that can be iterated (and does not mix up its last type with others)
RECURSIVE GoodStructure(_, _, _)
GoodStructure(root, st, l) == \A i \in DOMAIN Fitting(Seq_(root)) : LET n == Fitting(Seq_(root))[i] IN
    (l < Len(st) /\ Is(n, st[l])) => (~Is(n, st[Len(st)]) /\ ns[n].s /\ GoodStructure(n, st, l + 1))

(* --------------------------------- queries --------------------------------- *)
Min2(a, b) == IF a < b THEN a ELSE b
\* index of the top-level object that contains node n
RECURSIVE TopOf(_, _)
TopOf(n, i) == IF i = Len(tops) \/ tops[i + 1] > n THEN i ELSE TopOf(n, i + 1)
Shown(h) == [n |-> h.n, l |-> h.l, opt |-> h.opt, c |-> LabelOf(h.n).c, t |-> ns[h.n].t, v |-> ns[h.n].v, id |-> ns[h.n].id, u |-> ns[h.n].u, x |-> ns[h.n].x, s |-> ns[h.n].s,
             addr |-> ns[h.n].addr, size |-> ns[h.n].size, hs |-> ns[h.n].hsize]

\* cursor after a query which read everything / stopped after giving node n
AfterAll(e, tolerant) == LET f == Fitting(Seq_(0)) IN
  IF EndOf(0) = "eof" \/ e = "done" THEN cur + Len(f)   \* if a header is missing at top level, all complete objects were read before
  ELSE IF tolerant THEN cur + Len(f)
  ELSE cur + Len(f)                            \* something is missing in the last readable object
Run(q, root, arg, res, take, tolerant) ==
  LET got == Min2(take, Len(res.r))
      all == take > Len(res.r)
      e == IF ~all THEN "taken" ELSE IF res.e = "eof" THEN (IF tolerant THEN "warn" ELSE "eof") ELSE "done"
      r == SubSeq(res.r, 1, got)
  IN /\ hist' = Append(hist, [q |-> q, o |-> root[2], a |-> arg, take |-> take, r |-> [i \in DOMAIN r |-> Shown(r[i])], e |-> e])
     /\ cur' = IF root[1] # 0 \/ take = 0 THEN cur ELSE IF all THEN AfterAll(res.e, tolerant) ELSE TopOf(r[got].n, 1) + 1

\* roots: <<node, number of the object found>>; an object is iterated only once
Roots == {<<0, 0>>} \cup {<<objs[i].n, i>> : i \in {j \in DOMAIN objs : ~objs[j].used}}
Keep(root, new) == objs' = (IF root[2] = 0 THEN objs ELSE [objs EXCEPT ![root[2]].used = TRUE]) \o new
Fresh(r) == [i \in DOMAIN r |-> [n |-> r[i].n, used |-> FALSE]]
Iterable(root) == IF root[1] = 0 THEN TRUE ELSE ns[root[1]].s

Find(root, T) ==
  /\ "find" \in Kinds /\ Iterable(root)
  /\ LET d == Direct(root[1], T)
         ok == d.r # <<>>
         e == IF ok THEN "found" ELSE IF d.e = "eof" THEN "eof" ELSE "stop" IN
     /\ hist' = Append(hist, [q |-> "find", o |-> root[2], a |-> T, take |-> 1, r |-> IF ok THEN <<Shown(d.r[1])>> ELSE <<>>, e |-> e])
     /\ cur' = IF root[1] # 0 THEN cur ELSE IF ok THEN TopOf(d.r[1].n, 1) + 1 ELSE AfterAll(d.e, FALSE)
     /\ Keep(root, IF ok THEN Fresh(<<d.r[1]>>) ELSE <<>>)
Top(root, T, take) ==
  /\ "top" \in Kinds /\ Iterable(root)
  /\ LET d == Direct(root[1], T) IN Run("top", root, T, d, take, TRUE) /\ Keep(root, Fresh(SubSeq(d.r, 1, Min2(take, Len(d.r)))))
Collect(root, T) ==
  /\ "collect" \in Kinds /\ Iterable(root)
  /\ LET d == Direct(root[1], T) IN Run("collect", root, T, d, 99, TRUE) /\ Keep(root, Fresh(d.r))
FindAll(root, st) ==
  /\ "findall" \in Kinds /\ Iterable(root) /\ GoodStructure(root[1], st, 1)
  /\ LET d == Along(root[1], st, 1, TRUE) IN
     /\ Run("findall", root, st, d, 99, TRUE) /\ Keep(root, IF \E i \in DOMAIN d.r : d.r[i].opt THEN <<>> ELSE Fresh(d.r))
YieldAll(root, st, take) ==
  /\ "yieldall" \in Kinds /\ Iterable(root) /\ GoodStructure(root[1], st, 1)
  /\ LET d == Along(root[1], st, 1, FALSE) IN
     /\ ((\E i \in DOMAIN d.r : d.r[i].opt) => take = 99)
     /\ Run("yieldall", root, st, d, take, FALSE) /\ Keep(root, IF \E i \in DOMAIN d.r : d.r[i].opt THEN <<>> ELSE Fresh(SubSeq(d.r, 1, Min2(take, Len(d.r)))))
Depth_(root, l, take) ==
  /\ "depth" \in Kinds
  /\ LET d == Everything(root[1], l) IN Run("depth", root, l, d, take, FALSE) /\ Keep(root, <<>>)
Sub(root, T, take) ==
  /\ "sub" \in Kinds
  /\ LET d == Anywhere(root[1], T) IN Run("sub", root, T, d, take, FALSE) /\ Keep(root, IF root[1] # 0 /\ Is(root[1], T) THEN <<>> ELSE Fresh(SubSeq(d.r, 1, Min2(take, Len(d.r)))))
\* the first n: nothing is read after the n-th
SubN(root, T, n, take) ==
  /\ "subn" \in Kinds
  /\ LET d == Anywhere(root[1], T)
         got == IF n <= 0 THEN 0 ELSE Min2(n, Len(d.r))
         full == n > Len(d.r)
         m == Min2(take, got)
         r == SubSeq(d.r, 1, m)
         e == IF take <= got THEN "taken" ELSE IF n > 0 /\ full /\ d.e = "eof" THEN "eof" ELSE "done" IN
     /\ hist' = Append(hist, [q |-> "subn", o |-> root[2], a |-> [T |-> T, n |-> n], take |-> take, r |-> [i \in DOMAIN r |-> Shown(r[i])], e |-> e])
     /\ cur' = IF root[1] # 0 \/ take = 0 \/ n <= 0 THEN cur
               ELSE IF take > got /\ full THEN AfterAll(d.e, FALSE) ELSE TopOf(r[m].n, 1) + 1
     /\ Keep(root, IF root[1] # 0 /\ Is(root[1], T) THEN <<>> ELSE Fresh(r))

Query == /\ phase = "use" /\ Len(hist) < Depth
         /\ \E root \in IF Sim THEN {LET R == Roots IN IF R # {<<0, 0>>} /\ Some(1..2) = 1 THEN Some(R) ELSE <<0, 0>>} ELSE Roots :
            \E T \in IF Sim THEN {Some(TypeSets)} ELSE TypeSets :
            \E st \in IF Sim THEN {Some(Structures)} ELSE Structures :
            \E take \in IF Sim THEN {Some(Takes)} ELSE Takes :
            \E n \in IF Sim THEN {Some(Counts)} ELSE Counts :
              \/ take = 99 /\ Find(root, T)
              \/ Top(root, T, take)
              \/ take = 99 /\ Collect(root, T)
              \/ take = 99 /\ FindAll(root, st)
              \/ YieldAll(root, st, take)
              \/ Depth_(root, IF n < 0 THEN 0 ELSE n, take)
              \/ Sub(root, T, take)
              \/ SubN(root, T, n, take)
         /\ UNCHANGED <<items, ns, tops, cut, phase>>
End == /\ phase = "use" /\ Len(hist) = Depth /\ phase' = "end" /\ UNCHANGED <<items, ns, tops, cut, cur, objs, hist>>
Next == Add \/ Start \/ Query \/ End

(* -------------------------------- properties ------------------------------- *)
Whole == phase # "build" /\ cut = FileSize(Trees(items, 1, 0)[1])
\* independent statement: on a complete file from its beginning the result is the set of nodes with the property, in increasing (file) order
InOrder(h) == \A i \in 1..Len(h.r) - 1 : h.r[i].n < h.r[i + 1].n
First == hist # <<>> /\ Whole
NodesIs(T) == {n \in DOMAIN ns : Is(n, T)}
Under(n, m) == n < m /\ ns[m].addr >= ns[n].addr /\ ns[m].addr + ns[m].size <= ns[n].addr + ns[n].size /\ ns[m].lvl > ns[n].lvl
Got(h) == {h.r[i].n : i \in DOMAIN h.r}
Sound == First => LET h == hist[1] IN
  /\ InOrder(h)
  /\ h.take = 99 => CASE h.q \in {"top", "collect"} -> Got(h) = {n \in NodesIs(h.a) : ns[n].lvl = 0}
                      [] h.q = "depth" -> Got(h) = DOMAIN ns /\ \A i \in DOMAIN h.r : h.r[i].l = ns[h.r[i].n].lvl + h.a
                      [] h.q = "sub" -> Got(h) = {n \in NodesIs(h.a) : ~\E m \in NodesIs(h.a) : Under(m, n)}
                      [] h.q = "subn" -> Cardinality(Got(h)) <= (IF h.a.n < 0 THEN 0 ELSE h.a.n) /\ Got(h) \subseteq NodesIs(h.a.T)
                      [] h.q \in {"findall", "yieldall"} -> Got(h) \subseteq NodesIs(h.a[Len(h.a)])
                      [] OTHER -> TRUE
\* nothing that is not in the file is delivered, nothing twice (by queries on the file)
Present == \A h \in DOMAIN hist : \A i \in DOMAIN hist[h].r : Fits(hist[h].r[i].n)
Once == \A g, h \in DOMAIN hist : g < h /\ hist[g].o = 0 /\ hist[h].o = 0 /\ hist[g].q # "subn" /\ hist[h].q # "subn" => Got(hist[g]) \cap Got(hist[h]) = {}
Inv == (phase = "end" \/ ~Sim) => Sound /\ Present /\ Once
Export == phase = "end" => CSVWrite("%1$s", <<ToJson([file |-> ns, size |-> FileSize(Trees(items, 1, 0)[1]), cut |-> cut, hist |-> hist])>>, IOEnv.OUT)
=============================================================================
