------------------------------ MODULE EioCore ------------------------------
(* The reader of an eventio file: one file handle shared by the file iterator
   (with one object of lookahead for peek) and all objects handed out.

   Every public operation is one action.  `hist` records the operations with
   the results the specification prescribes; complete behaviours are exported
   and replayed in the implementation (harness/w_core.py).

   cut: the file may be truncated at any byte (cut = size: complete).
   cur: number of the next top-level object;  la: result of an unconsumed peek
   objs: the objects handed out so far: [node, pos, kid, gen], pos is the position
         in the payload (Undef after iteration or parsing, which may move it), kid the
         number of the next sub-object, gen the number of the next chunk of a
         running chunked parse (0: none running), which keeps its own position.
   maxfp: furthest byte touched; an operation which has to go back may fail with
         OSError on forward-only storage (marked bw).                          *)
EXTENDS EioFormat, TLC, Json, CSV, IOUtils

CONSTANTS FileSet,      \* name of the family of files
          Given,        \* the family "given"
          Cuts,         \* "none" | "all"
          Ops,          \* enabled operations
          ReadArgs, SeekArgs,
          MaxObjs,      \* operations address at most the first MaxObjs objects
          Depth,        \* length of behaviours
          Sim,          \* TRUE: simulation, behaviours end with an explicit step (one export per behaviour)
          FwdSafe       \* TRUE: seeks stay inside the file (all storage forms)

VARIABLES ns, tops,     \* table of the objects of the file, indices of the top-level ones (constant)
          cut, cur, la, objs, maxfp, hist

vars == <<ns, tops, cut, cur, la, objs, maxfp, hist>>


Undef == -1
None == 0
LaErr == -1
LaErrBack == -2    \* likewise, and the failing read had to go back

SmallFiles == { <<Leaf(1, 3, FALSE), Leaf(2, 0, FALSE), Leaf(3, 2, TRUE)>>,
                <<Leaf(1, 4, FALSE), Box(2, FALSE, <<Leaf(3, 2, FALSE), Leaf(4, 3, TRUE)>>), Leaf(5, 1, FALSE)>>,
                <<Box(1, TRUE, <<Leaf(2, 3, FALSE), Box(3, FALSE, <<Leaf(4, 2, FALSE)>>), Leaf(5, 0, FALSE)>>), Leaf(6, 3, FALSE)>> }

CursorFiles == { <<Leaf(1, 5, FALSE), Leaf(2, 4, TRUE), Leaf(3, 1, FALSE)>>,
                 <<Box(1, FALSE, <<Leaf(2, 4, FALSE), Leaf(3, 3, FALSE)>>), Leaf(4, 2, FALSE)>> }

DeepFiles == { <<Box(1, FALSE, <<Box(2, TRUE, <<Box(3, FALSE, <<Leaf(4, 3, FALSE), Leaf(5, 1, FALSE)>>), Leaf(6, 2, FALSE)>>), Leaf(7, 0, TRUE)>>),
                 Leaf(8, 5, FALSE), Box(9, FALSE, <<Leaf(10, 1, FALSE), Leaf(11, 6, FALSE), Box(12, FALSE, <<>>)>>), Leaf(13, 2, TRUE)>>,
               <<Leaf(1, 2, TRUE), Leaf(2, 0, FALSE), Box(3, FALSE, <<>>), Leaf(4, 7, FALSE), Box(5, TRUE, <<Leaf(6, 4, FALSE), Leaf(7, 4, TRUE), Leaf(8, 1, FALSE)>>),
                 Leaf(9, 1, FALSE), Leaf(10, 9, FALSE)>> }

\* larger than the buffers of pipes and decompressors
BigFiles == { <<Leaf(1, 70001, FALSE), Box(2, FALSE, <<Leaf(3, 1500000, FALSE), Leaf(4, 13, TRUE)>>), Leaf(5, 200000, FALSE)>>,
              <<Leaf(1, 3, FALSE), Leaf(2, 1048579, TRUE), Leaf(3, 65536, FALSE), Leaf(4, 1, FALSE)>> }

\* larger than any chunk one would read at once
HugeFiles == { <<Leaf(1, 20971523, FALSE), Leaf(2, 3, FALSE), Box(3, FALSE, <<Leaf(4, 17825793, FALSE), Leaf(5, 5, FALSE)>>), Leaf(6, 2, FALSE)>> }

LK == { <<0, FALSE>>, <<3, FALSE>>, <<2, TRUE>> }
AllForests(m) == UNION { Forests(i, 1, LK, {FALSE, TRUE}) : i \in 0..m }

FileDomain == CASE FileSet = "small" -> SmallFiles
                [] FileSet = "cursor" -> CursorFiles
                [] FileSet = "deep" -> DeepFiles
                [] FileSet = "big" -> BigFiles
                [] FileSet = "huge" -> HugeFiles
                [] FileSet = "mix" -> SmallFiles \cup CursorFiles \cup DeepFiles
                [] FileSet = "given" -> Given
                [] FileSet = "forest2" -> AllForests(2) \ {<<>>}
                [] FileSet = "forest3" -> AllForests(3) \ {<<>>}
                [] FileSet = "forest4" -> AllForests(4) \ {<<>>}

size == IF tops = <<>> THEN 0 ELSE ns[tops[Len(tops)]].addr + ns[tops[Len(tops)]].size

Init ==
  \E f \in FileDomain :
  /\ ns = Nodes(f) /\ tops = TopNodes(ns)
  /\ Assert(WellFormed(f), "format")
  /\ cut \in (IF Cuts = "none" THEN {size} ELSE 4..size)  \* at least the sync marker, else no eventio file (EioGate)
  /\ cur = 1 /\ la = None /\ objs = <<>> /\ maxfp = 0 /\ hist = <<>>

More == Len(hist) < Depth
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Shown(n) == [n |-> n, c |-> IF ns[n].p.i > 0 \/ ns[n].p.ct > 0 THEN "any" ELSE ClassOf(ns[n].t), t |-> ns[n].t, v |-> ns[n].v, id |-> ns[n].id, u |-> ns[n].u, x |-> ns[n].x,
             s |-> ns[n].s, addr |-> ns[n].addr, size |-> ns[n].size, hs |-> ns[n].hsize]

\* an operation, its prescribed result, and whether it may need to go backwards
Rec(op, o, arg, r, target) == [op |-> op, o |-> o, a |-> arg, r |-> r, bw |-> (target < maxfp)]

NewObj(n) == [node |-> n, pos |-> IF ns[n].p.ct = 0 THEN 0 ELSE Undef, kid |-> 1, gen |-> 0]

(* What reading the next top-level object gives: "stop", "eof" or the node *)
TopState(i) ==
  IF i > Len(tops) THEN "stop"
  ELSE LET n == ns[tops[i]] IN    \* (types which read on construction are not combined with cuts)
       IF n.start >= cut THEN "stop"                       \* also if the cut is in the payload of the previous object
       ELSE IF n.start + n.hsize > cut THEN "eof"           \* incomplete header
       ELSE "obj"
TopStart(i) == IF i > Len(tops) THEN size ELSE ns[tops[i]].start
TopEnd(i) == IF TopState(i) = "obj" THEN ns[tops[i]].start + ns[tops[i]].hsize + ns[tops[i]].p.ct ELSE Max2(TopStart(i), cut)

(* ------------------------------ file level ------------------------------ *)
Next_(kind) ==
  /\ kind \in Ops /\ More
  /\ IF la \in {LaErr, LaErrBack}
     THEN /\ hist' = Append(hist, Rec("next", 0, <<>>, [k |-> "eof"], IF la = LaErr THEN maxfp ELSE -1))
          /\ UNCHANGED <<ns, tops, cut, cur, la, objs, maxfp>>
     ELSE IF la # None
     THEN /\ hist' = Append(hist, Rec("next", 0, <<>>, [k |-> "obj", v |-> Shown(la)], maxfp))
          /\ objs' = Append(objs, NewObj(la))
          /\ la' = None
          /\ UNCHANGED <<ns, tops, cut, cur, maxfp>>
     ELSE LET st == TopState(cur) IN
          /\ maxfp' = Max2(maxfp, TopEnd(cur))
          /\ hist' = Append(hist, Rec("next", 0, <<>>,
                 IF st = "obj" THEN [k |-> "obj", v |-> Shown(tops[cur])] ELSE [k |-> st], TopStart(cur)))
          /\ objs' = IF st = "obj" THEN Append(objs, NewObj(tops[cur])) ELSE objs
          /\ cur' = IF st = "obj" THEN cur + 1 ELSE cur
          /\ UNCHANGED <<ns, tops, cut, la>>

NextTop == Next_("next")

Peek ==
  /\ "peek" \in Ops /\ More
  /\ IF la # None
     THEN /\ hist' = Append(hist, Rec("peek", 0, <<>>, IF la \in {LaErr, LaErrBack} THEN [k |-> "none"] ELSE [k |-> "obj", v |-> Shown(la)], maxfp))
          /\ UNCHANGED <<ns, tops, cut, cur, la, objs, maxfp>>
     ELSE LET st == TopState(cur) IN
          /\ maxfp' = Max2(maxfp, TopEnd(cur))
          /\ hist' = Append(hist, Rec("peek", 0, <<>>,
                 CASE st = "obj" -> [k |-> "obj", v |-> Shown(tops[cur])]
                   [] st = "stop" -> [k |-> "none"]
                   [] st = "eof" -> [k |-> "warn"], TopStart(cur)))
          /\ la' = CASE st = "obj" -> tops[cur] [] st = "stop" -> None [] st = "eof" -> IF TopStart(cur) < maxfp THEN LaErrBack ELSE LaErr
          /\ cur' = IF st = "obj" THEN cur + 1 ELSE cur
          /\ UNCHANGED <<ns, tops, cut, objs>>

\* The file itself can be read and positioned, too.  The position is only specified as long
\* as nothing else is done with the file (Undef otherwise).
FPos == IF hist = <<>> THEN 0
        ELSE LET h == hist[Len(hist)] IN
             CASE h.op \in {"fseek", "ftell"} -> h.r.p [] h.op = "fread" -> h.r.hi [] OTHER -> Undef
FTargets == {0, 1, cut} \cup {Min2(cut, ns[i].start) : i \in DOMAIN ns} \cup {Min2(cut, ns[i].addr) : i \in DOMAIN ns}

FSeek(t, whence) ==
  /\ "fseek" \in Ops /\ More
  /\ (whence = 1 => FPos # Undef)
  /\ hist' = Append(hist, Rec("fseek", 0, <<CASE whence = 0 -> t [] whence = 1 -> t - FPos [] whence = 2 -> t - cut, whence>>, [k |-> "pos", p |-> t],
                              IF whence = 2 THEN -1 ELSE t))
  /\ maxfp' = Max2(maxfp, t)
  /\ UNCHANGED <<ns, tops, cut, cur, la, objs>>

FTell == /\ "ftell" \in Ops /\ More /\ FPos # Undef
         /\ hist' = Append(hist, Rec("ftell", 0, <<>>, [k |-> "pos", p |-> FPos], maxfp))
         /\ UNCHANGED <<ns, tops, cut, cur, la, objs, maxfp>>

FRead(n) ==
  /\ "fread" \in Ops /\ More /\ FPos # Undef
  /\ LET hi == IF n = -1 THEN cut ELSE Min2(cut, FPos + n) IN
     /\ hist' = Append(hist, Rec("fread", 0, <<n>>, [k |-> "bytes", lo |-> FPos, hi |-> hi], maxfp))
     /\ maxfp' = Max2(maxfp, hi)
  /\ UNCHANGED <<ns, tops, cut, cur, la, objs>>

(* ----------------------------- object level ----------------------------- *)
ObjIds == 1..Min2(Len(objs), MaxObjs)
N(o) == ns[objs[o].node]

SetPos(o, p) == objs' = [objs EXCEPT ![o].pos = p]

Read(o, n) ==
  /\ "read" \in Ops /\ More
  /\ objs[o].pos # Undef
  /\ LET p == objs[o].pos
         remaining == Max2(0, N(o).size - p)
         len == IF n = -1 \/ n > remaining THEN remaining ELSE n
         lo == N(o).addr + p
     IN IF len > 0 /\ lo + len > cut
        THEN \* the bytes are missing: error, the position is not specified afterwards
             /\ hist' = Append(hist, Rec("read", o, <<n>>, [k |-> "eof"], lo))
             /\ SetPos(o, Undef)
             /\ maxfp' = Max2(maxfp, cut)
        ELSE /\ hist' = Append(hist, Rec("read", o, <<n>>, [k |-> "bytes", lo |-> lo, hi |-> lo + len],
                                         IF len > 0 THEN lo ELSE maxfp))
             /\ SetPos(o, p + len)
             /\ maxfp' = IF len > 0 THEN Max2(maxfp, lo + len) ELSE maxfp
  /\ UNCHANGED <<ns, tops, cut, cur, la>>

Seek(o, off, whence) ==
  /\ "seek" \in Ops /\ More
  /\ (whence = 1 => objs[o].pos # Undef)
  /\ LET p == CASE whence = 0 -> off
                [] whence = 1 -> objs[o].pos + off
                [] whence = 2 -> N(o).size - Min2(off, N(o).size)
     IN IF p < 0
        THEN /\ hist' = Append(hist, Rec("seek", o, <<off, whence>>, [k |-> "err"], maxfp))
             /\ UNCHANGED <<objs, maxfp>>
        ELSE /\ FwdSafe => N(o).addr + p <= cut
             /\ hist' = Append(hist, Rec("seek", o, <<off, whence>>, [k |-> "pos", p |-> p], N(o).addr + p))
             /\ SetPos(o, p)
             /\ maxfp' = Max2(maxfp, N(o).addr + p)
  /\ UNCHANGED <<ns, tops, cut, cur, la>>

Tell(o) ==
  /\ "tell" \in Ops /\ More
  /\ objs[o].pos # Undef
  /\ hist' = Append(hist, Rec("tell", o, <<>>, [k |-> "pos", p |-> objs[o].pos], maxfp))
  /\ UNCHANGED <<ns, tops, cut, cur, la, objs, maxfp>>

\* next(iter(o))
NextSub(o) ==
  /\ "sub" \in Ops /\ More
  /\ LET n == N(o) IN
     IF ~n.s
     THEN /\ hist' = Append(hist, Rec("sub", o, <<>>, [k |-> "refused"], maxfp))
          /\ UNCHANGED <<objs, maxfp>>
     ELSE IF objs[o].kid > Len(n.kids)
     THEN /\ hist' = Append(hist, Rec("sub", o, <<>>, [k |-> "stop"], maxfp))
          /\ UNCHANGED <<objs, maxfp>>
     ELSE LET kn == n.kids[objs[o].kid]
              k == ns[kn]
          IN IF k.start + k.hsize > cut
             THEN /\ hist' = Append(hist, Rec("sub", o, <<>>, [k |-> "eof"], k.start))
                  /\ SetPos(o, Undef)
                  /\ maxfp' = Max2(maxfp, Max2(cut, k.start))
             ELSE /\ hist' = Append(hist, Rec("sub", o, <<>>, [k |-> "obj", v |-> Shown(kn)], k.start))
                  /\ objs' = Append([objs EXCEPT ![o].kid = @ + 1, ![o].pos = Undef], NewObj(kn))
                  /\ maxfp' = Max2(maxfp, k.start + k.hsize + k.p.ct)
  /\ UNCHANGED <<ns, tops, cut, cur, la>>

\* parse(): the content, whatever happened before
Parse(o) ==
  /\ "parse" \in Ops /\ More
  /\ LET n == N(o)
         lo == n.addr + n.p.ct
         hi == n.addr + n.size IN
     /\ n.p.ch = 0 /\ (n.p.ct > 0 => n.p.i > 0)
     /\ IF n.p.i = 0
        THEN /\ hist' = Append(hist, Rec("parse", o, <<>>, [k |-> "unparsable"], maxfp))
             /\ UNCHANGED <<objs, maxfp>>
        ELSE IF hi > cut
        THEN /\ hist' = Append(hist, Rec("parse", o, <<>>, [k |-> "eof"], lo))
             /\ SetPos(o, Undef)
             /\ maxfp' = Max2(maxfp, cut)
        ELSE /\ hist' = Append(hist, Rec("parse", o, <<>>, [k |-> "parsed", i |-> n.p.i], lo))
             /\ SetPos(o, Undef)
             /\ maxfp' = Max2(maxfp, hi)
  /\ UNCHANGED <<ns, tops, cut, cur, la>>

\* the next chunk of a parse in chunks
Chunk(o) ==
  /\ "chunk" \in Ops /\ More
  /\ LET n == N(o)
         g == IF objs[o].gen = 0 THEN 1 ELSE objs[o].gen
         lo == n.addr + n.p.ct + n.p.cb * (g - 1) IN
     /\ n.p.ch > 0
     /\ n.addr + n.size <= cut
     /\ IF g > n.p.ch
        THEN /\ hist' = Append(hist, Rec("chunk", o, <<g>>, [k |-> "stop"], maxfp))
             /\ UNCHANGED <<objs, maxfp>>
        ELSE /\ hist' = Append(hist, Rec("chunk", o, <<g>>, [k |-> "chunk", i |-> n.p.i, j |-> g], IF g = 1 THEN n.addr + n.p.ct ELSE lo))
             /\ objs' = [objs EXCEPT ![o].pos = Undef, ![o].gen = g + 1]
             /\ maxfp' = Max2(maxfp, n.addr + n.size)
  /\ UNCHANGED <<ns, tops, cut, cur, la>>

End == /\ Sim /\ Len(hist) = Depth
       /\ hist' = Append(hist, Rec("end", 0, <<>>, [k |-> "end"], maxfp))
       /\ UNCHANGED <<ns, tops, cut, cur, la, objs, maxfp>>

Next ==
  \/ End
  \/ NextTop
  \/ Peek
  \/ FTell
  \/ \E t \in FTargets, w \in 0..2 : FSeek(t, w)
  \/ \E n \in ReadArgs : FRead(n)
  \/ \E o \in ObjIds :
       \/ \E n \in ReadArgs : Read(o, n)
       \/ \E s \in SeekArgs : Seek(o, s[1], s[2])
       \/ Tell(o)
       \/ NextSub(o)
       \/ Parse(o)
       \/ Chunk(o)

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TypeOK == /\ cur \in 1..(Len(tops) + 1)
          /\ la \in {None, LaErr, LaErrBack} \cup 1..Len(ns)
          /\ \A o \in DOMAIN objs : objs[o].node \in 1..Len(ns) /\ objs[o].pos >= Undef

Delivered == SelectSeq(hist, LAMBDA h : h.op = "next" /\ h.r.k = "obj")
\* C01: what next() delivered is a prefix of the top-level objects, in order, each once
TraversalExact == \A i \in 1..Len(Delivered) : i <= Len(tops) /\ Delivered[i].r.v.n = tops[i]
\* C01: likewise for every object iterated
SubExact == \A o \in DOMAIN objs :
              LET d == SelectSeq(hist, LAMBDA h : h.op = "sub" /\ h.o = o /\ h.r.k = "obj")
              IN \A i \in 1..Len(d) : i <= Len(N(o).kids) /\ d[i].r.v.n = N(o).kids[i]
\* C03: reads are confined to the payload
Confined == \A i \in 1..Len(hist) : (hist[i].op = "read" /\ hist[i].r.k = "bytes") =>
               /\ hist[i].r.lo < hist[i].r.hi => (hist[i].r.lo >= N(hist[i].o).addr /\ hist[i].r.hi <= N(hist[i].o).addr + N(hist[i].o).size)
               /\ hist[i].r.hi <= Max2(cut, hist[i].r.lo)   \* C06: and to what is in the file
\* C04: peek then next give the same object
PeekNext == \A i \in 1..Len(hist) - 1 :
               (hist[i].op = "peek" /\ hist[i].r.k = "obj" /\ hist[i + 1].op \in {"peek", "next"}) => hist[i + 1].r = hist[i].r
\* C06: nothing behind the cut is ever shown, and headers shown are completely in the file
NoPhantom == \A i \in 1..Len(hist) : hist[i].r.k = "obj" => hist[i].r.v.addr <= cut
\* C23: what parse gives depends on the object only
ParseOfObject == \A i \in 1..Len(hist) : hist[i].op = "parse" /\ hist[i].r.k = "parsed" => hist[i].r.i = N(hist[i].o).p.i
ParseRepeatable == \A i, j \in 1..Len(hist) : hist[i].op = "parse" /\ hist[j].op = "parse" /\ hist[i].o = hist[j].o => hist[i].r = hist[j].r
\* stop is only reported when nothing of the next object is in the file
CleanEnd == \A i \in 1..Len(hist) : (hist[i].op = "next" /\ hist[i].r.k = "stop") =>
               \A t \in DOMAIN tops : ns[tops[t]].start < cut => \E j \in 1..i : hist[j].op = "next" /\ hist[j].r.k = "obj" /\ hist[j].r.v.n = tops[t]

Inv == TypeOK /\ TraversalExact /\ SubExact /\ Confined /\ PeekNext /\ NoPhantom /\ CleanEnd /\ ParseOfObject /\ ParseRepeatable

\* simulation: the properties of hist are properties of its prefixes, checking complete behaviours suffices
InvSim == Len(hist) > Depth => Inv

(* ------------------------------- export -------------------------------- *)
Behaviour == [file |-> ns, size |-> size, cut |-> cut, hist |-> SubSeq(hist, 1, Depth)]
Export == Len(hist) = Depth + (IF Sim THEN 1 ELSE 0) => CSVWrite("%1$s", <<ToJson(Behaviour)>>, IOEnv.OUT)
=============================================================================
