----------------------------- MODULE EioFormat -----------------------------
(* The eventio container format: a file is a sequence of top-level objects,
   an object is a header followed by a payload which is either opaque bytes or
   (only_subobjects) a sequence of objects.

   A file is described by a *forest*: a sequence of items
     [t |-> type, v |-> version, id |-> id, u |-> user bit, x |-> extended,
      s |-> only sub-objects, n |-> payload length of a leaf, k |-> <<items>>]
   and optionally p |-> [i |-> number of a parsable payload (module Layout), ct |-> bytes read on
   construction, ch |-> number of chunks of cb bytes if it can be parsed in chunks].
   All positions below are byte offsets in the (uncompressed) file.        *)
EXTENDS Integers, Sequences, FiniteSets

SyncSize == 4
HeaderSize == 12
ExtSize == 4

HSize(it, top) == HeaderSize + (IF top THEN SyncSize ELSE 0) + (IF it.x THEN ExtSize ELSE 0)

RECURSIVE CSize(_), TotalSize(_, _), SumSizes(_, _)
CSize(it) == IF it.s THEN SumSizes(it.k, FALSE) ELSE it.n
TotalSize(it, top) == HSize(it, top) + CSize(it)
SumSizes(ks, top) == IF ks = <<>> THEN 0 ELSE TotalSize(Head(ks), top) + SumSizes(Tail(ks), top)

FileSize(forest) == SumSizes(forest, TRUE)

(* Flat table of all objects in depth-first order; `kids` are the indices of
   the direct sub-objects.  Entry:
     start: first byte of the header (of the sync marker at top level)
     addr:  first byte of the payload, size: payload length             *)
RECURSIVE NodesOf(_, _, _, _, _)
\* items, base address, top-level?, level, number of nodes before -> sequence of nodes
NodesOf(items, base, top, lvl, before) ==
  IF items = <<>> THEN <<>>
  ELSE LET it == Head(items)
           h  == HSize(it, top)
           sub == IF it.s THEN NodesOf(it.k, base + h, FALSE, lvl + 1, before + 1) ELSE <<>>
           rest == NodesOf(Tail(items), base + TotalSize(it, top), top, lvl, before + 1 + Len(sub))
           direct == SelectSeq([j \in 1..Len(sub) |-> <<before + 1 + j, sub[j].lvl>>], LAMBDA p : p[2] = lvl + 1)
           node == [t |-> it.t, v |-> it.v, id |-> it.id, u |-> it.u, x |-> it.x, s |-> it.s,
                    lvl |-> lvl, start |-> base, hsize |-> h, addr |-> base + h, size |-> CSize(it), p |-> IF "p" \in DOMAIN it THEN it.p ELSE [i |-> 0, ct |-> 0, ch |-> 0, cb |-> 0],
                    kids |-> [j \in 1..Len(direct) |-> direct[j][1]]]
       IN <<node>> \o sub \o rest

Nodes(forest) == NodesOf(forest, 0, TRUE, 0, 0)
TopNodes(nodes) == SelectSeq([i \in 1..Len(nodes) |-> i], LAMBDA i : nodes[i].lvl = 0)

(* ---- sanity of the format itself: objects tile the file ---- *)
WellFormed(forest) ==
  LET ns == Nodes(forest)
      tops == TopNodes(ns)
      tile(seq, from, to) ==
        /\ seq = <<>> => from = to
        /\ seq # <<>> => /\ ns[seq[1]].start = from
                         /\ ns[seq[Len(seq)]].addr + ns[seq[Len(seq)]].size = to
                         /\ \A i \in 1..Len(seq) - 1 : ns[seq[i]].addr + ns[seq[i]].size = ns[seq[i + 1]].start
  IN /\ tile(tops, 0, FileSize(forest))
     /\ \A i \in 1..Len(ns) : ns[i].s => tile(ns[i].kids, ns[i].addr, ns[i].addr + ns[i].size)
     /\ \A i \in 1..Len(ns) : ns[i].addr = ns[i].start + ns[i].hsize

(* ---- parameterised families of files ---- *)
\* node labels: the k-th object of a file gets the k-th entry (cyclically), so that
\* all objects of a file are distinguishable.
Labels == << [t |-> 5999, v |-> 1, id |-> 7, u |-> 0, c |-> "EventIOObject"],
             [t |-> 2010, v |-> 0, id |-> 100, u |-> 0, c |-> "ArrayEvent"],
             [t |-> 65535, v |-> 4095, id |-> -1, u |-> 1, c |-> "EventIOObject"],
             [t |-> 1204, v |-> 2, id |-> 2147483647, u |-> 0, c |-> "TelescopeData"],
             [t |-> 70, v |-> 1, id |-> -2147483647, u |-> 1, c |-> "History"],
             [t |-> 0, v |-> 0, id |-> 0, u |-> 0, c |-> "EventIOObject"],
             [t |-> 71, v |-> 1, id |-> 0, u |-> 0, c |-> "HistoryCommandLine"],
             [t |-> 2205, v |-> 0, id |-> 77, u |-> 0, c |-> "TelescopeEvent"],
             [t |-> 3333, v |-> 9, id |-> 12, u |-> 1, c |-> "EventIOObject"] >>

Label(k) == Labels[((k - 1) % Len(Labels)) + 1]
ClassOf(t) == IF \E i \in 1..Len(Labels) : Labels[i].t = t
              THEN Labels[CHOOSE i \in 1..Len(Labels) : Labels[i].t = t].c ELSE "EventIOObject"

Leaf(k, n, x) == [t |-> Label(k).t, v |-> Label(k).v, id |-> Label(k).id, u |-> Label(k).u, x |-> x, s |-> FALSE, n |-> n, k |-> <<>>]
Box(k, x, kids) == [t |-> Label(k).t, v |-> Label(k).v, id |-> Label(k).id, u |-> Label(k).u, x |-> x, s |-> TRUE, n |-> 0, k |-> kids]

(* All forests with exactly m objects whose leaves are from LeafKinds (a set of <<n, x>>)
   and whose boxes have x in BoxKinds; objects are labelled in depth-first order from k. *)
RECURSIVE Forests(_, _, _, _)
Forests(m, k, LeafKinds, BoxKinds) ==
  IF m = 0 THEN {<<>>}
  ELSE \* first tree is a leaf
       UNION { { <<Leaf(k, lk[1], lk[2])>> \o f : f \in Forests(m - 1, k + 1, LeafKinds, BoxKinds) } : lk \in LeafKinds }
       \cup \* or a box with i objects inside
       UNION { UNION { { <<Box(k, bx, sub)>> \o f : f \in Forests(m - 1 - i, k + 1 + i, LeafKinds, BoxKinds) }
                       : sub \in Forests(i, k + 1, LeafKinds, BoxKinds) } : i \in 0..(m - 1), bx \in BoxKinds }
=============================================================================
