----------------------------- MODULE LayoutBase -----------------------------
(* Vocabulary for the layouts of payloads.

   A layout is a sequence of items, consumed from left to right by the decoder
   machine of module Layout.  The content of a payload is abstract: the stored
   elements are *tokens*, numbered 1, 2, ... in the order of storage.  Items:
     Put(e, v)         stores the numbers v (counts, flags, dimensions)
     Key(k, e, sh, v)  likewise, and they are the value of result key k
     Fld(k, e, sh)     stores an array of shape sh, which is the value of key k
     FldX(k, e, sh, x) likewise; x names the conversion between stored and returned value
     Raw(nm, e, n)     stores n elements which later items refer to by nm
     Ref(k, sh, v, x)  key k is an array of shape sh with elements v (in C order), each <<nm, index>>, Zero or NaN
     Pad(e, n)         n elements which no key depends on
     Const(k, v)       key k has the value v whatever is stored
     NoneK(k)          key k is None,   Absent(k): there is no key k
     Len_(k, n)        the container k has n entries
     Pairs(k, ks, vs)  k is a dictionary with these keys and values, in this order
   Encodings e: i1 u1 i2 u2 i4 u4 f2 f4 f8, sv/uv (signed/unsigned variable length; sv4: at most 32 bits),
     str/vstr/vkey/strpad (strings with 16 bit/variable length count, distinct keys, padded), chr (a character),
     name4 (4 letters), diff/diff16 (differences as
     unsigned variable length running differences, one run per item), time (two i4), strb (lit bytes).
   Keys are paths "a/b", components which are numbers index lists; "" is the result
   itself, "@a" is attribute a of the object.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Zero == <<"0", 0>>
NaN == <<"nan", 0>>

Prod(sh) == LET RECURSIVE P(_) P(s) == IF s = <<>> THEN 1 ELSE Head(s) * P(Tail(s)) IN P(sh)
Item(op) == [op |-> op, k |-> "", e |-> "", sh |-> <<>>, lit |-> <<>>, nm |-> "", n |-> 0, v |-> <<>>, x |-> "", c |-> 0]
Put(e, v) == <<[Item("put") EXCEPT !.e = e, !.lit = v]>>
Key(k, e, sh, v) == <<[Item("key") EXCEPT !.k = k, !.e = e, !.sh = sh, !.lit = v]>>
Key1(k, e, v) == Key(k, e, <<>>, <<v>>)
FldX(k, e, sh, x) == <<[Item("fld") EXCEPT !.k = k, !.e = e, !.sh = sh, !.n = Prod(sh), !.x = x]>>
Fld(k, e, sh) == FldX(k, e, sh, "")
Raw(nm, e, n) == <<[Item("raw") EXCEPT !.nm = nm, !.e = e, !.n = n]>>
Ref(k, sh, v, x) == <<[Item("ref") EXCEPT !.k = k, !.sh = sh, !.v = v, !.x = x]>>
Const(k, v) == <<[Item("const") EXCEPT !.k = k, !.c = v]>>
NoneK(k) == <<[Item("none") EXCEPT !.k = k]>>
Absent(k) == <<[Item("absent") EXCEPT !.k = k]>>
Len_(k, n) == <<[Item("len") EXCEPT !.k = k, !.n = n]>>
Pairs(k, ks, vs) == <<[Item("pairs") EXCEPT !.k = k, !.lit = ks, !.v = vs, !.n = Len(ks)]>>
\* several scalar fields of the same encoding
Flds(ks, e) == [i \in 1..Len(ks) |-> Fld(ks[i], e, <<>>)[1]]
Absents(ks) == [i \in 1..Len(ks) |-> Absent(ks[i])[1]]

\* the fields ks if p, otherwise they are absent
Opt(p, ks, e) == IF p THEN Flds(ks, e) ELSE Absents(ks)
Pad(e, n) == <<[Item("pad") EXCEPT !.e = e, !.n = n]>>

Cat(ss) == FlattenSeq(ss)
When(p, s) == IF p THEN s ELSE <<>>
Rep(n, v) == [i \in 1..n |-> v]
Span(nm, from, n) == [i \in 1..n |-> <<nm, from + i - 1>>]     \* n consecutive elements of a raw item
\* the sum of f over 1..n, and the elements of s in a set of positions
Sum(n, f(_)) == LET RECURSIVE Q(_) Q(i) == IF i = 0 THEN 0 ELSE f(i) + Q(i - 1) IN Q(n)
\* elements of the rows x columns matrix of raw tokens nm (stored row by row), column c
Column(nm, n, w, c) == [i \in 1..n |-> <<nm, (i - 1) * w + c>>]
Bit(n, i) == (n \div (2 ^ i)) % 2 = 1
P(a, b) == a \o "/" \o b
P2(a, b) == IF a = "" THEN b ELSE P(a, b)
S(n) == ToString(n)

Ids == {0, 1, 5, 1000, 70000}
Versions == 0..8 \cup {255, 4095}
=============================================================================
