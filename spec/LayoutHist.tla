----------------------------- MODULE LayoutHist -----------------------------
(* History, meta parameters and histograms (C21). *)
EXTENDS LayoutBase

HTypes == {"I", "i", "R", "r", "F", "D"}
HistCases ==
  [t : {71, 72}, ver : {0, 1}, id : {0, 1, 5}, n : {1}]
  \cup [t : {75}, ver : {0}, id : {-1, 0, 1, 300}, n : {0, 1, 2, 5, 20}]
  \cup [t : {100}, ver : 1..2, id : {0}, hs : {<<>>} \cup {<<[ty |-> ty, nx |-> nx, ny |-> ny, te |-> te]>> : ty \in HTypes, nx \in {0, 1, 3}, ny \in {0, 1, 2}, te \in {0, 6}}]
  \cup [t : {100}, ver : 1..2, id : {0},
        hs : {<<[ty |-> a, nx |-> 2, ny |-> y, te |-> d], [ty |-> b, nx |-> 3, ny |-> 2, te |-> 6 - d], [ty |-> "F", nx |-> 1, ny |-> 0, te |-> 1]>>
                : a, b \in HTypes, y \in {0, 3}, d \in {0, 6}}]

\* dimensions which need more than 7, 8, 14, 15 or 16 bits
HistWide ==
  [t : {75}, ver : {0}, id : {-1, 7}, n : {127, 128, 300}]
  \cup [t : {100}, ver : 1..2, id : {0}, hs : {<<[ty |-> ty, nx |-> nx, ny |-> ny, te |-> te], [ty |-> "I", nx |-> 2, ny |-> 0, te |-> 1]>> :
          ty \in {"I", "R", "F"}, nx \in {128, 300}, ny \in {0, 1, 256}, te \in {0, 70000}}]
  \cup [t : {100}, ver : 1..2, id : {0}, hs : {<<[ty |-> ty, nx |-> nx, ny |-> 0, te |-> 70000]>> : ty \in {"i", "r", "D"}, nx \in {10000, 32767}}]
  \cup [t : {100}, ver : 1..2, id : {0}, hs : {[i \in 1..n |-> [ty |-> IF i % 2 = 0 THEN "F" ELSE "I", nx |-> i % 4, ny |-> i % 3, te |-> i % 5]] : n \in {40, 130, 260}}]

Hist(h, i) ==
  LET k(x) == P(S(i - 1), x)
      float == h.ty \in {"R", "r", "F", "D"}     \* kind of the ranges
      weighted == h.ty \in {"F", "D"}            \* kind of the contents
      e == IF float THEN "f4" ELSE "i4"
      axis(a) == Flds(<<k("underflow_" \o a), k("overflow_" \o a)>>, "i4") \o Flds(<<k("lower_" \o a), k("upper_" \o a), k("sum_" \o a), k("tsum_" \o a)>>, e)
      sh == IF h.ny > 0 THEN <<h.ny, h.nx>> ELSE <<h.nx>>
  IN
  Key(k("type"), "chr", <<>>, <<h.ty>>) \o FldX(k("title"), "strpad", <<>>, "utf8") \o Fld(k("id"), "i4", <<>>)
  \o Key1(k("n_bins_x"), "i2", h.nx) \o Key1(k("n_bins_y"), "i2", h.ny) \o Fld(k("entries"), "i4", <<>>) \o Key1(k("tentries"), "i4", h.te)
  \o axis("x") \o (IF h.ny > 0 THEN axis("y") ELSE Absents(<<k("lower_y"), k("underflow_y")>>))
  \o (IF weighted THEN Flds(<<k("content_all"), k("content_inside")>>, "f4") \o Fld(k("content_outside"), "f4", <<8>>)
      ELSE Absents(<<k("content_all"), k("content_inside"), k("content_outside")>>))
  \o (IF h.te > 0 THEN Fld(k("data"), IF weighted THEN "f4" ELSE "i4", sh) ELSE Ref(k("data"), sh, Rep(Prod(sh), Zero), ""))

HistLayout(c) ==
  CASE c.t \in {71, 72} -> Fld("0", "i4", <<>>) \o Fld("1", "str", <<>>)
    [] c.t = 75 -> Put("uv", <<c.n>>) \o Cat([i \in 1..c.n |-> Raw("k" \o S(i), "vkey", 1) \o Raw("v" \o S(i), "vstr", 1)])
                   \o Pairs("", [i \in 1..c.n |-> <<"k" \o S(i), 1>>], [i \in 1..c.n |-> <<"v" \o S(i), 1>>])
    [] c.t = 100 -> Put("i2", <<Len(c.hs)>>) \o Cat([i \in 1..Len(c.hs) |-> Hist(c.hs[i], i)]) \o Len_("", Len(c.hs))
HistSupported == [x \in {100} |-> 1..2]
=============================================================================
