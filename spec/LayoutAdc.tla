----------------------------- MODULE LayoutAdc -----------------------------
(* ADC sums and samples (C16).

   The result is a (gains, pixels) or (gains, pixels, samples) array; gain 1 is the high gain
   channel.  An axis of length one at the end is dropped.                    *)
EXTENDS LayoutBase

KeepNames == {"none", "all", "first", "last", "even", "odd", "block2", "sparse"}
Kept(name, np, p) ==   \* p counts from 0
  CASE name = "none" -> FALSE [] name = "all" -> TRUE [] name = "first" -> p = 0 [] name = "last" -> p = np - 1
    [] name = "even" -> p % 2 = 0 [] name = "odd" -> p % 2 = 1 [] name = "block2" -> p \div 16 = 1 [] name = "sparse" -> p % 7 = 3

\* entries of the list mode: <<pixel, kind>>, kind 0 = complete, 1 = no low gain stored, 2 = high gain in 8 bits, no low gain
EntriesOf(ks) == LET E(p) == IF ks[p] = 3 THEN <<>> ELSE << <<p - 1, ks[p]>> >> IN Cat([p \in 1..Len(ks) |-> E(p)])
Lists4 == {EntriesOf(ks) : ks \in [1..4 -> 0..3]}
Swapped(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
TelIds == {0, 1, 31, 32, 300, 65535}

\* ranges of pixels: <<first, last, form>>; form 1: a single pixel stored as one negative number
RangeSets == {<<>>, << <<0, 0, 0>> >>, << <<0, 0, 1>> >>, << <<5, 5, 1>> >>, << <<1, 3, 0>> >>, << <<0, 5, 0>> >>, << <<0, 1, 0>>, <<3, 3, 1>>, <<5, 5, 0>> >>,
              << <<4, 5, 0>>, <<0, 0, 1>>, <<2, 2, 1>> >>, << <<0, 0, 1>>, <<1, 1, 1>>, <<2, 4, 0>> >>}

AdcCases ==
  [t : {2012}, ver : {3}, mode : {0}, red : {0}, known : {0, 1}, tel : TelIds, ng : {1, 2}, np : {0, 1, 2, 5, 40}]
  \cup [t : {2012}, ver : {3}, mode : {1}, red : {0}, known : {0}, tel : {1, 300}, ng : {1, 2}, np : {0, 1, 2, 5, 15, 16, 17, 32, 33, 50}, keep : KeepNames]
  \cup [t : {2012}, ver : {3}, mode : {2}, red : {0}, known : {0}, tel : {1}, ng : {1, 2}, np : {4}, lst : Lists4 \cup {Swapped(s) : s \in Lists4}]
  \cup [t : {2012}, ver : {3}, mode : {2}, red : {0}, known : {0}, tel : {300}, ng : {1, 2}, np : {1}, lst : {EntriesOf(<<k>>) : k \in 0..3}]
  \cup [t : {2012}, ver : {3}, mode : {2}, red : {0}, known : {0}, tel : {2}, ng : {1, 2}, np : {300},
        lst : {<< <<0, a>>, <<255, b>>, <<256, 0>>, <<299, c>> >> : a, b, c \in 0..2}]
  \cup [t : {2012}, ver : {3}, mode : {2}, red : {0}, known : {0}, tel : {2}, ng : {1}, np : {8192}, lst : {<< <<8191, 0>>, <<4096, 2>>, <<0, 1>> >>}]
  \cup [t : {2012}, ver : {3}, mode : {0, 1, 2, 3, 16}, red : {1, 2, 31}, known : {0}, tel : {1}, ng : {1}, np : {2}, refused : {TRUE}]
  \cup [t : {2012}, ver : {3}, mode : 3..31, red : {0}, known : {0, 1}, tel : {300}, ng : {2}, np : {2}, refused : {TRUE}]
  \cup [t : {2013}, ver : {3}, mode : {0}, red : {0}, known : {0}, tel : TelIds, ng : {1, 2}, np : {0, 1, 2, 3}, ns : {0, 1, 2, 5}]
  \cup [t : {2013}, ver : {3}, mode : {1, 2}, red : {0}, known : {0}, tel : {1, 300}, ng : {1, 2}, np : {6}, ns : {0, 1, 4}, lst : RangeSets]
  \cup [t : {2013}, ver : {3}, mode : {1}, red : {0}, known : {0}, tel : {3}, ng : {1, 2}, np : {300}, ns : {2},
        lst : {<< <<126, 129, 0>>, <<299, 299, 1>> >>, << <<63, 63, 1>>, <<64, 64, 1>>, <<65, 65, 0>>, <<255, 256, 0>> >>}]
  \cup [t : {2013}, ver : {3}, mode : {0, 1}, red : {1, 31}, known : {0, 1}, tel : {1}, ng : {1}, np : {2}, ns : {3}, refused : {TRUE}]
  \cup [t : {2013}, ver : {3}, mode : {0, 1}, red : {0}, known : {1}, tel : {1}, ng : {1}, np : {2}, ns : {3}, refused : {TRUE}]

\* dimensions which need more than 7, 8, 14, 15 or 16 bits
AdcWide ==
  [t : {2012}, ver : {3}, mode : {0}, red : {0}, known : {0}, tel : {300}, ng : {1, 2}, np : {128, 300, 8192, 70000}]
  \cup [t : {2012}, ver : {3}, mode : {1}, red : {0}, known : {0}, tel : {1}, ng : {1, 2}, np : {128, 256, 300, 1000}, keep : KeepNames]
  \cup [t : {2012}, ver : {3}, mode : {2}, red : {0}, known : {0}, tel : {1}, ng : {1, 2}, np : {300}, lst : {[i \in 1..300 |-> <<i - 1, k[(i % 4) + 1]>>] : k \in {<<0, 0, 0, 0>>, <<0, 1, 2, 0>>, <<2, 2, 2, 1>>, <<2, 2, 2, 2>>}}]
  \cup [t : {2012}, ver : {3}, mode : {2}, red : {0}, known : {0}, tel : {1}, ng : {2}, np : {8192}, lst : {<< <<8191, 0>>, <<4095, 1>>, <<4096, 2>>, <<0, 0>> >>}]
  \cup [t : {2013}, ver : {3}, mode : {0}, red : {0}, known : {0}, tel : {300}, ng : {1, 2}, np : {300}, ns : {1, 2, 128}]
  \cup [t : {2013}, ver : {3}, mode : {0}, red : {0}, known : {0}, tel : {300}, ng : {1, 2}, np : {1, 3}, ns : {300, 32767}]
  \cup [t : {2013}, ver : {3}, mode : {0}, red : {0}, known : {0}, tel : {300}, ng : {2}, np : {2000}, ns : {1}]
  \cup [t : {2013}, ver : {3}, mode : {1}, red : {0}, known : {0}, tel : {3}, ng : {1, 2}, np : {300}, ns : {2},
        lst : {[i \in 1..150 |-> <<2 * i - 1, 2 * i - 1, i % 2>>], << <<0, 299, 0>> >>, << <<1, 128, 0>>, <<130, 298, 0>>, <<299, 299, 1>> >>}]
  \cup [t : {2013}, ver : {3}, mode : {1}, red : {0}, known : {0}, tel : {3}, ng : {1}, np : {17000}, ns : {2}, lst : {<< <<63, 63, 1>>, <<64, 64, 1>>, <<8191, 8192, 0>>, <<16384, 16384, 1>>, <<16998, 16999, 0>> >>}]

IdOf(c) == c.mode + 32 * c.red + 1024 * c.known + 4096 * c.tel
Squeeze(sh) == IF sh # <<>> /\ sh[Len(sh)] = 1 THEN SubSeq(sh, 1, Len(sh) - 1) ELSE sh
AdcRefused(c) == "refused" \in DOMAIN c
HiLo(g) == IF g = 1 THEN "h" ELSE "l"

L2012(c) ==
  LET n == c.np
      sh == Squeeze(<<c.ng, n>>)
      blocks == (n + 15) \div 16
      has(p) == Kept(c.keep, n, p)
      inb(b) == {p \in 0..(n - 1) : p \div 16 = b - 1 /\ has(p)}
      mask(b) == Sum(16, LAMBDA j : IF 16 * (b - 1) + j - 1 \in inb(b) THEN 2 ^ (j - 1) ELSE 0)
      \* number of kept pixels in front of p in its block
      rank(p) == Cardinality({q \in inb(p \div 16 + 1) : q < p})
      e == c.lst
      full == SelectSeq(e, LAMBDA x : x[2] = 0 /\ c.ng > 1)        \* low gain stored
      wide == SelectSeq(e, LAMBDA x : x[2] # 2)
      narrow == SelectSeq(e, LAMBDA x : x[2] = 2)
      mark(x) == x[1] + (CASE x[2] = 0 -> 0 [] x[2] = 1 -> 8192 [] x[2] = 2 -> IF c.ng > 1 THEN 24576 ELSE 16384)
      idx(s, p) == {i \in 1..Len(s) : s[i][1] = p}
      pick(nm, s, p) == LET I == idx(s, p) IN IF I = {} THEN Zero ELSE <<nm, CHOOSE i \in I : TRUE>>
      all == [k \in 1..(c.ng * n) |-> [g |-> (k - 1) \div n + 1, p |-> (k - 1) % n]]
  IN
  Const("@telescope_id", c.tel) \o Put("i4", <<n>>) \o Put("i2", <<c.ng>>)
  \o CASE c.mode = 0 -> Cat([g \in 1..c.ng |-> Raw(HiLo(g), "diff", n)]) \o Ref("", sh, Cat([g \in 1..c.ng |-> Span(HiLo(g), 1, n)]), "")
       [] c.mode = 1 ->
            Cat([b \in 1..blocks |-> Put("u2", <<mask(b)>>)
                   \o When(c.ng = 2, Raw("l" \o S(b), "diff", Cardinality(inb(b)))) \o Raw("h" \o S(b), "diff", Cardinality(inb(b)))])
            \o Ref("", sh, [k \in 1..(c.ng * n) |-> IF has(all[k].p) THEN <<HiLo(all[k].g) \o S(all[k].p \div 16 + 1), rank(all[k].p) + 1>> ELSE Zero], "")
       [] c.mode = 2 ->
            Put("i2", <<Len(e)>>) \o Put("u2", [i \in 1..Len(e) |-> mark(e[i])])
            \o When(c.ng = 2, Raw("l", "diff", Len(full))) \o Raw("h", "diff", Len(wide)) \o Raw("n", "u1", Len(narrow))
            \o Ref("", sh, [k \in 1..(c.ng * n) |->
                              IF all[k].g = 2 THEN pick("l", full, all[k].p)
                              ELSE IF idx(narrow, all[k].p) # {} THEN pick("n", narrow, all[k].p) ELSE pick("h", wide, all[k].p)], "")

L2013(c) ==
  LET n == c.np
      ns == c.ns
      sh == Squeeze(<<c.ng, n, ns>>)
      Px(r) == [i \in 1..(r[2] - r[1] + 1) |-> r[1] + i - 1]
      px == IF c.mode = 0 THEN [i \in 1..n |-> i - 1] ELSE Cat([i \in 1..Len(c.lst) |-> Px(c.lst[i])])
      nm(g, i) == HiLo(g) \o S(i)
      at(g, p) == LET I == {i \in 1..Len(px) : px[i] = p} IN IF I = {} THEN Rep(ns, Zero) ELSE Span(nm(g, CHOOSE i \in I : TRUE), 1, ns)
  IN
  Const("@telescope_id", c.tel) \o Put("i4", <<n>>) \o Put("i2", <<c.ng>>) \o Put("i2", <<ns>>)
  \o When(c.mode # 0, Put("sv", <<Len(c.lst)>>)
          \o Cat([i \in 1..Len(c.lst) |-> LET r == c.lst[i] IN IF r[3] = 1 THEN Put("sv", <<-r[1] - 1>>) ELSE Put("sv", <<r[1], r[2]>>)]))
  \o Cat([g \in 1..c.ng |-> Cat([i \in 1..Len(px) |-> Raw(nm(g, i), "diff16", ns)])])
  \o Ref("", sh, Cat([g \in 1..c.ng |-> Cat([p \in 1..n |-> at(g, p - 1)])]), "")

AdcLayout(c) ==
  IF AdcRefused(c) THEN Put("i4", <<c.np>>) \o Put("i2", <<c.ng>>) \o When(c.t = 2013, Put("i2", <<c.ns>>)) \o Pad("u1", 40)
  ELSE IF c.t = 2012 THEN L2012(c) ELSE L2013(c)
AdcSupported == [x \in {2012, 2013} |-> {3}]
=============================================================================
