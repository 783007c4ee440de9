----------------------------- MODULE LayoutIact -----------------------------
(* CORSIKA/IACT blocks (C19), photon bunches and photo-electrons (C20). *)
EXTENDS LayoutBase

IactCases ==
  [t : {1200, 1202}, ver : {0}, id : {1, 5}, cv : {7, 8}, n : {273}]
  \cup [t : {1209}, ver : {0}, id : {1, 5}, n : {273}]
  \cup [t : {1210}, ver : {0}, id : {1, 5}, n : {3}]
  \cup [t : {1200, 1202, 1209}, ver : {0}, id : {1}, cv : {7}, n : {0, 3, 272, 274, -273, 312}]
  \cup [t : {1210}, ver : {0}, id : {1}, n : {0, 2, 4, 273, -3}]
  \cup [t : {1201}, ver : {0}, id : {0}, n : {1, 2, 3, 4, 7, 16}]
  \cup [t : {1203}, ver : 0..1, id : {101}, n : {0, 1, 2, 3, 4, 5, 10}]
  \cup [t : {1211}, ver : {0}, id : {101}, n : {0, 1, 2, 9}, m : {0, 1, 3, 9}]
  \cup [t : {1212}, ver : {0}, id : {0}, n : {0, 1, 2, 5}]
  \cup [t : {1216}, ver : 0..1, id : {1, 26, 99}, n : {0, 1, 2, 50}, five : {0, 5}]

\* dimensions which need more than 7, 8, 14, 15 or 16 bits
IactWide ==
  [t : {1201}, ver : {0}, id : {0}, n : {128, 300, 40000, 70000}]
  \cup [t : {1203}, ver : 0..1, id : {101}, n : {128, 300, 40000, 70000}]
  \cup [t : {1211}, ver : {0}, id : {101}, n : {9, 300}, m : {128, 300}]
  \cup [t : {1211}, ver : {0}, id : {101}, n : {1, 2}, m : {32767}]
  \cup [t : {1211}, ver : {0}, id : {101}, n : {32767}, m : {1, 2}]
  \cup [t : {1212}, ver : {0}, id : {0}, n : {128, 300, 3000}]
  \cup [t : {1216}, ver : 0..1, id : {26}, n : {127, 128, 300, 17000}, five : {0, 5}]

\* 273 words beginning with a name; `some` names a few of the words
Corsika(n, pre, vpos, cv, some) ==
  Put("i4", <<273>>) \o Pad("name4", 1)
  \o Raw("w", "f4", vpos - 2) \o Put("f4", <<cv>>) \o Raw("v", "f4", 273 - vpos)
  \o LET word(i) == IF i < vpos THEN <<"w", i - 1>> ELSE <<"v", i - vpos>>
         one(s) == Ref(P2(pre, s[1]), s[3], [i \in 1..Prod(s[3]) |-> word(s[2] + i - 1)], "") IN
     Cat([i \in 1..Len(some) |-> one(some[i])]) \o Const(P2(pre, "version"), cv)

RunhWords == << <<"run_number", 2, <<>> >>, <<"date", 3, <<>> >>, <<"n_observation_levels", 5, <<>> >>, <<"observation_height", 6, <<10>> >>,
                <<"energy_spectrum_slope", 16, <<>> >>, <<"energy_min", 17, <<>> >>, <<"energy_max", 18, <<>> >>, <<"cka", 95, <<40>> >>,
                <<"aatm", 255, <<5>> >>, <<"catm", 265, <<5>> >>, <<"nflche_100nfragm", 273, <<>> >> >>
EvthWords == << <<"event_number", 2, <<>> >>, <<"particle_id", 3, <<>> >>, <<"total_energy", 4, <<>> >>, <<"starting_altitude", 5, <<>> >>,
                <<"first_interaction_height", 7, <<>> >>, <<"momentum_minus_z", 10, <<>> >>, <<"zenith", 11, <<>> >>, <<"azimuth", 12, <<>> >>,
                <<"random_seeds", 14, <<10, 3>> >>, <<"run_number", 44, <<>> >>, <<"n_observation_levels", 47, <<>> >>, <<"observation_height", 48, <<10>> >>,
                <<"energy_min", 59, <<>> >> >>
EvteWords == << <<"event_number", 2, <<>> >>, <<"n_photons_weighted", 3, <<>> >>, <<"n_electrons_weighted", 4, <<>> >>, <<"n_hadrons_weighted", 5, <<>> >>,
                <<"n_muons_weighted", 6, <<>> >>, <<"n_particles_written", 7, <<>> >>, <<"longitudinal_fit_parameters", 256, <<6>> >>,
                <<"chi_square_longitudinal", 262, <<>> >>, <<"n_photons_written", 263, <<>> >>, <<"n_em_particles_preshower", 267, <<>> >> >>

Bad(c) == Put("i4", <<c.n>>) \o Pad("f4", 273)
IactRefused(c) == c.t \in {1200, 1202, 1209, 1210} /\ c.n # (IF c.t = 1210 THEN 3 ELSE 273)

L1209 == Put("i4", <<273>>) \o Pad("name4", 1) \o Raw("w", "f4", 272)
         \o LET one(s) == Ref(P("0", s[1]), s[3], [i \in 1..Prod(s[3]) |-> <<"w", s[2] + i - 2>>], "") IN Cat([i \in 1..Len(EvteWords) |-> one(EvteWords[i])])
L1210 == Put("i4", <<3>>) \o Pad("name4", 1) \o Fld("0/run_number", "f4", <<>>) \o Fld("0/n_events", "f4", <<>>)
L1201(c) == Const("@n_telescopes", c.n) \o Put("i4", <<c.n>>) \o Cat([i \in 1..4 |-> Fld((<<"x", "y", "z", "r">>)[i], "f4", <<c.n>>)])
L1203(c) == Put("i4", <<c.n>>) \o Fld("0", "f4", <<>>) \o Fld("1/x", "f4", <<c.n>>) \o Fld("1/y", "f4", <<c.n>>)
            \o When(c.ver = 1, Fld("1/weight", "f4", <<c.n>>))
L1211(c) == Fld("event_id", "i4", <<>>) \o Fld("type", "i4", <<>>) \o Key1("np", "i2", c.n) \o Key1("nthick", "i2", c.m) \o Fld("thickstep", "f4", <<>>)
            \o Fld("data", "f4", <<c.n, c.m>>)
L1212(c) == Put("i4", <<c.n>>) \o Raw("s", "str", c.n) \o Ref("", <<c.n>>, Span("s", 1, c.n), "lines")
L1216(c) == Const("id", c.id) \o Fld("name", "vstr", <<>>) \o Fld("obslevel", "f8", <<>>) \o Put("uv", <<c.n>>) \o Raw("t", "f8", 4 * c.n)
            \o LET ks == <<"altitude_km", "rho", "thickness", "refractive_index_minus_1">> IN
               Cat([i \in 1..4 |-> Ref(ks[i], <<c.n>>, Column("t", c.n, 4, i), "")])
            \o Put("uv", <<c.five>>)
            \o (IF c.five = 5 THEN Fld("htoa", "f8", <<>>) \o Fld("five_layer_atmosphere", "f8", <<5, 5>>) ELSE NoneK("htoa") \o NoneK("five_layer_atmosphere"))

IactLayout(c) ==
  IF IactRefused(c) THEN Bad(c)
  ELSE CASE c.t = 1200 -> Corsika(c, "", 4, c.cv, RunhWords) [] c.t = 1202 -> Corsika(c, "", 46, c.cv, EvthWords)
         [] c.t = 1209 -> L1209 [] c.t = 1210 -> L1210 [] c.t = 1201 -> L1201(c) [] c.t = 1203 -> L1203(c) [] c.t = 1211 -> L1211(c)
         [] c.t = 1212 -> L1212(c) [] c.t = 1216 -> L1216(c)
IactSupported == [x \in {1203, 1216} |-> 0..1]

-----------------------------------------------------------------------------
\* photon bunches: rows of 8 numbers; rows in em are emitter rows (last number 9999)
Cols == <<"x", "y", "cx", "cy", "time", "zem", "photons", "wavelength">>
PartCols == <<"x", "y", "cx", "cy", "time", "momentum", "weight", "particle_id">>
EmitCols == <<"x", "y", "mass", "charge", "time", "emission_time", "energy", "wavelength">>
Conv == <<"tenth", "tenth", "cosine", "cosine", "tenth", "height", "hundredth", "">>
\* number of pe of the pixels in the order of storage: <<pixel, n>>
PeLists == {<<>>, << <<0, 1>> >>, << <<4, 3>> >>, << <<2, 2>>, <<0, 1>> >>, << <<1, 0>>, <<3, 4>> >>, << <<0, 1>>, <<1, 2>>, <<2, 3>>, <<3, 1>>, <<4, 1>> >>}
BigPeLists == {<< <<300, 2>>, <<129, 1>>, <<64, 1>> >>}
PhLists == {<<>>, <<0>>, <<4, 1>>, <<0, 1, 2, 3, 4>>}
TelPairs == {<<0, 0>>, <<0, 5>>, <<2, 17>>, <<19, 998>>, <<998, 999>>}

PhotCases ==
  [t : {1205}, ver : {0, 1, 999}, ids : TelPairs, em : {{}}, n : {0, 1, 2, 7}, chunk : {0}]
  \cup [t : {1205}, ver : {0}, ids : {<<1, 3>>}, em : SUBSET (1..5), n : {5}, chunk : {0, 1, 2, 3, 5, 6}]
  \cup [t : {1205}, ver : {0}, ids : {<<1, 3>>}, em : SUBSET (1..3), n : {3}, chunk : 0..4]
  \cup [t : {1205}, ver : {0, 1000}, ids : {<<1, 3>>}, em : {{}}, n : 0..8, chunk : 1..9]
  \cup [t : {1205}, ver : {1000, 1001}, ids : TelPairs, em : {{}}, n : {0, 1, 2, 7, 40}, chunk : {0}]
  \cup [t : {1205}, ver : {0}, ids : {<<999, 999>>}, em : {{}}, n : {0, 1, 2, 9}, chunk : {0}]
  \cup [t : {1208}, ver : {1}, ids : TelPairs, fl : {0}, np : {5}, pe : PeLists, ph : {<<>>}]
  \cup [t : {1208}, ver : {2}, ids : TelPairs, fl : {0, 1, 2, 4, 5, 8, 9, 12, 13}, np : {5}, pe : PeLists, ph : PhLists]
  \cup [t : {1208}, ver : {3}, ids : TelPairs, fl : {0, 1, 2, 8, 9}, np : {5}, pe : PeLists, ph : {<<>>}]
  \cup [t : {1208}, ver : {1}, ids : {<<0, 1>>}, fl : {0}, np : {301}, pe : BigPeLists, ph : {<<>>}]
  \cup [t : {1208}, ver : 2..3, ids : {<<0, 1>>}, fl : {0, 1}, np : {301}, pe : BigPeLists, ph : {<<>>}]

PhotWide ==
  [t : {1205}, ver : {0, 1000}, ids : {<<1, 3>>}, em : {{}}, n : {128, 300, 1000}, chunk : {0, 128, 300, 7}]
  \cup [t : {1205}, ver : {0}, ids : {<<1, 3>>}, em : {{1, 128, 129, 256, 257, 300}, 200..300, 1..299}, n : {300}, chunk : {0, 128, 256}]
  \cup [t : {1205}, ver : {0}, ids : {<<999, 999>>}, em : {{}}, n : {128, 300, 1000}, chunk : {0}]
  \cup [t : {1208}, ver : {1, 2, 3}, ids : {<<1, 3>>}, fl : {0}, np : {300}, pe : {<< <<5, 300>>, <<299, 128>>, <<128, 1>>, <<0, 40000>> >>, [i \in 1..150 |-> <<301 - 2 * i, i % 4>>]}, ph : {<<>>}]
  \cup [t : {1208}, ver : {2, 3}, ids : {<<1, 3>>}, fl : {1}, np : {300}, pe : {<< <<5, 300>>, <<299, 128>>, <<128, 1>>, <<0, 40000>> >>, [i \in 1..150 |-> <<301 - 2 * i, i % 4>>]}, ph : {<<>>}]
  \cup [t : {1208}, ver : {2}, ids : {<<1, 3>>}, fl : {5}, np : {300}, pe : {<< <<5, 300>>, <<0, 1>> >>}, ph : {[i \in 1..150 |-> 2 * i - 1], [i \in 1..300 |-> 300 - i]}]
  \cup [t : {1208}, ver : {1, 2, 3}, ids : {<<1, 3>>}, fl : {0}, np : {32768}, pe : {<< <<32767, 2>>, <<16384, 1>>, <<8192, 1>> >>}, ph : {<<>>}]
  \cup [t : {1208}, ver : {3}, ids : {<<1, 3>>}, fl : {0, 1}, np : {70000}, pe : {<< <<32768, 2>>, <<65535, 1>>, <<65536, 3>>, <<69999, 1>> >>}, ph : {<<>>}]
  \cup [t : {1208}, ver : {2, 3}, ids : {<<1, 3>>}, fl : {0, 1}, np : {3}, pe : {<< <<1, 70000>>, <<2, 3>> >>}, ph : {<<>>}]

L1205(c) ==
  LET compact == c.ver \div 1000 = 1
      part == c.ids = <<999, 999>>
      nphot == IF c.n = 0 THEN 0 ELSE 1
      row(i) == Raw("r" \o S(i), IF compact THEN "i2" ELSE "f4", 7)
                \o (IF i \in c.em THEN Put("f4", <<9999>>) ELSE Raw("l" \o S(i), IF compact THEN "i2" ELSE "f4", 1))
      el(i, j) == IF j < 8 THEN <<"r" \o S(i), j>> ELSE <<"l" \o S(i), 1>>
      cv(j) == IF compact THEN Conv[j] ELSE ""
      \* the two results for the rows a..b
      res(pre, a, b) ==
        LET ph == SelectSeq([i \in 1..(b - a + 1) |-> a + i - 1], LAMBDA i : i \notin c.em)
            em == SelectSeq([i \in 1..(b - a + 1) |-> a + i - 1], LAMBDA i : i \in c.em) IN
        Cat([j \in 1..8 |-> Ref(P2(pre, P("0", Cols[j])), <<Len(ph)>>, [i \in 1..Len(ph) |-> el(ph[i], j)], cv(j))])
        \o (IF em = <<>> THEN NoneK(P2(pre, "1"))
            ELSE Cat([j \in 1..7 |-> Ref(P2(pre, P("1", EmitCols[j])), <<Len(em)>>, [i \in 1..Len(em) |-> el(em[i], j)], "")])
                 \o Const(P2(pre, P("1", "wavelength")), Rep(Len(em), 9999)))
      nch == IF c.n = 0 THEN 1 ELSE (c.n + c.chunk - 1) \div c.chunk
      end(k) == IF k * c.chunk < c.n THEN k * c.chunk ELSE c.n
  IN
  Const("@array_id", c.ids[1]) \o Const("@telescope_id", c.ids[2]) \o Const("@n_bunches", c.n)
  \o Put("i2", c.ids) \o Fld("@n_photons", "f4", <<>>) \o Put("i4", <<c.n>>) \o Cat([i \in 1..c.n |-> row(i)])
  \o (IF part THEN Cat([j \in 1..8 |-> Ref(PartCols[j], <<c.n>>, [i \in 1..c.n |-> el(i, j)], "")])
      ELSE IF c.chunk = 0 THEN res("", 1, c.n)
      ELSE Len_("", nch) \o Cat([k \in 1..nch |-> res(S(k - 1), (k - 1) * c.chunk + 1, end(k))]))

L1208(c) ==
  LET n == Sum(Len(c.pe), LAMBDA i : c.pe[i][2])
      amp == c.fl % 2 = 1
      phot == Bit(c.fl, 2)
      e == IF c.ver = 3 THEN "sv" ELSE "i2"
      pix(i) == Put(e, <<c.pe[i][1]>>) \o Put("i4", <<c.pe[i][2]>>) \o Raw("t" \o S(i), "f4", c.pe[i][2])
                \o When(amp, Raw("a" \o S(i), "f4", c.pe[i][2]))
      count(p) == Sum(Len(c.pe), LAMBDA i : IF c.pe[i][1] = p THEN c.pe[i][2] ELSE 0)
      PhPos(p) == {i \in 1..Len(c.ph) : c.ph[i] = p}
  IN
  Const("@array_id", c.ids[1]) \o Const("@telescope_id", c.ids[2])
  \o Key1("n_pe", "i4", n) \o Key1("n_pixels", "i4", c.np) \o When(c.ver > 1, Put("i2", <<c.fl>>)) \o Key1("non_empty", "i4", Len(c.pe))
  \o Cat([i \in 1..Len(c.pe) |-> pix(i)])
  \o Const("photoelectrons", [p \in 1..c.np |-> count(p - 1)])
  \o Const("pixel_id", Cat([i \in 1..Len(c.pe) |-> Rep(c.pe[i][2], c.pe[i][1])]))
  \o Ref("time", <<n>>, Cat([i \in 1..Len(c.pe) |-> Span("t" \o S(i), 1, c.pe[i][2])]), "")
  \o (IF amp THEN Ref("amplitude", <<n>>, Cat([i \in 1..Len(c.pe) |-> Span("a" \o S(i), 1, c.pe[i][2])]), "") ELSE Absent("amplitude"))
  \o (IF phot
      THEN Put("i4", <<Len(c.ph)>>) \o Cat([i \in 1..Len(c.ph) |-> Put("i2", <<c.ph[i]>>) \o Raw("p" \o S(i), "i4", 1)])
           \o Ref("photons", <<c.np>>, [p \in 1..c.np |-> IF PhPos(p - 1) = {} THEN Zero ELSE <<"p" \o S(CHOOSE i \in PhPos(p - 1) : TRUE), 1>>], "")
      ELSE Absent("photons"))

PhotLayout(c) == IF c.t = 1205 THEN L1205(c) ELSE L1208(c)
PhotId(c) == c.ids[1] * 1000 + c.ids[2]
PhotSupported == [x \in {1208} |-> 1..3]
=============================================================================
