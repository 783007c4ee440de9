----------------------------- MODULE LayoutEvt -----------------------------
(* Event-level blocks of sim_telarray (C18). *)
EXTENDS LayoutBase

Masks == {0, 1, 3, 4, 6, 10, 11, 15, 16, 19, 32, 71, 113, 128, 257, 272, 3855, 65535}
TelIds == <<7, 1, 300, 2>>
\* sequences of n of the masks: all pairs, and longer ones
MaskSeqs == {<<>>} \cup {<<m>> : m \in Masks} \cup {<<a, b>> : a, b \in {0, 2, 3, 13, 70, 1023}} \cup {<<3, m, 7, 8>> : m \in Masks}
TrigFlags == {256 * a + s : a \in 0..7, s \in {0, 1, 3, 255}}
Tels == {0, 1, 5, 99, 100, 101, 255, 256, 300, 999}
ProfLens == {<<>>, <<0>>, <<3>>, <<2, 0, 5>>}
\* list sizes of PixelTiming: type 1 = list of pixels, type 2 = ranges (first, last)
Lists1 == {<<>>, <<0>>, <<2, 0>>, <<1, 2, 3>>, <<4, 1>>}
Lists2 == {<<>>, <<0, 0>>, <<1, 3>>, <<0, 1, 3, 4>>, <<3, 4, 0, 0>>}

EvtCases ==
  [t : {2009}, ver : 0..3, id : {12}, mask : {<<>>, <<3>>, <<1, 32>>}, nd : 0..4]
  \cup [t : {2009}, ver : {2, 3}, id : {100}, mask : MaskSeqs, nd : {1}]
  \cup [t : {2011}, ver : 0..4, id : {3, 200}, f : TrigFlags, ns : {0, 1, 3}, na : {0, 2}]
  \cup [t : {2100}, ver : {0}, tel : Tels, raw : {0, 1}, cor : {0, 1}]
  \cup [t : {2014}, ver : 5..6, tel : {0, 1, 255, 256, 999}, cut : {0, 1, 200, 255}, f : 0..15, nsat : {0, 2}, nhot : {0, 1, 4}]
  \cup [t : {2015}, ver : {1}, id : 0..4095]
  \cup [t : {2016}, ver : {1, 2}, id : {3}, lt : {1}, lst : Lists1, np : {5}, ng : {1, 2}, nty : {0, 1, 3}, before : {-1, 0, 4}, after : {-1, 3}, thr : {-5, 0, 7}]
  \cup [t : {2016}, ver : {1, 2}, id : {3}, lt : {2}, lst : Lists2, np : {5}, ng : {1, 2}, nty : {0, 1, 3}, before : {-1, 0, 4}, after : {-1, 3}, thr : {-5, 0, 7}]
  \cup [t : {2020}, ver : 0..2, id : {5}, prof : ProfLens, ni : {0, 1, 3}, nf : {0, 2}, ext : {0, 1}]
  \cup [t : {2021}, ver : 0..2, id : {0, 501, 123456}]
  \cup [t : {2026}, ver : 0..2, id : {501}, nt : {0, 1, 4}, pix : {0, 3}]
  \cup [t : {2027}, ver : 0..1, tel : {1, 300, 999999}, code : {0, 1, 7}, n : {0, 1, 5}]
  \cup [t : {2029}, ver : {0}, id : {1}, n : {0, 1, 3}, m : {0, 1, 4}]
  \cup [t : {2030}, ver : {0}, id : {1}, n : {0, 1, 3}, m : {0, 1, 4}]
  \cup [t : {2032}, ver : {0}, id : {44}, n : {0, 1, 5}]

\* dimensions which need more than 7, 8, 14, 15 or 16 bits
EvtWide ==
  [t : {2009}, ver : 1..3, id : {12}, mask : {[i \in 1..300 |-> (37 * i) % 1024]}, nd : {0, 300}]
  \cup [t : {2011}, ver : 1..4, id : {3}, f : {1281, 1793}, ns : {128, 300}, na : {128, 300}]
  \cup [t : {2011}, ver : {2, 4}, id : {3}, f : {1793}, ns : {33000}, na : {70000}]
  \cup [t : {2014}, ver : {5, 6}, tel : {300}, cut : {3}, f : {15}, nsat : {300}, nhot : {128, 300}]
  \cup [t : {2014}, ver : {6}, tel : {300}, cut : {3}, f : {15}, nsat : {40000}, nhot : {40000}]
  \cup [t : {2016}, ver : {1, 2}, id : {3}, lt : {1}, lst : {[i \in 1..150 |-> 301 - 2 * i]}, np : {300}, ng : {2}, nty : {2}, before : {3}, after : {-1, 3}, thr : {-5, 7}]
  \cup [t : {2016}, ver : {1, 2}, id : {3}, lt : {2}, lst : {<<120, 280, 0, 100, 299, 299>>}, np : {300}, ng : {1, 2}, nty : {2}, before : {3}, after : {3}, thr : {-5, 7}]
  \cup [t : {2016}, ver : {2}, id : {3}, lt : {1}, lst : {<<32767, 32768, 39999, 0>>}, np : {40000}, ng : {1}, nty : {1}, before : {3}, after : {3}, thr : {-5, 7}]
  \cup [t : {2016}, ver : {2}, id : {3}, lt : {2}, lst : {<<32766, 32769, 39998, 39999>>}, np : {40000}, ng : {1}, nty : {1}, before : {3}, after : {3}, thr : {-5, 7}]
  \cup [t : {2016}, ver : {2}, id : {3}, lt : {1}, lst : {<<65535, 65536, 69999, 1>>}, np : {70000}, ng : {1}, nty : {1}, before : {-1}, after : {3}, thr : {7}]
  \cup [t : {2020}, ver : {1, 2}, id : {5}, prof : {<<300, 1>>, <<33000>>, [i \in 1..300 |-> i % 3]}, ni : {300}, nf : {300, 17000}, ext : {0}]
  \cup [t : {2026}, ver : 0..2, id : {501}, nt : {128, 300, 70000}, pix : {0}]
  \cup [t : {2027}, ver : 0..1, tel : {300}, code : {1}, n : {128, 300, 32767}]
  \cup [t : {2027}, ver : {1}, tel : {300}, code : {1}, n : {32768, 70000}]
  \cup [t : {2029, 2030}, ver : {0}, id : {1}, n : {300}, m : {2, 128}]
  \cup [t : {2029, 2030}, ver : {0}, id : {1}, n : {1, 2}, m : {300, 20000, 40000}]
  \cup [t : {2032}, ver : {0}, id : {44}, n : {128, 300, 8192, 70000}]

\* bits 0x10, 0x20, 0x40 belong to 0x100, 0x200, 0x400
Repaired(m) == LET w == (m \div 16) % 8   \* the wrong bits
                   hi == (m \div 256) % 8
                   or == Sum(3, LAMBDA i : IF Bit(w, i - 1) \/ Bit(hi, i - 1) THEN 2 ^ (i - 1) ELSE 0)
               IN m - 16 * w - 256 * hi + 256 * or
TypesIn(m) == {i \in 0..3 : Bit(m, i)}

L2009(c) == LET n == Len(c.mask)
                ids == [i \in 1..n |-> IF i <= 4 THEN TelIds[i] ELSE 400 + i]
                several == {i \in 1..n : Cardinality(TypesIn(c.mask[i])) > 1}
                one(i, j) == IF i \in several /\ j \in TypesIn(c.mask[i]) THEN Fld(P("teltrg_time_by_type", P(S(ids[i]), S(j))), "f4", <<>>) ELSE <<>>
            IN
  Fld("cpu_time", "time", <<>>) \o Fld("gps_time", "time", <<>>) \o Flds(<<"trigger_pattern", "data_pattern">>, "i4")
  \o (IF c.ver >= 1
      THEN Key1("n_triggered_telescopes", "i2", n) \o Key("triggered_telescopes", "i2", <<n>>, ids) \o Fld("trigger_times", "f4", <<n>>)
           \o Key1("n_telescopes_with_data", "i2", c.nd) \o Fld("telescopes_with_data", "i2", <<c.nd>>)
      ELSE Absents(<<"n_triggered_telescopes", "triggered_telescopes", "trigger_times", "n_telescopes_with_data", "telescopes_with_data">>))
  \o (IF c.ver >= 2
      THEN Put("uv", c.mask) \o Const("teltrg_type_mask", [i \in 1..n |-> Repaired(c.mask[i])])
           \o Len_("teltrg_time_by_type", Cardinality(several))
           \o Cat([i \in 1..n |-> one(i, 0) \o one(i, 1) \o one(i, 2) \o one(i, 3)
                                  \o When(i \in several, Len_(P("teltrg_time_by_type", S(ids[i])), Cardinality(TypesIn(c.mask[i]))))])
      ELSE Absents(<<"teltrg_type_mask", "teltrg_time_by_type">>))
  \o (IF c.ver >= 3 THEN LET k == "plane_wavefront_compensation" IN Flds(<<P(k, "az"), P(k, "alt"), P(k, "speed_of_light")>>, "f4")
      ELSE Absent("plane_wavefront_compensation"))

L2011(c) == LET b(i) == Bit(c.f, i)
                e == IF c.ver <= 1 THEN "i2" ELSE "sv" IN
  Const("telescope_id", c.id) \o Flds(<<"loc_count", "glob_count">>, "i4") \o Fld("cpu_time", "time", <<>>) \o Fld("gps_time", "time", <<>>)
  \o Put("i2", <<c.f>>) \o Const("trg_source", c.f % 256)
  \o (IF b(8) THEN Put(e, <<c.ns>>) \o Fld("list_trgsect", e, <<c.ns>>) ELSE Absent("list_trgsect"))
  \o (IF b(8) /\ b(10) /\ c.ver >= 1 THEN Fld("time_trgsect", "f4", <<c.ns>>) ELSE Absent("time_trgsect"))
  \o (IF b(9) THEN Key1("n_phys_addr", e, c.na) \o Fld("phys_addr", e, <<c.na>>) ELSE Absents(<<"n_phys_addr", "phys_addr">>))
  \o (IF c.ver >= 3 THEN Flds(<<"readout_time", "relative_trigger_time">>, "f4") ELSE Absents(<<"readout_time", "relative_trigger_time">>))
  \o (IF c.ver >= 4 THEN Fld("start_readout", "i4", <<>>) ELSE Absent("start_readout"))

\* 8 low and 6 high bits of a telescope id
Split(tel) == (tel % 256) + 16777216 * (tel \div 256)

L2100(c) ==
  Const("telescope_id", c.tel)
  \o (IF c.raw = 1 THEN Flds(<<"azimuth_raw", "altitude_raw">>, "f4") ELSE Absents(<<"azimuth_raw", "altitude_raw">>))
  \o (IF c.cor = 1 THEN Flds(<<"azimuth_cor", "altitude_cor">>, "f4") ELSE Absents(<<"azimuth_cor", "altitude_cor">>))
Id2100(c) == Split(c.tel) + 256 * c.raw + 512 * c.cor
Type2100(c) == 2100 + (c.tel % 100) + 1000 * (c.tel \div 100)

Id2014(c) == Split(c.tel) + 256 * c.f + 4096 * c.cut
L2014(c) == LET b(i) == Bit(c.f, i)
                e == IF c.ver = 5 THEN "i2" ELSE "sv" IN
  Const("flags", Id2014(c)) \o Const("telescope_id", c.tel) \o Const("cut_id", c.cut)
  \o Fld("pixels", e, <<>>) \o Key1("n_sat", e, c.nsat)
  \o (IF c.nsat > 0 THEN Fld("clip_amp", "f4", <<>>) ELSE Absent("clip_amp"))
  \o Flds(<<"amplitude", "x", "y", "phi", "l", "w">>, "f4") \o Fld("n_conc", "i2", <<>>) \o Fld("concentration", "f4", <<>>)
  \o Opt(b(0), <<"x_err", "y_err", "phi_err", "l_err", "w_err">>, "f4")
  \o Opt(b(1), <<"skewness", "skewness_err", "kurtosis", "kurtosis_err">>, "f4")
  \o (IF b(2) THEN Key1("n_hot", e, c.nhot) \o Fld("hot_amp", "f4", <<c.nhot>>) \o Fld("hot_pixel", e, <<c.nhot>>)
      ELSE Absents(<<"n_hot", "hot_amp", "hot_pixel">>))
  \o Opt(b(3), <<"tm_slope", "tm_residual", "tm_width1", "tm_width2", "tm_rise">>, "f4")

Parts2015 == << <<"Az", "Alt">>, <<"err_dir1", "err_dir2", "err_dir3">>, <<"xc", "yc">>, <<"err_core1", "err_core2", "err_core3">>, <<"mscl", "mscw">>,
                <<"err_mscl", "err_mscw">>, <<"energy">>, <<"err_energy">>, <<"xmax">>, <<"err_xmax">> >>
L2015(c) == Const("result_bits", c.id) \o Flds(<<"n_trg", "n_read", "n_img">>, "i2") \o Fld("img_pattern", "i4", <<>>)
  \o Cat([i \in 1..10 |-> IF Bit(c.id, i - 1) THEN Flds(Parts2015[i], "f4") ELSE Absents(Parts2015[i])])

\* the pixels of a list, in the order of storage (counted from 0)
PixelsOf(c) == IF c.lt = 1 THEN c.lst
               ELSE LET r(i) == [k \in 1..(c.lst[2 * i] - c.lst[2 * i - 1] + 1) |-> c.lst[2 * i - 1] + k - 1]
                    IN Cat([i \in 1..(Len(c.lst) \div 2) |-> r(i)])
PosOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
L2016(c) == LET px == PixelsOf(c)
                n == Len(px)
                sum == c.before >= 0 /\ c.after >= 0
                sel == c.thr < 0        \* global sums only for listed pixels
                e == IF c.ver = 1 THEN "i2" ELSE "sv"
                nl == Len(c.lst) \div c.lt
                pix(i) == Raw("t" \o S(i), "i2", c.nty) \o When(sum, Raw("l" \o S(i), "sv4", c.ng))
                          \o When(sum /\ sel, Raw("g" \o S(i), "sv4", c.ng))
                \* element for pixel number p (from 0)
                at(nm, p, j, miss) == IF p \in {px[i] : i \in 1..n} THEN <<nm \o S(PosOf(px, p)), j>> ELSE miss
                mat(rows, cols, f(_, _)) == [k \in 1..(rows * cols) |-> f((k - 1) \div cols, ((k - 1) % cols) + 1)]
            IN
  Key1("n_pixels", e, c.np) \o Key1("n_gains", "i2", c.ng) \o Key1("before_peak", "i2", c.before) \o Key1("after_peak", "i2", c.after)
  \o Const("with_sum", IF sum THEN 1 ELSE 0) \o Key1("list_type", "i2", c.lt) \o Put(e, <<nl>>)
  \o Key("pixel_list", e, IF c.lt = 1 THEN <<nl>> ELSE <<nl, 2>>, c.lst)
  \o Key1("threshold", "i2", c.thr) \o Const("glob_only_selected", IF sel THEN 1 ELSE 0)
  \o Key1("n_types", "i2", c.nty) \o Fld("time_type", "i2", <<c.nty>>) \o Fld("time_level", "f4", <<c.nty>>)
  \o Raw("granularity", "f4", 1) \o Ref("granularity", <<>>, <<<<"granularity", 1>>>>, "") \o Fld("peak_global", "f4", <<>>)
  \o Cat([i \in 1..n |-> pix(i)])
  \o When(sum /\ ~sel /\ n > 0, Raw("glob", "sv4", c.ng * c.np))
  \o Ref("time", <<c.np, c.nty>>, mat(c.np, c.nty, LAMBDA p, j : at("t", p, j, NaN)), "granularity")
  \o Ref("pulse_sum_loc", <<c.ng, c.np>>, mat(c.ng, c.np, LAMBDA g, p : IF sum THEN at("l", p - 1, g + 1, Zero) ELSE Zero), "")
  \o Ref("pulse_sum_glob", <<c.ng, c.np>>,
         mat(c.ng, c.np, LAMBDA g, p : CASE ~sum \/ n = 0 -> Zero [] sel -> at("g", p - 1, g + 1, Zero) [] OTHER -> <<"glob", g * c.np + p>>), "")

\* bytes of a variable length number
UvLen(n) == CASE n < 128 -> 1 [] n < 16384 -> 2 [] n < 2097152 -> 3
L2020(c) == LET k(i, x) == P("profiles", P(S(i - 1), x))
                m == "mc_extra_params" IN
  Const("shower", c.id) \o Fld("primary_id", "i4", <<>>) \o Flds(<<"energy", "azimuth", "altitude">>, "f4")
  \o (IF c.ver >= 1 THEN Fld("depth_start", "f4", <<>>) ELSE Absent("depth_start"))
  \o Flds(<<"h_first_int", "xmax">>, "f4")
  \o (IF c.ver >= 1 THEN Flds(<<"hmax", "emax", "cmax">>, "f4") ELSE Const("hmax", 0) \o Const("emax", 0) \o Const("cmax", 0))
  \o Key1("n_profiles", "i2", Len(c.prof)) \o Len_("profiles", Len(c.prof))
  \o Cat([i \in 1..Len(c.prof) |-> Fld(k(i, "id"), "i4", <<>>) \o Key1(k(i, "n_steps"), "i4", c.prof[i])
                                  \o Flds(<<k(i, "start"), k(i, "end")>>, "f4") \o Fld(k(i, "content"), "f4", <<c.prof[i]>>)])
  \o (IF c.ver >= 2
      THEN \* a sub-object
           Put("u4", <<1215 + c.ext * 131072>>) \o Put("u4", <<0>>) \o Put("u4", <<4 + UvLen(c.ni) + UvLen(c.nf) + 4 * c.ni + 4 * c.nf>>) \o When(c.ext = 1, Put("u4", <<0>>))
           \o Fld(P(m, "weight"), "f4", <<>>) \o Key1(P(m, "n_iparam"), "uv", c.ni) \o Key1(P(m, "n_fparam"), "uv", c.nf)
           \o (IF c.ni > 0 THEN Fld(P(m, "iparam"), "i4", <<c.ni>>) ELSE Absent(P(m, "iparam")))
           \o (IF c.nf > 0 THEN Fld(P(m, "fparam"), "f4", <<c.nf>>) ELSE Absent(P(m, "fparam")))
      ELSE Absent(m))

L2021(c) == Const("event_id", c.id) \o Fld("shower_num", "i4", <<>>) \o Flds(<<"xcore", "ycore">>, "f4")
  \o (IF c.ver >= 2 THEN Fld("aweight", "f4", <<>>) ELSE Const("aweight", 1))

L2026(c) == Const("event", c.id) \o Fld("shower_num", "i4", <<>>) \o Key1("n_tel", "i4", c.nt) \o Fld("n_pe", "i4", <<c.nt>>)
  \o Put("i4", [i \in 1..c.nt |-> IF i = c.nt THEN c.pix ELSE 0])
  \o LET ks == <<"photons", "photons_atm", "photons_atm_3_6", "photons_atm_qe">> IN
     (IF c.ver >= 1 THEN Cat([i \in 1..4 |-> Fld(ks[i], "f4", <<c.nt>>)]) ELSE Absents(ks))
  \o (IF c.ver >= 2 THEN Fld("photons_atm_400", "f4", <<c.nt>>) ELSE Absent("photons_atm_400"))

L2027(c) == LET e == IF c.ver = 0 THEN "i2" ELSE "sv" IN
  Const("code", c.code) \o Const("telescope_id", c.tel) \o Key1("pixels", e, c.n) \o Fld("pixel_list", e, <<c.n>>)

L2029(c) == Fld("tel_id", "i4", <<>>) \o Fld("time_scale", "f4", <<>>) \o Put("uv", <<c.n>>) \o Put("uv", <<c.m>>)
  \o Cat([i \in 1..c.n |-> Raw("d" \o S(i), "diff", c.m)])
  \o Ref("trace_data", <<c.n, c.m>>, Cat([i \in 1..c.n |-> Span("d" \o S(i), 1, c.m)]), "")
L2030(c) == Fld("tel_id", "i4", <<>>) \o Fld("time_scale", "f4", <<>>) \o Put("uv", <<c.n>>) \o Put("uv", <<c.m>>)
  \o Fld("trace_data", "f4", <<c.n, c.m>>)
L2032(c) == Fld("time_step", "f4", <<>>) \o Key1("n_times", "sv", c.n) \o Fld("pixel_ids", "sv", <<c.n>>) \o Fld("trigger_times", "sv", <<c.n>>)

EvtLayout(c) == CASE c.t = 2009 -> L2009(c) [] c.t = 2011 -> L2011(c) [] c.t = 2100 -> L2100(c) [] c.t = 2014 -> L2014(c) [] c.t = 2015 -> L2015(c)
                  [] c.t = 2016 -> L2016(c) [] c.t = 2020 -> L2020(c) [] c.t = 2021 -> L2021(c) [] c.t = 2026 -> L2026(c) [] c.t = 2027 -> L2027(c)
                  [] c.t = 2029 -> L2029(c) [] c.t = 2030 -> L2030(c) [] c.t = 2032 -> L2032(c)
EvtType(c) == IF c.t = 2100 THEN Type2100(c) ELSE c.t
EvtId(c) == CASE c.t = 2100 -> Id2100(c) [] c.t = 2014 -> Id2014(c) [] c.t = 2027 -> c.tel + 1000000 * c.code [] OTHER -> c.id
\* stored, but refused
EvtRefused(c) == \/ c.t = 2026 /\ c.pix > 0 /\ c.nt > 0
EvtExcluded(c) == c.t = 2100 /\ c.raw = 0 /\ c.cor = 0
EvtSupported == [x \in {2009, 2011, 2100, 2014, 2015, 2016, 2020, 2021, 2026, 2027, 2032} |->
                   CASE x = 2009 -> 0..3 [] x = 2011 -> 0..4 [] x = 2100 -> {0} [] x = 2014 -> 5..6 [] x = 2015 -> {1} [] x = 2016 -> {1, 2}
                     [] x \in {2020, 2021, 2026} -> 0..2 [] x = 2027 -> 0..1 [] x = 2032 -> {0}]
=============================================================================
