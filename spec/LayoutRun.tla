----------------------------- MODULE LayoutRun -----------------------------
(* Run, camera and monitoring blocks of sim_telarray (C17). *)
EXTENDS LayoutBase

Np == {0, 1, 3}      \* numbers of pixels
Ng == {1, 2}

\* cases: [g |-> group, t |-> type, ver |-> version, id |-> object id, ...parameters]
Case(t, ver, id) == [t |-> t, ver |-> ver, id |-> id]

RunCases ==
  [t : {2000}, ver : 0..2, id : {1, 4711}, nt : 0..4]
  \cup [t : {2001}, ver : {4}, id : {17}]
  \cup [t : {2002}, ver : 0..3, id : {1, 200}, np : Np]
  \cup [t : {2002}, ver : 4..6, id : {1, 200}, np : Np, curved : {0, 1}, parallel : {0, 1}, common : {0, 1}]
  \cup [t : {2002}, ver : 4..6, id : {1}, np : {2}, curved : {0, 2, -1, 128}, parallel : {0, 2, -1, -128}, common : {0, 2, -1, 8192}]
  \cup [t : {2003}, ver : {1, 2}, id : {3}, np : Np, ng : Ng, nd : {0, 2}, ns : {0, 2}, l : {0, 3}]
  \cup [t : {2004}, ver : 0..3, id : {1, 44}, np : Np, nd : {0, 1, 3}, nref : {0, 1, 2}, lref : {0, 5}]
  \cup [t : {2005}, ver : {0}, id : {9}, a : {0, 1, 4}, b : {0, 1, 3}]
  \cup [t : {2006}, ver : {0}, id : {9}, n : {0, 1, 3}]
  \cup [t : {2007}, ver : {0}, id : {2}, n : {0, 1, 7}]
  \cup [t : {2008}, ver : {0}, id : {2}]
  \cup [t : {2022}, ver : {0, 1}, what : 0..127, tel : {1, 300}, np : {3}, ng : {2}, nd : {2}, ns : {4}, nt : {1}, nc : {2}]
  \cup [t : {2022}, ver : {0, 1}, what : {256 * h + l : h \in {1, 2, 4, 8, 16, 32, 64, 128, 255}, l \in {0, 1, 64, 127}}, tel : {300}, np : {3}, ng : {2}, nd : {2}, ns : {4}, nt : {1}, nc : {2}]
  \cup [t : {2022}, ver : {0, 1}, what : {8}, tel : {300}, np : {3}, ng : {2}, nd : {2, 3}, ns : {4}, nt : {2, 3}, nc : {2}]
  \cup [t : {2022}, ver : {0, 1}, what : {127, 4, 8}, tel : {0, 255, 256, 16383}, np : Np, ng : Ng, nd : {0, 1}, ns : {0, 2}, nt : {0, 2}, nc : {0, 1}]
  \cup [t : {2023}, ver : 0..3, id : {7}, np : {0, 1, 4}, ng : Ng]
  \cup [t : {2033}, ver : {0}, id : {7}, flags : 0..255, np : {2}, ng : Ng]
  \cup [t : {2033}, ver : {0}, id : {7}, flags : {255, 64}, np : {0, 1}, ng : Ng]

\* dimensions which need more than 7, 8, 14, 15 or 16 bits
RunWide ==
  [t : {2000}, ver : 0..2, id : {1}, nt : {128, 300, 40000}]
  \cup [t : {2002}, ver : 0..3, id : {1}, np : {300, 70000}]
  \cup [t : {2002}, ver : 4..6, id : {1}, np : {300}, curved : {0, 1}, parallel : {0, 1}, common : {0, 1}]
  \cup [t : {2002}, ver : 4..6, id : {1}, np : {40000, 70000}, curved : {1}, parallel : {0}, common : {0}]
  \cup [t : {2003}, ver : {1, 2}, id : {3}, np : {300}, ng : Ng, nd : {300}, ns : {300}, l : {128}]
  \cup [t : {2003}, ver : {1, 2}, id : {3}, np : {3}, ng : {2}, nd : {300}, ns : {1}, l : {300, 20000}]
  \cup [t : {2004}, ver : 0..3, id : {1}, np : {300, 70000}, nd : {300, 40000}, nref : {2}, lref : {300}]
  \cup [t : {2004}, ver : {2, 3}, id : {1}, np : {3}, nd : {2}, nref : {150, 300}, lref : {130, 10000 }]
  \cup [t : {2005}, ver : {0}, id : {9}, a : {300, 40000}, b : {300, 40000}]
  \cup [t : {2006}, ver : {0}, id : {9}, n : {300, 70000}]
  \cup [t : {2007}, ver : {0}, id : {2}, n : {300, 70000}]
  \cup [t : {2022}, ver : {0, 1}, what : {127}, tel : {300}, np : {300, 10000}, ng : Ng, nd : {300}, ns : {300}, nt : {3}, nc : {300}]
  \cup [t : {2022}, ver : {0, 1}, what : {8, 34}, tel : {300}, np : {32767}, ng : {1}, nd : {3}, ns : {20000}, nt : {300}, nc : {20000}]
  \cup [t : {2022}, ver : {1}, what : {124, 2}, tel : {300}, np : {32768, 70000}, ng : {2}, nd : {40000}, ns : {40000}, nt : {2}, nc : {3}]
  \cup [t : {2023}, ver : 0..3, id : {7}, np : {300, 32767, 32768, 65535}, ng : Ng]
  \cup [t : {2033}, ver : {0}, id : {7}, flags : {255}, np : {300, 70000}, ng : Ng]

L2000(c) ==
  Flds(<<"run", "time", "run_type", "tracking_mode">>, "i4")
  \o (IF c.ver >= 2 THEN Fld("reverse_flag", "i4", <<>>) ELSE Absent("reverse_flag"))
  \o Fld("direction", "f4", <<2>>) \o Fld("offset_fov", "f4", <<2>>) \o Fld("conv_depth", "f4", <<>>)
  \o (IF c.ver >= 1 THEN Fld("conv_ref_pos", "f4", <<2>>) ELSE Absent("conv_ref_pos"))
  \o Key1("n_telescopes", "i4", c.nt)
  \o Fld("tel_id", "i2", <<c.nt>>) \o Fld("tel_pos", "f4", <<c.nt, 3>>)
  \o Fld("min_tel_trig", "i4", <<>>) \o Fld("duration", "i4", <<>>)
  \o Fld("target", "str", <<>>) \o Fld("observer", "str", <<>>)

L2001(c) ==
  Flds(<<"shower_prog_id", "shower_prog_vers", "shower_prog_start", "detector_prog_id", "detector_prog_vers", "detector_prog_start">>, "i4")
  \o Fld("obsheight", "f4", <<>>) \o Flds(<<"n_showers", "n_use", "core_pos_mode">>, "i4")
  \o Fld("core_range", "f4", <<2>>) \o Fld("alt_range", "f4", <<2>>) \o Fld("az_range", "f4", <<2>>)
  \o Fld("diffuse", "i4", <<>>) \o Fld("viewcone", "f4", <<2>>) \o Fld("E_range", "f4", <<2>>)
  \o Flds(<<"spectral_index", "B_total", "B_inclination", "B_declination", "injection_height">>, "f4")
  \o Flds(<<"atmosphere", "corsika_iact_options", "corsika_low_E_model", "corsika_high_E_model">>, "i4")
  \o Flds(<<"corsika_bunchsize", "corsika_wlen_min", "corsika_wlen_max">>, "f4")
  \o Flds(<<"corsika_low_E_detail", "corsika_high_E_detail">>, "i4")

ZeroArr(k, n) == Ref(k, <<n>>, Rep(n, Zero), "")
L2002(c) == LET n == c.np IN
  Key1("n_pixels", "i4", n) \o Const("telescope_id", c.id)
  \o Fld("focal_length", "f4", <<>>)
  \o (IF c.ver > 4 THEN Fld("effective_focal_length", "f4", <<>>) ELSE Absent("effective_focal_length"))
  \o LET ks == <<"effective_focal_length_x", "effective_focal_length_y", "effective_focal_length_dx", "effective_focal_length_dy">>
     IN (IF c.ver > 5 THEN Flds(ks, "f4") ELSE Absents(ks))
  \o Fld("pixel_x", "f4", <<n>>) \o Fld("pixel_y", "f4", <<n>>)
  \o (IF c.ver >= 4
      THEN Key1("curved_surface", "sv", c.curved) \o Key1("pixels_parallel", "sv", c.parallel)
           \o (IF c.curved # 0 THEN Fld("pixel_z", "f4", <<n>>) ELSE ZeroArr("pixel_z", n))
           \o (IF c.parallel = 0 THEN Fld("nxpix", "f4", <<n>>) \o Fld("nypix", "f4", <<n>>) ELSE ZeroArr("nxpix", n) \o ZeroArr("nypix", n))
           \o Key1("common_pixel_shape", "sv", c.common)
           \o (IF c.common = 0
               THEN Fld("pixel_shape", "sv", <<n>>) \o Fld("pixel_area", "f4", <<n>>) \o Fld("pixel_size", "f4", <<n>>)
               ELSE Raw("shape", "sv", 1) \o Raw("area", "f4", 1) \o Raw("psize", "f4", 1)
                    \o Ref("pixel_shape", <<n>>, Rep(n, <<"shape", 1>>), "") \o Ref("pixel_area", <<n>>, Rep(n, <<"area", 1>>), "")
                    \o Ref("pixel_size", <<n>>, Rep(n, <<"psize", 1>>), ""))
      ELSE Const("curved_surface", 0) \o Const("pixels_parallel", 1) \o Const("common_pixel_shape", 0)
           \o ZeroArr("pixel_z", n) \o ZeroArr("nxpix", n) \o ZeroArr("nypix", n)
           \o Const("pixel_shape", Rep(n, -1))
           \o Fld("pixel_area", "f4", <<n>>)
           \o (IF c.ver >= 1 THEN Fld("pixel_size", "f4", <<n>>) ELSE ZeroArr("pixel_size", n)))
  \o (IF c.ver >= 2 THEN Fld("n_mirrors", "i4", <<>>) \o Fld("mirror_area", "f4", <<>>)
      ELSE Const("n_mirrors", 0) \o Const("mirror_area", 0))
  \o (IF c.ver >= 3 THEN Fld("cam_rot", "f4", <<>>) ELSE Const("cam_rot", 0))

L2003(c) == LET n == c.np
                e == IF c.ver = 1 THEN "i2" ELSE "sv"
                len(i) == IF i = 2 THEN 0 ELSE c.l + i   \* numbers of sectors of the pixels
            IN
  Const("telescope_id", c.id)
  \o Key1("n_pixels", "i4", n) \o Key1("n_drawers", "i4", c.nd) \o Key1("n_gains", "i4", c.ng) \o Key1("n_sectors", "i4", c.ns)
  \o Fld("drawer", e, <<n>>)
  \o Fld("card", e, <<n, c.ng>>) \o Fld("chip", e, <<n, c.ng>>) \o Fld("channel", e, <<n, c.ng>>)
  \o Len_("sectors", n)
  \o Cat([i \in 1..n |-> Put(e, <<len(i)>>) \o Fld(P("sectors", S(i - 1)), e, <<len(i)>>)])
  \o LET tri == [i \in 1..c.ns |-> Raw("t" \o S(i), "u1", 1) \o Raw("a" \o S(i), "f4", 1) \o Raw("b" \o S(i), "f4", 1)] IN
     Cat(tri) \o Ref("sector_type", <<c.ns>>, [i \in 1..c.ns |-> <<"t" \o S(i), 1>>], "")
     \o Ref("sector_threshold", <<c.ns>>, [i \in 1..c.ns |-> <<"a" \o S(i), 1>>], "")
     \o Ref("sector_pixel_threshold", <<c.ns>>, [i \in 1..c.ns |-> <<"b" \o S(i), 1>>], "")

L2004(c) ==
  Const("telescope_id", c.id)
  \o Flds(<<"setup_id", "trigger_mode", "min_pixel_mult">>, "i4")
  \o Key1("n_pixels", "i4", c.np) \o Fld("pixel_HV_DAC", "i4", <<c.np>>)
  \o Put("i4", <<c.nd>>) \o Fld("threshold_DAC", "i4", <<c.nd>>)
  \o Key1("n_drawers", "i4", c.nd) \o Fld("ADC_start", "i2", <<c.nd>>) \o Fld("ADC_count", "i2", <<c.nd>>)
  \o (IF c.ver >= 1 THEN Fld("time_slice", "f4", <<>>) \o Fld("sum_bins", "i4", <<>>) ELSE Absents(<<"time_slice", "sum_bins">>))
  \o (IF c.ver >= 2 THEN Put("sv", <<c.nref>>) \o Put("sv", <<c.lref>>) \o Fld("ref_step", "f4", <<>>) \o Fld("ref_shape", "f2", <<c.nref, c.lref>>)
      ELSE Absents(<<"ref_step", "ref_shape">>))
  \o (IF c.ver >= 3 THEN Fld("sum_offset", "i4", <<>>) ELSE NoneK("sum_offset"))

L2005(c) == Const("telescope_id", c.id)
  \o Key1("n_trig_disabled", "i4", c.a) \o Fld("trigger_disabled", "i4", <<c.a>>)
  \o Key1("n_HV_disabled", "i4", c.b) \o Fld("HV_disabled", "i4", <<c.b>>)

L2006(c) == Const("telescope_id", c.id)
  \o Flds(<<"dyn_trig_mode", "dyn_trig_threshold", "dyn_HV_mode", "dyn_HV_threshold", "data_red_mode", "zero_sup_mode">>, "i4")
  \o Key1("zero_sup_n_thr", "i4", c.n) \o Fld("zero_sup_thresholds", "i4", <<c.n>>)
  \o Flds(<<"unbiased_scale", "dyn_ped_mode", "dyn_ped_events", "dyn_ped_period", "monitor_cur_period", "report_cur_period",
            "monitor_HV_period", "report_HV_period">>, "i4")

L2007(c) == Const("telescope_id", c.id) \o Fld("function_type", "i4", <<>>) \o Key1("n_param", "i4", c.n) \o Fld("pointing_param", "f4", <<c.n>>)

L2008(c) == Flds(<<"drive_type_az", "drive_type_alt">>, "i2")
  \o Flds(<<"zeropoint_az", "zeropoint_alt", "sign_az", "sign_alt", "resolution_az", "resolution_alt", "range_low_az", "range_low_alt",
            "range_high_az", "range_high_alt", "park_pos_az", "park_pos_alt">>, "f4")

\* telescope id and change mask are packed in the object id
MonId(tel, what) == (tel % 256) + 256 * what + 16777216 * (tel \div 256)
Part(on, s, ks) == IF on THEN s ELSE Absents(ks)
L2022(c) == LET w(i) == Bit(c.what, i) IN
  Const("telescope_id", c.tel) \o Const("what", c.what)
  \o Fld("known", "i2", <<>>) \o Fld("new_parts", "i2", <<>>) \o Fld("monitor_id", "i4", <<>>) \o Fld("moni_time", "time", <<>>)
  \o LET e == IF c.ver = 0 THEN "i2" ELSE "sv" IN
     Key1("n_sectors", e, c.ns) \o Key1("n_pixels", e, c.np) \o Key1("n_drawers", e, c.nd) \o Key1("n_gains", e, c.ng)
  \o Part(w(0), Fld("status_time", "time", <<>>) \o Fld("status_bits", "i4", <<>>), <<"status_time", "status_bits">>)
  \o Part(w(1), Fld("trig_time", "time", <<>>) \o Flds(<<"coinc_count", "event_count">>, "i4") \o Fld("trigger_rate", "f4", <<>>)
                \o Fld("sector_rate", "f4", <<c.ns>>) \o Flds(<<"event_rate", "data_rate", "mean_significant">>, "f4"),
               <<"trig_time", "coinc_count", "event_count", "trigger_rate", "sector_rate", "event_rate", "data_rate", "mean_significant">>)
  \o Part(w(2), Fld("ped_noise_time", "time", <<>>) \o Fld("n_ped_slices", "i2", <<>>)
                \o Fld("pedestal", "f4", <<c.ng, c.np>>) \o Fld("noise", "f4", <<c.ng, c.np>>),
               <<"ped_noise_time", "n_ped_slices", "pedestal", "noise">>)
  \o Part(w(3), Fld("hv_temp_time", "time", <<>>) \o Key1("n_drawer_temp", "i2", c.nt) \o Key1("n_camera_temp", "i2", c.nc)
                \o Fld("hv_v_mon", "i2", <<c.np>>) \o Fld("hv_i_mon", "i2", <<c.np>>) \o Fld("hv_stat", "u1", <<c.np>>)
                \o Fld("drawer_temp", "i2", <<c.nd, c.nt>>) \o Fld("camera_temp", "i2", <<c.nc>>),
               <<"hv_temp_time", "n_drawer_temp", "n_camera_temp", "hv_v_mon", "hv_i_mon", "hv_stat", "drawer_temp", "camera_temp">>)
  \o Part(w(4), Fld("dc_rate_time", "time", <<>>) \o Fld("current", "u2", <<c.np>>) \o Fld("scaler", "u2", <<c.np>>),
               <<"dc_rate_time", "current", "scaler">>)
  \o Part(w(5), Fld("hv_thr_time", "time", <<>>) \o Fld("hv_dac", "u2", <<c.np>>) \o Fld("thresh_dac", "u2", <<c.nd>>)
                \o Fld("hv_set", "u1", <<c.np>>) \o Fld("trig_set", "u1", <<c.np>>),
               <<"hv_thr_time", "hv_dac", "thresh_dac", "hv_set", "trig_set">>)
  \o Part(w(6), Fld("set_daq_time", "time", <<>>) \o Flds(<<"daq_conf", "daq_scaler_win", "daq_nd", "daq_acc", "daq_nl">>, "i2"),
               <<"set_daq_time", "daq_conf", "daq_scaler_win", "daq_nd", "daq_acc", "daq_nl">>)

L2023(c) == LET two == <<c.ng, c.np>> IN
  Const("telescope_id", c.id) \o Put("u2", <<c.np>>) \o Put("i2", <<c.ng>>) \o Fld("lascal_id", "i4", <<>>) \o Fld("calib", "f4", two)
  \o (IF c.ver >= 1
      THEN Raw("frac", "f4", 2 * c.ng) \o Ref("max_int_frac", <<c.ng>>, [i \in 1..c.ng |-> <<"frac", 2 * i - 1>>], "")
           \o Ref("max_pixtm_frac", <<c.ng>>, [i \in 1..c.ng |-> <<"frac", 2 * i>>], "")
      ELSE Absents(<<"max_int_frac", "max_pixtm_frac">>))
  \o (IF c.ver >= 2 THEN Fld("tm_calib", "f4", two) ELSE Absent("tm_calib"))
  \o (IF c.ver >= 3 THEN Fld("flat_fielding", "f4", two) ELSE Absent("flat_fielding"))

L2033(c) ==
  LET ks == <<"nsb_rate", "qe_rel", "gain_rel", "hv_rel", "current", "fadc_amp_hg", "fadc_amp_lg">>
      on(i) == Bit(c.flags, i - 1) /\ (i = 7 => c.ng > 1) IN
  Key1("flags", "i4", c.flags) \o Key1("n_pixels", "i4", c.np) \o Key1("n_gains", "i2", c.ng)
  \o Cat([i \in 1..7 |-> IF on(i) THEN Fld(ks[i], "f4", <<c.np>>) ELSE Absent(ks[i])])
  \o (IF Bit(c.flags, 7) THEN Fld("disabled", "bool", <<c.np>>) ELSE Absent("disabled"))

RunLayout(c) == CASE c.t = 2000 -> L2000(c) [] c.t = 2001 -> L2001(c) [] c.t = 2002 -> L2002(c) [] c.t = 2003 -> L2003(c)
                  [] c.t = 2004 -> L2004(c) [] c.t = 2005 -> L2005(c) [] c.t = 2006 -> L2006(c) [] c.t = 2007 -> L2007(c)
                  [] c.t = 2008 -> L2008(c) [] c.t = 2022 -> L2022(c) [] c.t = 2023 -> L2023(c) [] c.t = 2033 -> L2033(c)
RunId(c) == IF c.t = 2022 THEN MonId(c.tel, c.what) ELSE c.id
RunSupported == [x \in {2000, 2001, 2002, 2003, 2004, 2005, 2006, 2007, 2008, 2022, 2023, 2033} |->
                   CASE x = 2000 -> 0..2 [] x = 2001 -> {4} [] x = 2002 -> 0..6 [] x = 2003 -> 1..2 [] x = 2004 -> 0..3
                     [] x \in {2005, 2006, 2007, 2008, 2033} -> {0} [] x = 2022 -> 0..1 [] x = 2023 -> 0..3]
=============================================================================
