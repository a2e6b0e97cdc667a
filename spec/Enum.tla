---------------------------------- MODULE Enum ----------------------------------
(* Exhaustive families: every member of a finite space of inputs or of call   *)
(* histories.  A profile maps (session, step) to the event.                    *)
EXTENDS Gen, Json, IOUtils

(* the configuration: the JSON file named by the environment variable GENCFG  *)
Cfg == JsonDeserialize(IOEnv.GENCFG)
Runs(p) == \E k \in 1..Len(Cfg.runs) : Cfg.runs[k].profile = p
(* constants are evaluated once, and only when a family asked for needs them  *)
NeedHist == \E q \in { "e_hist", "e_qp", "e_types", "e_big_stream", "e_big_len", "e_big_rtp", "e_big_box", "e_many", "e_cli", "e_edges", "e_ids", "e_ap", "e_box", "laws" } : Runs(q)

TailProfiles == { "t_vps", "t_sps", "t_hrd", "t_pps", "t_ext", "t_slice", "t_sei", "t_ptl", "t_st" }
EnumProfiles == { "e_find", "e_esc", "e_len", "e_hdr", "e_pred", "e_profs", "e_hist", "e_ue", "e_fu",
                  "e_st", "e_aud", "e_qp", "e_dims", "e_vuifr", "e_sum", "e_types",
                  "e_big_stream", "e_big_len", "e_big_sei", "e_big_rtp", "e_big_box", "e_big_bits", "e_big_esc", "e_rows", "e_entry", "e_many", "e_cli", "e_edges", "e_ids",
                  "l_vps", "l_sps", "l_hrd", "l_pps", "l_ext", "l_slice", "l_st", "l_dump",
                  "w_vps", "w_sps", "w_hrd", "w_pps", "w_ext", "w_slice", "w_st", "w_sei", "w_dump",
                  "e_prefix", "e_ap", "e_box", "v_vps", "v_sps", "v_hrd", "v_pps", "v_ext", "v_slice", "v_sei", "v_ptl", "v_dump" } \cup TailProfiles

(* the x-th string (x = 0, 1, ...) over 0..k-1, shortest first                 *)
RECURSIVE StrLen(_, _, _), Digits(_, _, _)
StrLen(x, k, size) == IF x < size THEN << 0, x >>
                      ELSE LET q == StrLen(x - size, k, size * k) IN << q[1] + 1, q[2] >>
Digits(v, k, n) == IF n = 0 THEN <<>> ELSE Append(Digits(v \div k, k, n - 1), v % k)
Str(x, k) == LET q == StrLen(x, k, 1) IN Digits(q[2], k, q[1])

(* ----------------------------------------------------- a fixed small alphabet *)
Is(nm, v) == nm :> << v >>
Force(q) == FoldLeft(LAMBDA a, k : q[k] @@ a, NoForce, Iota(Len(q)))
Hd(t) == << t * 2, 1 >>
PlainSps == << Is("sps_max_sub_layers_minus1", 0), Is("profile_idc", 1), Is("vui_parameters_present_flag", 0),
  Is("scaling_list_enabled_flag", 0), Is("sps_extension_present_flag", 0), Is("conformance_window_flag", 0),
  Is("pic_width_in_luma_samples", 256), Is("pic_height_in_luma_samples", 192),
  Is("log2_min_luma_coding_block_size_minus3", 0), Is("long_term_ref_pics_present_flag", 0),
  Is("log2_max_pic_order_cnt_lsb_minus4", 4), Is("chroma_format_idc", 1), Is("pcm_enabled_flag", 0) >>
PlainPps == << Is("tiles_enabled_flag", 0), Is("entropy_coding_sync_enabled_flag", 0),
  Is("pps_scaling_list_data_present_flag", 0), Is("pps_extension_present_flag", 0),
  Is("slice_segment_header_extension_present_flag", 0), Is("lists_modification_present_flag", 0),
  Is("weighted_pred_flag", 0), Is("weighted_bipred_flag", 0), Is("output_flag_present_flag", 0),
  Is("dependent_slice_segments_enabled_flag", 0) >>
PlainSlice == << Is("first_slice_segment_in_pic_flag", 1), Is("slice_type", 1), Is("slice_temporal_mvp_enabled_flag", 0),
  Is("num_ref_idx_active_override_flag", 1), Is("num_ref_idx_l0_active_minus1", 0) >>
Esc(t, s) == Escape(Hd(t) \o GenBytes(s))
VpsOf(id, seed) == Esc(32, VpsG(GenState(seed, 0, Force(<< Is("vps_video_parameter_set_id", id),
   Is("vps_max_sub_layers_minus1", 0), Is("vps_timing_info_present_flag", 0), Is("vps_extension_flag", 0),
   Is("vps_max_layer_id", 1), Is("vps_num_layer_sets_minus1", 0) >>), VpsD)))
SpsOf(id, seed, more) == Esc(33, SpsG(GenState(seed, 0,
   Force(PlainSps \o << Is("sps_seq_parameter_set_id", id) >> \o more), SpsD)))
PpsOf(id, sps, seed, more) == Esc(34, PpsG(GenState(seed, 0,
   Force(PlainPps \o << Is("pps_pic_parameter_set_id", id), Is("pps_seq_parameter_set_id", sps) >> \o more), PpsD)))
Cat(f, id, u0) ==      \* the record of the first set in u0
  LET s == Nalu(u0, EmptyStore, FALSE).store IN s
HSpsA == IF ~NeedHist THEN <<>> ELSE SpsOf(0, 11, << Is("num_short_term_ref_pic_sets", 1), Is("sample_adaptive_offset_enabled_flag", 1) >>)
HSpsB == IF ~NeedHist THEN <<>> ELSE SpsOf(0, 12, << Is("num_short_term_ref_pic_sets", 2), Is("sample_adaptive_offset_enabled_flag", 0),
                        Is("log2_max_pic_order_cnt_lsb_minus4", 8) >>)
HSpsC == IF ~NeedHist THEN <<>> ELSE SpsOf(1, 13, << Is("num_short_term_ref_pic_sets", 0), Is("separate_colour_plane_flag", 1), Is("chroma_format_idc", 3) >>)
HPpsA == IF ~NeedHist THEN <<>> ELSE PpsOf(0, 0, 21, << Is("init_qp_minus26", 3), Is("num_extra_slice_header_bits", 0) >>)
HPpsB == IF ~NeedHist THEN <<>> ELSE PpsOf(0, 0, 22, << Is("init_qp_minus26", -5), Is("num_extra_slice_header_bits", 2) >>)
HPpsC == IF ~NeedHist THEN <<>> ELSE PpsOf(1, 1, 23, << Is("init_qp_minus26", 10) >>)
HPpsD == IF ~NeedHist THEN <<>> ELSE PpsOf(0, 1, 24, << Is("init_qp_minus26", 0), Is("output_flag_present_flag", 1) >>)
HVpsA == IF ~NeedHist THEN <<>> ELSE VpsOf(0, 31)
HVpsB == IF ~NeedHist THEN <<>> ELSE VpsOf(0, 32)
SliceIn(us, t, pid, seed) ==
  LET s == FoldLeft(LAMBDA a, k : Nalu(us[k], a, FALSE).store, EmptyStore, Iota(Len(us)))
  IN Escape(Hd(t) \o BitsToBytes(GenBits(SliceG(GenState(seed, 0,
        Force(PlainSlice \o << Is("slice_pic_parameter_set_id", pid) >>), SliceD), t, s.pps, s.sps)) \o <<1>>) \o << 129, 130 >>)
HSliceA == IF ~NeedHist THEN <<>> ELSE SliceIn(<< HSpsA, HPpsA >>, 19, 0, 41)
HSliceB == IF ~NeedHist THEN <<>> ELSE SliceIn(<< HSpsA, HPpsA >>, 1, 0, 42)
HSliceC == IF ~NeedHist THEN <<>> ELSE SliceIn(<< HSpsC, HPpsC >>, 1, 1, 43)
Half(u0) == SubSeq(u0, 1, (2 * Len(u0)) \div 3)
HistAlphabet == IF ~NeedHist THEN <<>> ELSE << HSpsA, HPpsA, HSliceB, HSpsB, HPpsB, HSliceA, HSpsC, HPpsC, HSliceC, HPpsD,
                   Half(HSpsB), Half(HPpsB), HVpsA, HVpsB >>
HistK == Len(HistAlphabet)
HistCount == 3 * HistK * HistK * HistK
HistStride == 1009                \* prime to HistCount, so that every history comes once
HistStart == IF ~NeedHist THEN <<>> ELSE << <<>>, << HSpsA, HPpsA >>, << HSpsC, HPpsC, HSpsA, HPpsA >> >>
HistEnd == IF ~NeedHist THEN <<>> ELSE << HSliceA, HSliceB, HSliceC >>
Annexb(us) == Flatten([j \in 1..Len(us) |-> << 0, 0, 1 >> \o us[j]])
HistOps(u0, z) ==   \* the same unit through one of the entry points
  CASE z % 4 = 0 -> Event("nalu", 1, u0, << 0 >>)
    [] z % 4 = 1 -> Event("stream", 1, << 0, 0, 1 >> \o u0, << 0, 0 >>)
    [] z % 4 = 2 -> Event("naluu", 1, Unescape(u0), << 0 >>)
    [] z % 4 = 3 -> Event("lenstream", 1, BytesOf(Len(u0), 2) \o u0, << 0, 0, 2 >>)

(* slice QP: all combinations of extreme and ordinary values                    *)
QpInit == << -26, -1, 0, 1, 25, -74, -127, 127, 1000000, -1000000, 2147483600, -2147483600, 2147483647, -2147483647, 26 >>
QpDelta == << 0, 1, -1, 25, -51, 100, -100, 2147483647, -2147483647, 2147483600, -2147483600, 1073741824, -1073741825 >>
QpUnit(a, b) ==
  LET sps == HSpsA
      pps == PpsOf(0, 0, 21, << Is("init_qp_minus26", a), Is("num_extra_slice_header_bits", 0) >>)
      s == FoldLeft(LAMBDA x, k : Nalu(<< sps, pps >>[k], x, FALSE).store, EmptyStore, Iota(2))
      sl == Escape(Hd(19) \o BitsToBytes(GenBits(SliceG(GenState(41, 0,
               Force(PlainSlice \o << Is("slice_pic_parameter_set_id", 0), Is("slice_qp_delta", b) >>), SliceD), 19, s.pps, s.sps)) \o <<1>>) \o << 129 >>)
      sc == << 0, 0, 1 >>
  IN sc \o sps \o sc \o pps \o sc \o sl

(* picture geometry *)
DimW == << 8, 16, 24, 64, 72, 200, 1080, 1920, 4096, 16384, 16888, 16880, 0, 7, 16889 >>
DimChroma == << << 0, 0 >>, << 1, 0 >>, << 2, 0 >>, << 3, 0 >>, << 3, 1 >> >>
DimWin == << << 0, 0, 0, 0 >>, << 1, 2, 3, 1 >>, << 0, 4, 0, 4 >>, << 2, 1, 0, 0 >>, << 4, 4, 4, 4 >> >>
DimBlk == << << 0, 0 >>, << 0, 1 >>, << 0, 3 >>, << 1, 2 >>, << 2, 1 >>, << 3, 0 >>, << 3, 3 >> >>
DimUnit(x) ==
  LET w == DimW[1 + (x % 15)]
      h == DimW[1 + (((x \div 15) * 7 + x) % 15)]
      c == DimChroma[1 + ((x \div 15) % 5)]
      b == DimBlk[1 + ((x \div 75) % 7)]
      o == DimWin[1 + ((x \div 525) % 5)]
  IN Hd(33) \o GenBytes(SpsG(GenState(50 + x, 0, Force(<< Is("pic_width_in_luma_samples", w), Is("pic_height_in_luma_samples", h),
       Is("chroma_format_idc", c[1]), Is("separate_colour_plane_flag", c[2]),
       Is("log2_min_luma_coding_block_size_minus3", b[1]), Is("log2_diff_max_min_luma_coding_block_size", b[2]),
       Is("conformance_window_flag", IF o = DimWin[1] THEN 0 ELSE 1),
       Is("conf_win_left_offset", o[1]), Is("conf_win_right_offset", o[2]),
       Is("conf_win_top_offset", o[3]), Is("conf_win_bottom_offset", o[4]),
       Is("sps_max_sub_layers_minus1", 0), Is("profile_idc", 1), Is("vui_parameters_present_flag", 0),
       Is("scaling_list_enabled_flag", 0), Is("sps_extension_present_flag", 0), Is("num_short_term_ref_pic_sets", 0),
       Is("pcm_enabled_flag", 0) >>), SpsD)))

(* profile structures: idc, one compatibility flag (or none), ten constraint bits *)
ProfBytes(idc, compat, c10) ==
  BitsToBytes(<< 0, 0, 0 >> \o TokBits(idc, 5) \o [k \in 1..32 |-> B01(k - 1 = compat)] \o << 1, 0, 0, 1 >>
              \o TokBits(c10, 10) \o [k \in 1..33 |-> 0] \o << 0 >>)

FrTicks == << 1, 1001, 1000, 3003, 90000, 33333, 40000, -1, MinInt, 2147483647, 65536, 7 >>
FrScales == << 24000, 30000, 60000, 25, 50, 90000, 27000000, -1, MinInt, 1, 48, 1000000 >>

(* checksums: rows of words whose sums carry in every way, and tails            *)
SumWords == << << 255, 255, 255, 255 >>, << 129, 254, 0, 0 >>, << 0, 0, 0, 1 >>, << 128, 0, 0, 0 >>, << 127, 255, 255, 255 >>, << 0, 0, 0, 0 >> >>
SumUnit(x) ==
  LET q == Str(x \div 2, 6)
      t == SubSeq(<< Of(x, 1, << 255, 1, 0, 128 >>), Of(x, 2, << 255, 0, 127 >>), Of(x, 3, << 255, 1, 0 >>) >>, 1, IF x % 2 = 0 THEN 0 ELSE 1 + ((x \div 2) % 3))
  IN << 126, 1, 255, 255 >> \o Flatten([j \in 1..Len(q) |-> SumWords[q[j] + 1]]) \o t

(* --------------------------------------------- every type among other units *)
TypeUnit(t, layer, more) == << t * 2 + (layer \div 32), (layer % 32) * 8 + 1 >> \o more
ApOf(us) == << 96, 1 >> \o Flatten([k \in 1..Len(us) |-> BytesOf(Len(us[k]), 2) \o us[k]])
PrefixedBy(us, n) == Flatten([k \in 1..Len(us) |-> BytesOf(Len(us[k]), n) \o us[k]])
BoxHead == << 1, 33, 96, 0, 0, 0, 144, 0, 0, 0, 0, 0, 93, 240, 0, 252, 253, 248, 248, 0, 0, 15 >>
\* a record with one array of the type for each list of units
BoxOf(ts, uss) == BoxHead \o << Len(uss) >>
  \o Flatten([k \in 1..Len(uss) |-> << 128 + ts[k] >> \o BytesOf(Len(uss[k]), 2) \o PrefixedBy(uss[k], 2)])
TypeEvent(t, k) ==
  LET t2 == (t * 37 + 11) % 64
      a == TypeUnit(t, 0, << 1, 2, 64, 128 >>)
      b == TypeUnit(t, 5, << 4, 4, 181, 0, 60, 1, 128 >>)
      c == TypeUnit(t, 63, <<>>)
      d == TypeUnit(t2, 0, << 80, 128 >>)
      us == << HSpsA, a, HPpsA, a, HSliceA, b, HSpsC, HPpsC, HSliceC, HSliceB >>
      mix == << a, d, HSpsA, c, d, HPpsA, b, a, d, HSliceB, d, c, HSpsB, b, HSliceA >>
  IN CASE k = 1 -> Event("stream", 1, Annexb(us), << 0, 0 >>)
       [] k = 2 -> Event("lenstream", 2, PrefixedBy(mix, 4), << 1, 0, 4 >>)
       [] k = 3 -> Event("stream", 2, Annexb(mix), << 0, 1 >>)
       [] k = 4 -> Event("rtp", 1, ApOf(mix), << 0 >>)
       [] k = 5 -> Event("rtp", 2, a, << 0 >>)
       [] k = 6 -> Event("rtp", 2, b, << 1 >>)
       [] k = 7 -> Event("qp", 1, Annexb(us), <<>>)
       [] k = 8 -> Event("hvcc", 2, BoxOf(<< t, 33, 34, t2, 1 >>, << << a, b >>, << HSpsA, HSpsC >>, << HPpsA, c, HPpsC >>, <<>>, << HSliceA >> >>), << 0, 0 >>)
       [] k = 9 -> Event("dump", 1, Annexb(mix), << 0, -1, 15 >>)
       [] k = 10 -> Event("cli", 1, Annexb(mix), << 2, 21, 2 >>)
       [] k = 11 -> Event("rtpfu", 1, << 98, 1, 128 + t >> \o SubSeq(HSliceA, 3, Len(HSliceA)), << 0 >>)
       [] k = 12 -> Event("nalu", 1, a, << 1 >>)
       [] k = 13 -> Event("dump", 1, IF t2 % 2 = 0 THEN a ELSE b, << 2, -1, 15 >>)
       [] k = 14 -> Event("s_slice", 1, SubSeq(HSliceB, 3, Len(HSliceB)), << 1, t >>)

(* ------------------------------------------ sizes beyond 16 bits, and counts *)
Filler(n, seed) == [i \in 1..n |-> 128 + (((i * 7919) + seed * 31 + (i \div 256)) % 128)]
BigSizes == << 254, 255, 256, 509, 510, 511, 65534, 65535, 65536, 65537, 66300, 70000 >>
AudE == << 70, 1, 80 >>
SeiSize(n) == [i \in 1..(n \div 255) |-> 255] \o << n % 255 >>
SeiBig(type, n) == SeiSize(type) \o SeiSize(n) \o Filler(n, n) \o << 128 >>
HPpsExt == IF ~NeedHist THEN <<>> ELSE
  LET g == PpsG(GenState(25, 0, Force(PlainPps \o << Is("pps_pic_parameter_set_id", 2), Is("pps_seq_parameter_set_id", 0),
             Is("pps_extension_present_flag", 1), Is("pps_range_extension_flag", 0), Is("pps_multilayer_extension_flag", 0),
             Is("pps_3d_extension_flag", 0), Is("pps_scc_extension_flag", 0), Is("pps_extension_4bits", 1) >>), PpsD))
  IN Hd(34) \o GenBytes(g)
BigStream(s) ==
  CASE s = 1 -> Filler(65533, 1) \o Annexb(<< HSpsA, HPpsA, HSliceB, AudE >>)
    [] s = 2 -> Annexb(<< HSpsA, HPpsA >>) \o Filler(131070, 2) \o Annexb(<< HSliceB, HSpsC, AudE, HPpsC, HSliceC >>)
    [] s = 3 -> Annexb(<< HSpsA, HPpsA, HSliceB \o Filler(70001, 3), HSpsB, HSliceB \o Filler(65530, 4), AudE, HSliceA >>)
    [] s = 4 -> Annexb([k \in 1..1200 |-> IF k = 400 THEN HSpsA ELSE IF k = 800 THEN HPpsA ELSE IF k % 300 = 250 THEN HSliceB
                                          ELSE TypeUnit(<< 35, 35, 38, 41, 36, 63 >>[1 + (k % 6)], k % 64, << 64 + (k % 128) >>)])
    [] s = 5 -> Annexb(<< Hd(39) \o SeiBig(4, 65536), HSpsA, Hd(40) \o SeiBig(700, 66000), HPpsA, HSliceB >>)
    [] s = 6 -> Annexb(<< HSpsA, HPpsExt \o Filler(9000, 6), HPpsA, HPpsExt, HSliceB >>)
    [] s = 7 -> [i \in 1..70000 |-> << 0, 0, 1, 3, 0, 0, 0, 2 >>[1 + (H(7, i) % 8)]]
    [] s = 8 -> [i \in 1..66000 |-> 0] \o Annexb(<< HSpsA \o [i \in 1..66000 |-> 0], HPpsA, HSliceB >>)
BigStreamEvent(s, k) ==
  LET b == BigStream(s) IN
  CASE k = 1 -> Event("stream", 1, b, << 1, 0 >>)
    [] k = 2 -> Event("find", 1, b, <<>>)
    [] k = 3 -> Event("dump", 2, b, << 0, -1, IF s \in {7} THEN 3 ELSE 15 >>)
    [] k = 4 -> Event("cli", 1, b, IF s = 7 THEN << 2, 21, 2 >> ELSE << 4, 21, 2, 5, 1060 >>)
    [] k = 5 -> Event("cli", 1, b, << 6, 21, 5, 7, 9, 11, 4 >> )
    [] k = 6 -> Event("qp", 2, b, <<>>)
BigLenEvent(s, k) ==
  LET n == 1 + (s % 4)
      f(z) == IF n = 1 THEN z % 256 ELSE IF n = 2 THEN Min2(z, 65535) ELSE z
      BU(z) == LET y == Max2(f(z), 2) IN TypeUnit(<< 1, 41, 39, 32 >>[1 + (k % 4)], 0, Filler(y - 2, z))
      us == << << HSpsA, BU(BigSizes[k]), HPpsA, BU(BigSizes[1 + ((k + s) % 12)]), HSliceB >>,
               [j \in 1..(500 + 100 * k) |-> IF j = 400 THEN HSpsA ELSE IF j = 410 THEN HPpsA ELSE IF j = 480 THEN HSliceB ELSE AudE],
               << BU(BigSizes[k]), HSpsA, HPpsA, HSliceB, BU(65535) >> >>[1 + (((s - 1) \div 4) % 3)]
      d == PrefixedBy(SelectSeq(us, LAMBDA x : n # 1 \/ Len(x) < 256), n)
      e == IF (s + k) % 5 = 0 /\ Len(d) > 70 THEN SubSeq(d, 1, Len(d) - 70) ELSE d
  IN IF n = 4 /\ k % 2 = 0 THEN Event("findx", 1, e, <<>>) ELSE Event("lenstream", 1, e, << k % 2, 0, n >>)
BigSeiTypes == << 4, 5, 137, 1, 254, 255, 510, 76500 >>
BigSeiEvent(s, k) ==
  LET b == SeiBig(BigSeiTypes[s], BigSizes[k]) IN Event("sei", 1, IF k % 2 = 0 THEN b ELSE Escape(b), << 1 - (k % 2) >>)
BigRtpEvent(s, k) ==
  LET z == << 255, 256, 32767, 32768, 40000, 65533, 65534, 65535 >>[k]
      BU == TypeUnit(<< 41, 1, 39, 35 >>[1 + (k % 4)], 0, Filler(z - 2, k))
  IN CASE s = 1 -> Event("rtp", 1, ApOf(<< HSpsA, BU, HPpsA, HSliceB >>), << k % 2 >>)
       [] s = 2 -> Event("rtp", 1, ApOf(<< HSpsA, HPpsA, HSliceB \o Filler(z - Len(HSliceB), k), HSpsC >>), << 0 >>)
       [] s = 3 -> IF k <= 4 THEN Event("rtp", 1, (<< HSpsA, HPpsA, HSliceB, HSliceA >>)[k], << 0 >>)
                   ELSE IF k = 5 THEN Event("rtp", 1, HSliceB \o Filler(70000, 1), << 0 >>)
                   ELSE IF k = 6 THEN Event("rtp", 1, << 98, 1, 129 >> \o SubSeq(HSliceB, 3, Len(HSliceB)) \o Filler(70000, 1), << 0 >>)
                   ELSE IF k = 7 THEN Event("rtp", 1, << 98, 1, 1 >> \o Filler(70000, 1), << 0 >>)
                   ELSE Event("rtp", 1, ApOf([j \in 1..1000 |-> IF j = 999 THEN HSpsB ELSE AudE]), << 0 >>)
BigBoxEvent(s, k) ==
  LET z == << 255, 256, 32767, 32768, 40000, 65535 >>[k]
      BU == TypeUnit(<< 39, 1, 41, 35 >>[1 + (k % 4)], 0, Filler(z - 2, k))
      b == CASE s = 1 -> BoxOf(<< 33, 39, 34 >>, << << HSpsA >>, << BU, AudE >>, << HPpsA, HPpsC >> >>)
             [] s = 2 -> BoxOf(<< 35, 33 >>, << [j \in 1..(200 + 50 * k) |-> AudE], << HSpsA >> >>)
             [] s = 3 -> BoxOf([j \in 1..Min2(255, 100 * k) |-> IF j = 90 THEN 33 ELSE j % 64],
                               [j \in 1..Min2(255, 100 * k) |-> IF j = 90 THEN << HSpsA >> ELSE IF j = 95 THEN << HPpsA, HPpsB >> ELSE <<>>])
  IN Event("hvcc", 1, b, << k % 2, k % 3 >>)
BigBitsEvent(s, k) ==
  LET n == << 8191, 8192, 8193, 65535, 65536, 65537, 70000, 70001 >>[k]
      at == << 8 * n - 70, 8 * n - 64, 65536, 65535, 524280, 8 * n - 33, 8 * n, 8 * n - 1 >>[1 + ((k + s) % 8)]
      b == Filler(n - 12, k) \o RndBytes(k + s, 12)
      z == [i \in 1..n |-> IF i = n THEN 128 ELSE 0]
  IN CASE s = 1 -> Event("bits", 1, b, << 13, at, 19, 0, 17, 0, 3, 0, 4, 0, 1, 13, 19, 0, 7, 33, 14, 0, 1, 32 >>)
       [] s = 2 -> Event("bits", 1, b, << 12, 8190, 1, 8, 11, 65536, 17, 0, 16, 0, 12, at \div 8, 2, 33, 19, 0, 3, 0, 15, 0 >>)
       [] s = 3 -> Event("bits", 1, z, << 14, 0, 15, 0, 3, 0, 11, 8 * n - 9, 14, 0, 15, 0, 1, 1, 14, 0, 15, 0, 19, 0 >>)
       [] s = 4 -> Event("wbits", 1, b, << 8, 0, 0, at, 1, 5, 9, 40, 2, 0, 77, 0, 7, 0, 123456789, 0, 3, 0, -5, 0, 9, 0, 0, 9 >>)
BigEscEvent(s, k) ==
  LET n == << 8191, 65534, 65535, 65536, 65537, 70000, 100000, 131073 >>[k]
      b == CASE s = 1 -> [i \in 1..n |-> << 0, 0, 3, 1, 0, 0, 0, 2 >>[1 + (H(k, i) % 8)]]
             [] s = 2 -> Filler(n, k) \o << 0, 0, 3, 1, 0, 0, 3 >>
             [] s = 3 -> [i \in 1..n |-> << 0, 0, 3 >>[1 + ((i - 1) % 3)]]
  IN Event("unescape", 1, b, <<>>)

\* thousands of units in one call
(* everything that is found in bytes, around multiples of a size they might be *)
(* taken in: session s a size, step k a place and what is there                *)
EdgeSizes == << 8, 16, 24, 32, 48, 64, 100, 128, 256, 512, 1000, 1024, 1500, 2048, 4096, 8192, 16384, 32768, 65536 >>
EdgeFill(n, v) ==
  CASE v = 0 -> Filler(n, 5)
    [] v = 1 -> [i \in 1..n |-> << 0, 1 >>[1 + (i % 2)]]
    [] v = 2 -> [i \in 1..n |-> << 1, 255, 3, 2 >>[1 + (i % 4)]]
\* q at every multiple of z (up to n times), o bytes further
Placed(q, z, o, n, v) ==
  Flatten([j \in 1..n |-> LET w == (IF j = 1 THEN z + o ELSE z - Len(q)) IN EdgeFill(w, v) \o q])
EdgeEvent(s, k) ==
  LET z == EdgeSizes[s]
      o == ((k - 1) % 11) - 6
      n == IF z <= 64 THEN 12 ELSE IF z <= 4096 THEN 3 ELSE 1
      v == (s + k) % 3
      sc == IF (k \div 11) % 2 = 0 THEN << 0, 0, 1, 82, 1 >> ELSE << 0, 0, 0, 1, 70, 1 >>
      body(m) == TypeUnit(41, 0, EdgeFill(m, v))
  IN CASE k <= 11 -> Event("find", 1, Placed(sc, z, o, n, v) \o << 80 >>, <<>>)
       [] k <= 22 -> Event("stream", 1, << 0, 0, 1, 82, 1 >> \o Tail(Tail(Tail(Tail(Tail(Placed(sc, z, o, n, v)))))) \o << 80 >>, << 1, 0 >>)
       [] k <= 33 -> Event("unescape", 1, Placed(IF k % 2 = 0 THEN << 0, 0, 3 >> ELSE << 0, 0, 3, 0, 0, 3 >>, z, o, n, v) \o (IF k % 3 = 0 THEN <<>> ELSE << 1 >>), <<>>)
       [] k <= 44 -> Event("nalu", 1, << 82, 1 >> \o Tail(Tail(Placed(<< 0, 0, 3 >>, z, o, n, v))), << 1 >>)
       [] k <= 55 -> LET m == IF k % 2 = 0 \/ z > 60000 THEN 4 ELSE 2
                         us == << body(Max2(0, z + o - m - 2)), body(Max2(0, z - m - 2)), AudE, HSpsA >>
                     IN Event("lenstream", 1, PrefixedBy(us, m), << 1, 0, m >>)
       [] OTHER -> LET m == Max2(0, Min2(65535, z + o) - 2) IN
                   CASE k % 3 = 0 -> Event("rtp", 1, ApOf(<< body(m), AudE, HSpsA >>), << 0 >>)
                     [] k % 3 = 1 -> Event("hvcc", 1, BoxOf(<< 41, 33 >>, << << body(m), AudE >>, << HSpsA >> >>), << 1, 0 >>)
                     [] k % 3 = 2 -> Event("naluu", 1, body(z + o), << 1 >>)

(* every id a set can have, all there at once; slices under each               *)
IdSps(i, x) == SpsOf(i, 300 + x, <<>>)
IdPps(i, j, x) == PpsOf(i, j, 400 + x, <<>>)
PpsHigh == << 64, 65, 127, 128, 255, 256, 300, 65535, 65536, 1000000 >>
IdEvent(s, k) ==
  LET x == 17 * s
      pid(i) == IF i < 64 THEN i ELSE PpsHigh[i - 63]
      sps == [i \in 1..16 |-> IdSps(i - 1, x + i)]
      pps == [i \in 1..74 |-> IdPps(pid(i - 1), i % 16, x + i)]
      vps == [i \in 1..16 |-> VpsOf(i - 1, x + i)]
      sl(i) == SliceIn(<< sps[1 + (i % 16)], pps[i] >>, << 1, 19, 0, 21 >>[1 + ((s + i) % 4)], pid(i - 1), x + i)
      some(f, m) == [j \in 1..m |-> sl(f + j)]
  IN CASE k = 1 -> Event("stream", 1, Annexb(vps \o sps \o pps), << 0, 0 >>)
       [] k \in {2, 3, 4, 5} -> Event("stream", 1, Annexb(some((k - 2) * 18, 18)), << 0, 0 >>)
       [] k = 6 -> Event("qp", 1, Annexb(some(56, 18)), <<>>)
       [] k = 7 -> Event("stream", 1, Annexb([j \in 1..4 |-> IdSps(4 * j - 4, x + j + 50)] \o << IdPps(pid(70), 3, x + 99), IdPps(5, 9, x + 98), VpsOf(15, x + 97) >>), << 0, 0 >>)
       [] k = 8 -> Event("stream", 1, Annexb(some(60, 14) \o some(0, 8)), << 0, 0 >>)
       [] k \in 9..11 -> Event("get", 1, <<>>, << k - 9, << 15, 15, 1000000 >>[k - 8] >>)
       [] k = 12 -> Event("get", 1, <<>>, << 2, 63 >>)
       [] k = 13 -> Event("get", 1, <<>>, << 1, 16 >>)
       [] k = 14 -> Event("stream", 1, Annexb(some(30, 10)), << 0, 0 >>)

(* files and standard input of sizes around the portions they may be read in  *)
Cut(d, k) == SubSeq(d, 1, k)
CliSizes == << 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65535, 65536, 65537, 131072 >>
CliEvent(s, k) ==
  LET us == << HSpsA, HPpsA, HSliceB, AudE >>
      n == CliSizes[s]
      pre == IF k = 2 THEN 2 ELSE 4
      fit(d) == TypeUnit(41, 0, Filler(n - Len(d) - pre - 2, s))    \* what makes it n bytes in all
      ann == Annexb(us)
      a == IF k = 2 /\ n > 65535 THEN PrefixedBy(us, 2) ELSE IF k = 2 THEN PrefixedBy(us \o << fit(PrefixedBy(us, 2)) >>, 2)
           ELSE ann \o << 0, 0, 0, 1 >> \o fit(ann)
      box == BoxOf(<< 33, 34, 39 >>, << << HSpsA >>, << HPpsA >>, << TypeUnit(39, 0, Filler(Min2(n, 65000), 3)) >> >>)
  IN CASE k = 1 -> Event("cli", 1, a, << 3, 22, 2, 5 >>)
       [] k = 2 -> Event("cli", 1, a, << 3, 22, 102, 2 >>)
       [] k = 3 -> Event("cli", 1, a, << 5, 21, 5, 7, 11, 4 >>)
       [] k = 4 -> Event("cli", 1, Cut(a, Len(a) - 1), << 4, 22, 7, 9, 11 >>)
       [] k = 5 -> Event("cli", 1, ann, << 4, 21, 23, 7, 11 >> \o box)
       [] k = 6 -> Event("cli", 1, IF n < 10000 THEN a ELSE ann, << 3, 22, 15, 7 >>)

ManyEvent(s, k) ==
  LET n == << 9000, 3060, 2400 >>[k]
      U1(j) == << AudE, << 78, 1, 128 >>, << 2, 1, 64 >>, << 82, 1, 128 >> >>[1 + (j % 4)]
      us == [j \in 1..n |-> IF j = 7 THEN HSpsA ELSE IF j = n - 9 THEN HPpsA ELSE IF j = n - 2 THEN HSliceB
                            ELSE IF k = 1 THEN AudE
                            ELSE IF k = 3 /\ j < 1200 THEN PpsOf(j + 63, 0, 21, <<>>) ELSE U1(j)]
  IN CASE s = 1 -> Event("stream", 1, Annexb(us), << 0, 0 >>)
       [] s = 2 -> Event("lenstream", 1, PrefixedBy(us, << 2, 1, 2 >>[k]), << 0, 0, << 2, 1, 2 >>[k] >>)
       [] s = 3 -> Event("rtp", 1, ApOf(us), << 0 >>)
       [] s = 4 -> Event("hvcc", 1, IF k # 2 THEN BoxOf(<< 35, 34 >>, << us, << HPpsA >> >>)
                                    ELSE BoxOf([j \in 1..255 |-> 1 + (j % 60)], [j \in 1..255 |-> SubSeq(us, 12 * j - 11, 12 * j)]), << 0, 0 >>)
       [] s = 5 -> Event("findx", 1, PrefixedBy(us, 4), <<>>)
       [] s = 6 -> Event("find", 1, Annexb(us), <<>>)

\* long lists of entry points: ten rows of numbers, some to be dumped
RowNums == << 0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 439, 440, 441, 511, 512, 513, 514 >>
RowLens == << 0, 7, 15, 31, 30 >>
RowEvent(s, k, store) ==
  IF k = 1 THEN
    LET h == << 8192, 8208, 64 >>[1 + (s % 3)]
        q == << Is("pic_height_in_luma_samples", h), Is("log2_min_luma_coding_block_size_minus3", 0), Is("log2_diff_max_min_luma_coding_block_size", 1),
                Is("num_short_term_ref_pic_sets", 1), Is("sps_seq_parameter_set_id", 0) >>
        sp == Esc(33, SpsG(GenState(11, 0, Force(PlainSps \o q), SpsD)))
        pp == Esc(34, PpsG(GenState(21, 0, Force(PlainPps \o << Is("entropy_coding_sync_enabled_flag", 1), Is("init_qp_minus26", 3), Is("num_extra_slice_header_bits", 0),
                Is("pps_pic_parameter_set_id", 0), Is("pps_seq_parameter_set_id", 0) >>), PpsD)))
    IN Event("stream", 1, Annexb(<< sp, pp >>), << 0, 0 >>)
  ELSE
    LET n == RowNums[1 + ((s * 3 + (k - 2)) % Len(RowNums))]
        f == PlainSlice \o << Is("slice_pic_parameter_set_id", 0), Is("num_entry_point_offsets", n),
                             Is("offset_len_minus1", RowLens[1 + ((s + k) % Len(RowLens))]) >>
        b == Escape(Hd(1) \o BitsToBytes(GenBits(SliceG(GenState(H(s, k), 0, Force(f), SliceD), 1, store.pps, store.sps)) \o <<1>>))
    IN CASE (k % 3) = 2 -> Event("dump", 1, Annexb(<< b >>), << 0, << -1, 0 >>[1 + (k % 2)], 4 >>)
         [] (k % 3) = 0 -> Event("nalu", 1, b, << 0 >>)
         [] OTHER -> Event("rtp", 1, ApOf(<< b, AudE >>), << 0 >>)

\* the number of entry points at its limit and around, in each of the four
\* contexts (tiles or not, rows of blocks in step or not), for grids of tiles and
\* heights of the picture
EntryPps(s, j) == PpsOf(j, 0, 21 + s, << Is("tiles_enabled_flag", j % 2), Is("entropy_coding_sync_enabled_flag", j \div 2),
  Is("num_tile_columns_minus1", s % 4), Is("num_tile_rows_minus1", (s \div 4) % 3), Is("num_extra_slice_header_bits", 0) >>)
EntryEvent(s, k, store) ==
  IF k = 1 THEN
    Event("stream", 1, Annexb(<< SpsOf(0, 11 + s, << Is("pic_height_in_luma_samples", << 64, 72, 200, 8, 16 >>[1 + (s % 5)]),
      Is("log2_diff_max_min_luma_coding_block_size", << 1, 3, 2 >>[1 + (s % 3)]),
      Is("num_short_term_ref_pic_sets", 1) >>) >> \o [j \in 1..4 |-> EntryPps(s, j - 1)]), << 0, 0 >>)
  ELSE
    LET j == (k - 2) % 4
        ok == 0 \in DOMAIN store.sps /\ j \in DOMAIN store.pps
        m == IF ok THEN MaxEntryPoints(store.sps[0], store.pps[j]) ELSE 0
        n == << m, m + 1, m + 2, Max2(m - 1, 0), 1, 0 >>[1 + (((k - 2) \div 4) % 6)]
        f == PlainSlice \o << Is("slice_pic_parameter_set_id", j), Is("num_entry_point_offsets", n), Is("offset_len_minus1", (s + k) % 32) >>
        b == Hd(1) \o BitsToBytes(GenBits(SliceG(GenState(H(s, k), 0, Force(f), SliceD), 1, store.pps, store.sps)) \o <<1>>)
    IN Event("naluu", 1, b, << 0 >>)

(* --------------------------------------------------- elements at their limits *)
(* every limited element of every structure, at its lowest and highest value   *)
(* and just beyond: session s aims at the limited element number at, step k    *)
(* chooses how, and which occurrence                                           *)
LimKinds(p) ==
  CASE p = "l_vps" -> << "vps" >>
    [] p = "l_sps" -> << "sps", "s_sps" >>
    [] p = "l_hrd" -> << "s_vui", "s_hrd", "s_slhrd" >>
    [] p = "l_pps" -> << "pps", "s_pps" >>
    [] p = "l_ext" -> << "s_scaling", "s_spsscc", "s_ppsml", "s_ppsscc", "s_sps3d", "s_spsrange", "s_spsml", "s_ptl" >>
    [] p = "l_slice" -> << "slice", "s_pwt", "slice" >>
    [] p = "l_st" -> << "strps" >>
    [] p = "l_dump" -> << "slice", "sps", "pps", "vps", "slice" >>
StNum(r) == Of(r, 21, << 1, 2, 3, 4, 6 >>)
StMax(r) == Of(r, 22, << 15, 15, 16, 3, 1, 0 >>)
\* the state at the end of what is generated from r, and the bytes of it
LimMade(kind, store, r, at, how, occ) ==
  LET F == ForceFor(r, store)
      g(D) == AtLimit(GenState(H(r, 62), 0, F, D), at, how, occ)
  IN CASE kind = "vps" -> VpsG(g(VpsD))
       [] kind = "sps" -> SpsG(g(SpsD))
       [] kind = "pps" -> PpsG(g(PpsD))
       [] kind = "slice" -> SliceG(g(SliceD), TypeOf(kind, r), store.pps, store.sps)
       [] kind = "strps" -> StGen(AtLimit(GenState(H(r, 62), 0, NoForce, StRpsD), at, how, occ), 0, StNum(r), StMax(r), <<>>)
       [] OTHER -> StructG(kind, g(StructD(kind)), StructArgs(kind, r), store)
\* the first of a few in which the element is met, the first otherwise
LimR(kind, store, r, at, how, occ) ==
  LET hit == SelectSeq(<< r, H(r, 801), H(r, 802), H(r, 803) >>, LAMBDA z : LimHit(LimMade(kind, store, z, at, how, occ)))
  IN IF hit = <<>> THEN r ELSE hit[1]
LimEvent(p, s, k, store) ==
  LET ks == LimKinds(p)
      kind == ks[1 + (s % Len(ks))]
      at == 1 + (s \div Len(ks))
      how == 1 + (k % 5)
      occ == << 1, 1, 2, 5, 1, 3 >>[1 + ((k \div 5) % 6)]
      r == LimR(kind, store, H(Seed((s * 64) + (k \div 5)), (Cfg.seed % 9000) + 3), at, how, occ)
      g == LimMade(kind, store, r, at, how, occ)
      unit == Hd(TypeOf(kind, r)) \o (IF kind = "slice" THEN BitsToBytes(GenBits(g) \o <<1>>) ELSE GenBytes(g))
  IN CASE kind = "strps" -> Event("strps", 1, GenBytes(g) \o << 128 >>, << 0, StNum(r), StMax(r) >>)
       [] p = "l_dump" -> Event("dump", 1, Annexb(<< unit >>), << 0, << -1, 0 >>[1 + (r % 2)], 4 >>)
       [] kind \in {"vps", "sps", "pps", "slice"} -> Event("naluu", 1, unit, << 1 >>)
       [] OTHER -> Event(kind, 1, GenBytes(g) \o << 85, 128 >>, << 1 >> \o StructArgs(kind, r))

(* every element of 9 bits and more of each structure, by name, at the extremes *)
(* of the word: session s aims at one name, step k chooses the extreme and the  *)
(* occurrence                                                                   *)
WideProfiles == { "w_vps", "w_sps", "w_hrd", "w_pps", "w_ext", "w_slice", "w_st", "w_sei", "w_dump" }
RECURSIVE WideOf(_)
WideOf(p) ==
  CASE p = "w_vps" -> << << "vps", "vps_reserved_0xffff_16bits" >>, << "vps", "vps_max_dec_pic_buffering_minus1" >>, << "vps",
       "vps_max_num_reorder_pics" >>, << "vps", "vps_max_latency_increase_plus1" >>, << "vps",
       "vps_num_units_in_tick" >>, << "vps", "vps_time_scale" >>, << "vps",
       "vps_num_ticks_poc_diff_one_minus1" >>, << "vps", "hrd_layer_set_idx" >>, << "vps",
       "bit_rate_value_minus1" >>, << "vps", "cpb_size_value_minus1" >>, << "vps", "cpb_size_du_value_minus1"
       >>, << "vps", "bit_rate_du_value_minus1" >>, << "vps", "elemental_duration_in_tc_minus1" >> >>
    [] p = "w_sps" -> << << "sps", "pic_width_in_luma_samples" >>, << "sps", "pic_height_in_luma_samples" >>, << "sps",
       "conf_win_left_offset" >>, << "sps", "conf_win_right_offset" >>, << "sps", "conf_win_top_offset" >>, <<
       "sps", "conf_win_bottom_offset" >>, << "sps", "sps_max_dec_pic_buffering_minus1" >>, << "sps",
       "sps_max_num_reorder_pics" >>, << "sps", "sps_max_latency_increase_plus1" >>, << "sps",
       "log2_diff_max_min_luma_transform_block_size" >>, << "sps", "log2_diff_max_min_luma_coding_block_size"
       >>, << "sps", "max_transform_hierarchy_depth_inter" >>, << "sps", "max_transform_hierarchy_depth_intra"
       >>, << "sps", "log2_min_pcm_luma_coding_block_size_minus3" >>, << "sps",
       "log2_diff_max_min_pcm_luma_coding_block_size" >>, << "sps", "lt_ref_pic_poc_lsb_sps" >>, << "sps",
       "delta_poc_s0_minus1" >>, << "sps", "delta_poc_s1_minus1" >>, << "sps", "abs_delta_rps_minus1" >>, <<
       "sps", "log2_ivmc_sub_pb_size_minus3" >>, << "sps", "log2_texmc_sub_pb_size_minus3" >>, << "sps",
       "palette_max_size" >>, << "sps", "delta_palette_max_predictor_size" >> >>
    [] p = "w_hrd" -> << << "s_vui", "sar_width" >>, << "s_vui", "sar_height" >>, << "s_vui", "chroma_sample_loc_type_top_field" >>,
       << "s_vui", "chroma_sample_loc_type_bottom_field" >>, << "s_vui", "def_disp_win_left_offset" >>, <<
       "s_vui", "def_disp_win_right_offset" >>, << "s_vui", "def_disp_win_top_offset" >>, << "s_vui",
       "def_disp_win_bottom_offset" >>, << "s_vui", "vui_num_units_in_tick" >>, << "s_vui", "vui_time_scale"
       >>, << "s_vui", "vui_num_ticks_poc_diff_one_minus1" >>, << "s_vui", "min_spatial_segmentation_idc" >>,
       << "s_vui", "max_bytes_per_pic_denom" >>, << "s_vui", "max_bits_per_min_cu_denom" >>, << "s_vui",
       "log2_max_mv_length_horizontal" >>, << "s_vui", "log2_max_mv_length_vertical" >>, << "s_hrd",
       "elemental_duration_in_tc_minus1" >>, << "s_hrd", "bit_rate_value_minus1" >>, << "s_hrd",
       "cpb_size_value_minus1" >>, << "s_hrd", "cpb_size_du_value_minus1" >>, << "s_hrd",
       "bit_rate_du_value_minus1" >>, << "s_slhrd", "bit_rate_value_minus1" >>, << "s_slhrd",
       "cpb_size_value_minus1" >>, << "s_slhrd", "cpb_size_du_value_minus1" >>, << "s_slhrd",
       "bit_rate_du_value_minus1" >> >>
    [] p = "w_pps" -> << << "pps", "num_ref_idx_l0_default_active_minus1" >>, << "pps", "num_ref_idx_l1_default_active_minus1" >>,
       << "pps", "init_qp_minus26" >>, << "pps", "diff_cu_qp_delta_depth" >>, << "pps", "pps_cb_qp_offset" >>,
       << "pps", "pps_cr_qp_offset" >>, << "pps", "column_width_minus1" >>, << "pps", "row_height_minus1" >>,
       << "pps", "pps_beta_offset_div2" >>, << "pps", "pps_tc_offset_div2" >>, << "pps",
       "log2_parallel_merge_level_minus2" >>, << "pps",
       "scaled_ref_layer_left_offset" >>, << "pps", "ref_region_right_offset" >>, << "pps",
       "pps_act_y_qp_offset_plus5" >>, << "pps", "pps_act_cr_qp_offset_plus3" >> >>
    [] p = "w_ext" -> << << "s_ppsml", "scaled_ref_layer_left_offset" >>, << "s_ppsml", "scaled_ref_layer_top_offset" >>, <<
       "s_ppsml", "scaled_ref_layer_right_offset" >>, << "s_ppsml", "scaled_ref_layer_bottom_offset" >>, <<
       "s_ppsml", "ref_region_left_offset" >>, << "s_ppsml", "ref_region_top_offset" >>, << "s_ppsml",
       "ref_region_right_offset" >>, << "s_ppsml", "ref_region_bottom_offset" >>, << "s_ppsml",
       "phase_hor_luma" >>, << "s_ppsml", "phase_ver_luma" >>, << "s_ppsml", "phase_hor_chroma_plus8" >>, <<
       "s_ppsml", "phase_ver_chroma_plus8" >>, << "s_ppsscc", "pps_act_y_qp_offset_plus5" >>, << "s_ppsscc",
       "pps_act_cb_qp_offset_plus5" >>, << "s_ppsscc", "pps_act_cr_qp_offset_plus3" >>, << "s_sps3d",
       "log2_ivmc_sub_pb_size_minus3" >>, << "s_sps3d", "log2_texmc_sub_pb_size_minus3" >>, << "s_spsscc", "palette_max_size" >>, << "s_spsscc",
       "delta_palette_max_predictor_size" >>, << "s_scaling", "pred_matrix_id_delta" >>, << "s_scaling",
       "dc_coef_minus8" >>, << "s_scaling", "scaling_list_delta_coef" >> >>
    [] p = "w_slice" -> << << "slice", "slice_pic_parameter_set_id" >>, << "slice", "slice_type" >>, << "slice",
       "slice_segment_address" >>, << "slice", "slice_pic_order_cnt_lsb" >>, << "slice", "delta_idx_minus1"
       >>, << "slice", "abs_delta_rps_minus1" >>, << "slice", "delta_poc_s0_minus1" >>, << "slice",
       "delta_poc_s1_minus1" >>, << "slice", "poc_lsb_lt" >>, << "slice", "delta_poc_msb_cycle_lt" >>, <<
       "slice", "num_ref_idx_l0_active_minus1" >>, << "slice", "num_ref_idx_l1_active_minus1" >>, << "slice",
       "collocated_ref_idx" >>, << "slice", "luma_log2_weight_denom" >>, << "slice",
       "delta_chroma_log2_weight_denom" >>, << "slice", "delta_luma_weight_l0" >>, << "slice",
       "luma_offset_l0" >>, << "slice", "chroma_weight" >>, << "slice", "chroma_offset" >>, << "slice",
       "five_minus_max_num_merge_cand" >>, << "slice", "slice_qp_delta" >>, << "slice", "slice_cb_qp_offset"
       >>, << "slice", "slice_cr_qp_offset" >>, << "slice", "slice_act_y_qp_offset" >>, << "slice",
       "slice_act_cb_qp_offset" >>, << "slice", "slice_act_cr_qp_offset" >>, << "slice",
       "slice_beta_offset_div2" >>, << "slice", "slice_tc_offset_div2" >>, << "s_pwt", "luma_log2_weight_denom" >>, << "s_pwt",
       "delta_chroma_log2_weight_denom" >>, << "s_pwt", "delta_luma_weight_l0" >>, << "s_pwt",
       "luma_offset_l0" >>, << "s_pwt", "chroma_weight" >>, << "s_pwt", "chroma_offset" >> >>
    [] p = "w_st" -> << << "strps", "delta_idx_minus1" >>, << "strps", "abs_delta_rps_minus1" >>, << "strps", "delta_poc_s0_minus1"
       >>, << "strps", "delta_poc_s1_minus1" >> >>
    [] p = "w_sei" -> << << "sei165", "alpha_transparent_value" >>, << "sei165", "alpha_opaque_value" >>, << "sei137",
       "display_primaries_x" >>, << "sei137", "display_primaries_y" >>, << "sei137", "white_point_x" >>, <<
       "sei137", "white_point_y" >>, << "sei137", "max_display_mastering_luminance" >>, << "sei137",
       "min_display_mastering_luminance" >>, << "sei144", "max_content_light_level" >>, << "sei144",
       "max_pic_average_light_level" >>, << "sei141", "knee_function_id" >>, << "sei141", "input_d_range" >>,
       << "sei141", "input_disp_luminance" >>, << "sei141", "output_d_range" >>, << "sei141",
       "output_disp_luminance" >>, << "sei141", "input_knee_point" >>, << "sei141", "output_knee_point" >>, <<
       "sei142", "colour_remap_id" >>, << "sei142", "remap_coeff" >>, << "sei149", "ccv_min_luminance_value"
       >>, << "sei149", "ccv_max_luminance_value" >>, << "sei149", "ccv_avg_luminance_value" >>, << "sei148",
       "ambient_illuminance" >>, << "sei148", "ambient_light_x" >>, << "sei148", "ambient_light_y" >> >>
    [] p = "w_dump" -> WideOf("w_vps") \o WideOf("w_sps") \o WideOf("w_pps") \o SubSeq(WideOf("w_slice"), 1, 28)
SeiNumber == [sei4 |-> 4, sei5 |-> 5, sei147 |-> 147, sei165 |-> 165, sei137 |-> 137, sei144 |-> 144, sei141 |-> 141, sei142 |-> 142, sei149 |-> 149, sei148 |-> 148]
\* parameter sets with which a slice can have anything
WideSets ==
  LET more == << Is("long_term_ref_pics_present_flag", 1), Is("sps_temporal_mvp_enabled_flag", 1), Is("sample_adaptive_offset_enabled_flag", 1),
                 Is("num_short_term_ref_pic_sets", 3), Is("log2_max_pic_order_cnt_lsb_minus4", 12) >>
      ext == << Is("lists_modification_present_flag", 0), Is("num_extra_slice_header_bits", 2) >>
  IN << SpsOf(0, 11, more),
        PpsOf(0, 0, 21, ext \o << Is("weighted_pred_flag", 1), Is("weighted_bipred_flag", 1), Is("cabac_init_present_flag", 1) >>),
        PpsOf(1, 0, 22, ext \o << Is("deblocking_filter_control_present_flag", 1), Is("deblocking_filter_override_enabled_flag", 1),
          Is("pps_slice_chroma_qp_offsets_present_flag", 1), Is("pps_extension_present_flag", 1), Is("pps_range_extension_flag", 0),
          Is("pps_multilayer_extension_flag", 0), Is("pps_3d_extension_flag", 0), Is("pps_scc_extension_flag", 1), Is("pps_extension_4bits", 0),
          Is("pps_slice_act_qp_offsets_present_flag", 1) >>),
        PpsOf(2, 0, 23, ext \o << Is("tiles_enabled_flag", 1), Is("entropy_coding_sync_enabled_flag", 1), Is("num_tile_columns_minus1", 3),
          Is("output_flag_present_flag", 1), Is("dependent_slice_segments_enabled_flag", 1), Is("slice_segment_header_extension_present_flag", 1) >>) >>
WideMade(kind, store, r, nm, how, occ) ==
  LET F == ForceFor(r, store)
      g(D) == AtExtreme(GenState(H(r, 62), 0, F, D), nm, how, occ)
  IN CASE kind = "vps" -> VpsG(g(VpsD))
       [] kind = "sps" -> SpsG(g(SpsD))
       [] kind = "pps" -> PpsG(g(PpsD))
       [] kind = "slice" -> SliceG(g(SliceD), TypeOf(kind, r), store.pps, store.sps)
       [] kind \in DOMAIN SeiNumber -> SeiPayloadG(g(SeiPayloadD(SeiNumber[kind])), SeiNumber[kind], 40)
       [] kind = "strps" -> StGen(AtExtreme(GenState(H(r, 62), 0, NoForce, StRpsD), nm, how, occ), 0, StNum(r), StMax(r), <<>>)
       [] OTHER -> StructG(kind, g(StructD(kind)), StructArgs(kind, r), store)
RECURSIVE WideR(_, _, _, _, _, _, _)
WideR(kind, store, r, nm, how, occ, left) ==
  IF left = 0 \/ LimHit(WideMade(kind, store, r, nm, how, occ)) THEN r
  ELSE WideR(kind, store, H(r, 801), nm, how, occ, left - 1)
WideEvent(p, s, k, store) ==
  LET ks == WideOf(p)
      kind == ks[1 + (s % Len(ks))][1]
      nm == ks[1 + (s % Len(ks))][2]
      how == 11 + (k % 5)
      occ == IF k < 5 THEN 1 ELSE 2
      r == WideR(kind, store, H(Seed((s * 64) + k), (Cfg.seed % 9000) + 5), nm, how, occ, 20)
      g == WideMade(kind, store, r, nm, how, occ)
      unit == Hd(TypeOf(kind, r)) \o (IF kind = "slice" THEN BitsToBytes(GenBits(g) \o <<1>>) ELSE GenBytes(g))
  IN CASE kind = "strps" -> Event("strps", 1, GenBytes(g) \o << 128 >>, << 0, StNum(r), StMax(r) >>)
       [] kind \in DOMAIN SeiNumber ->
            LET b == FFCode(SeiNumber[kind]) \o FFCode(Len(GenBytes(g))) \o GenBytes(g) \o << 128 >>
            IN IF k % 2 = 0 THEN Event("sei", 1, b, << 1 >>) ELSE Event("dump", 1, Annexb(<< << 78, 1 >> \o Escape(b) >>), << 0, -1, 4 >>)
       [] p = "w_dump" -> Event("dump", 1, Annexb(<< unit >>), << 0, << -1, 0 >>[1 + (r % 2)], 4 >>)
       [] kind \in {"vps", "sps", "pps", "slice"} -> Event("naluu", 1, unit, << 1 >>)
       [] OTHER -> Event(kind, 1, GenBytes(g) \o << 85, 128 >>, << 1 >> \o StructArgs(kind, r))

(* --------------------- every value of the elements of few bits, all at once *)
SweepProfiles == { "v_vps", "v_sps", "v_hrd", "v_pps", "v_ext", "v_slice", "v_sei", "v_ptl", "v_dump" }
SweepKinds(p) ==
  CASE p = "v_vps" -> << "vps" >> [] p = "v_sps" -> << "sps" >> [] p = "v_pps" -> << "pps" >>
    [] p = "v_hrd" -> << "s_vui", "s_hrd" >>
    [] p = "v_ext" -> << "s_spsscc", "s_sps3d", "s_ppsscc", "s_ppsml", "s_spsml", "s_spsrange" >>
    [] p = "v_slice" -> << "slice", "s_slice", "s_pwt" >>
    [] p = "v_sei" -> << "sei142", "sei141", "sei149", "sei165", "sei4", "sei147", "sei5" >>
    [] p = "v_ptl" -> << "s_ptl", "s_profinfo" >>
    [] p = "v_dump" -> << "sps", "pps", "vps", "slice", "sei142", "sei141" >>
SweepMade(kind, store, r, x) ==
  LET F == IF kind = "sei142" /\ x > 32 THEN ("colour_remap_input_bit_depth" :> << 8, 10 >>) @@ ("colour_remap_output_bit_depth" :> << 12, 16 >>)
           ELSE ForceFor(r, store)
      g(D) == Sweep(GenState(H(r, 62), 0, F, D), x)
  IN CASE kind = "vps" -> VpsG(g(VpsD))
       [] kind = "sps" -> SpsG(g(SpsD))
       [] kind = "pps" -> PpsG(g(PpsD))
       [] kind = "slice" -> SliceG(g(SliceD), TypeOf(kind, r), store.pps, store.sps)
       [] kind \in DOMAIN SeiNumber -> SeiPayloadG(g(SeiPayloadD(SeiNumber[kind])), SeiNumber[kind], 40)
       [] OTHER -> StructG(kind, g(StructD(kind)), StructArgs(kind, r), store)
SweepEvent(p, y, store) ==
  LET ks == SweepKinds(p)
      kind == ks[1 + (y % Len(ks))]
      x == ((y \div Len(ks)) + 37 * (Cfg.seed % 9000)) % 256
      r == H(Seed(y + 5000), (Cfg.seed % 9000) + 3)
      g == SweepMade(kind, store, r, x)
      unit == Hd(TypeOf(kind, r)) \o (IF kind = "slice" THEN BitsToBytes(GenBits(g) \o <<1>>) ELSE GenBytes(g))
  IN CASE kind \in DOMAIN SeiNumber ->
            LET b == FFCode(SeiNumber[kind]) \o FFCode(Len(GenBytes(g))) \o GenBytes(g) \o << 128 >>
            IN IF p # "v_dump" THEN Event("sei", 1, b, << 1 >>) ELSE Event("dump", 1, Annexb(<< << 78, 1 >> \o Escape(b) >>), << 0, -1, 4 >>)
       [] p = "v_dump" -> Event("dump", 1, Annexb(<< unit >>), << 0, << -1, 0 >>[1 + (r % 2)], 4 >>)
       [] kind \in {"vps", "sps", "pps", "slice"} -> Event("naluu", 1, unit, << 1 >>)
       [] OTHER -> Event(kind, 1, GenBytes(g) \o << 85, 128 >>, << 1 >> \o StructArgs(kind, r))

(* ------------------- structures that end in, or turn after, each of their elements *)
(* up to an element (or into a row), as it should be; from there on zeros or    *)
(* ones, for the rest of the byte and 0 to 4 bytes more: what is coded there    *)
(* is out of data in the middle of it, or is no code at all, or runs away       *)
TailKinds(p) ==
  CASE p = "t_vps" -> << "vps" >> [] p = "t_sps" -> << "sps" >> [] p = "t_pps" -> << "pps" >>
    [] p = "t_hrd" -> << "s_vui", "s_hrd", "s_slhrd" >>
    [] p = "t_ext" -> << "s_spsscc", "s_sps3d", "s_ppsscc", "s_ppsml", "s_spsml", "s_spsrange", "s_scaling" >>
    [] p = "t_slice" -> << "slice", "s_slice", "slice", "s_pwt" >>
    [] p = "t_sei" -> << "sei142", "sei141", "sei149", "sei165", "sei4", "sei147", "sei137", "sei144" >>
    [] p = "t_ptl" -> << "s_ptl", "s_profinfo" >>
    [] p = "t_st" -> << "strps" >>
TailLen == 48
TailMade(kind, store, r) ==
  LET g(D) == GenState(H(r, 62), 0, ForceFor(r, store), D)
  IN CASE kind = "vps" -> VpsG(g(VpsD))
       [] kind = "sps" -> SpsG(g(SpsD))
       [] kind = "pps" -> PpsG(g(PpsD))
       [] kind = "slice" -> SliceG(g(SliceD), TypeOf(kind, r), store.pps, store.sps)
       [] kind \in DOMAIN SeiNumber -> SeiPayloadG(g(SeiPayloadD(SeiNumber[kind])), SeiNumber[kind], 40)
       [] kind = "strps" -> StGen(GenState(H(r, 62), 0, NoForce, StRpsD), 0, StNum(r), StMax(r), <<>>)
       [] OTHER -> StructG(kind, g(StructD(kind)), StructArgs(kind, r), store)
TailEvent(p, s, k, store) ==
  LET ks == TailKinds(p)
      kind == ks[1 + (s % Len(ks))]
      r == H(Seed(s + 7000), (Cfg.seed % 9000) + 11)
      z == H(r, 500 + k)
      out == TailMade(kind, store, r).g.out
      n == Len(out)
      j == IF n = 0 THEN 0 ELSE IF n <= TailLen THEN k % (n + 1) ELSE Min2(n, ((k * n) \div TailLen) + Below(z, 1, (n \div TailLen) + 1))
      \* into the next one, now and then
      part == IF j < n /\ Len(out[j + 1]) > 1 /\ Chance(z, 2, 3) THEN SubSeq(out[j + 1], 1, 1 + Below(z, 3, Len(out[j + 1]) - 1)) ELSE <<>>
      bs == Flatten(SubSeq(out, 1, j)) \o part
      m == ((8 - (Len(bs) % 8)) % 8) + 8 * << 0, 1, 0, 2, 4, 0, 3, 1 >>[1 + Below(z, 4, 8)]
      way == Below(z, 5, 4)
      b == BitsToBytes(bs \o [i \in 1..m |-> IF way <= 1 THEN 0 ELSE IF way = 2 THEN 1 ELSE IF i = m THEN 1 ELSE 0])
  IN CASE kind = "strps" -> Event("strps", 1, b, << 0, StNum(r), StMax(r) >>)
       [] kind \in DOMAIN SeiNumber -> Event("sei", 1, FFCode(SeiNumber[kind]) \o FFCode(Len(b)) \o b \o << 128 >>, << 1 >>)
       [] kind \in {"vps", "sps", "pps", "slice"} -> Event("naluu", 1, Hd(TypeOf(kind, r)) \o b, << 1 >>)
       [] OTHER -> Event(kind, 1, b, << 1 >> \o StructArgs(kind, r))

(* ------------------------------------- lengths and counts that are not true *)
(* prefixes of n bytes: one byte of the first or second one raised, and every  *)
(* prefix within 24 of wrapping around                                          *)
PrefixLen(s) == IF s = 9 THEN 56 ELSE 8 * s + 24
PrefixEvent(s, k) ==
  LET n == IF s = 9 THEN 4 ELSE s
      j == ((k - 1) \div 8) + 1
      v == << 1, 127, 128, 255 >>[1 + ((k - 1) % 4)]
      second == ((k - 1) \div 4) % 2 = 1
      true3 == [i \in 1..n |-> IF i = n THEN 3 ELSE 0]
      raised == [i \in 1..n |-> (true3[i] + (IF i = j THEN v ELSE 0)) % 256]
      wrap == [i \in 1..n |-> IF i = n THEN 256 - (k - 8 * n) ELSE 255]
      odd == IF k <= 8 * n THEN raised ELSE wrap
      b == (IF second THEN true3 \o AudE \o odd ELSE odd \o AudE \o true3) \o AudE \o true3 \o AudE
  IN IF s = 9 THEN Event("findx", 1, b, <<>>) ELSE Event("lenstream", 1, b, << k % 2, (k \div 2) % 2, n >>)
(* aggregation packets of s units: the last length changed by -3 to 3, and 0 to *)
(* 3 bytes more                                                                *)
ApEvent(s, k) ==
  LET us == << << AudE >>, << HSpsA, AudE >>, << HSpsA, HPpsA, HSliceB >>, << HSpsA, HPpsA, << 70, 1 >> >> >>[s]
      d == ((k - 1) % 7) - 3
      t == ((k - 1) \div 7) % 4
      x == << 0, 1, 255 >>[1 + ((s + k) % 3)]
      last == us[Len(us)]
      b == ApOf(SubSeq(us, 1, Len(us) - 1)) \o BytesOf(Max2(Len(last) + d, 0), 2) \o last \o [i \in 1..t |-> x]
  IN Event(IF k > 28 THEN "rtpap" ELSE "rtp", 1, b, << 0 >>)
(* configuration records: the number of arrays, the number of units of the last *)
(* array and the last length changed, and 0 to 3 bytes more                     *)
BoxEvent(s, k) ==
  LET uss == << << << HSpsA >>, << HPpsA >> >>, << << HSpsA, HSpsC >>, << HPpsA, AudE >> >>, << << HSpsA >>, << HPpsA >>, << AudE, AudE, AudE >> >> >>[1 + ((s - 1) % 3)]
      da == ((s - 1) \div 3) - 1
      du == ((k - 1) % 3) - 1
      dl == (((k - 1) \div 3) % 5) - 2
      t == ((k - 1) \div 15) % 4
      x == << 0, 1, 255 >>[1 + ((s + k) % 3)]
      n == Len(uss)
      final == uss[n]
      m == Len(final)
      arr(j, us, dn, dz) == << 128 + << 33, 34, 35 >>[j] >> \o BytesOf(Max2(Len(us) + dn, 0), 2) \o PrefixedBy(SubSeq(us, 1, Len(us) - 1), 2)
                            \o BytesOf(Len(us[Len(us)]) + dz, 2) \o us[Len(us)]
      b == BoxHead \o << n + da >> \o Flatten([j \in 1..n |-> arr(j, uss[j], IF j = n THEN du ELSE 0, IF j = n THEN dl ELSE 0)]) \o [i \in 1..t |-> x]
  IN Event("hvcc", 1, b, << k % 2, k % 3 >>)

(* ------------------------------------------------------------- the families *)
LimProfiles == { "l_vps", "l_sps", "l_hrd", "l_pps", "l_ext", "l_slice", "l_st", "l_dump" }
Batch == 64
EnumLen(p, s) ==
  CASE p \in {"e_find", "e_esc", "e_len", "e_sum"} -> Batch
    [] p = "e_hdr" -> 256
    [] p = "e_prefix" -> PrefixLen(s)
    [] p = "e_ap" -> 56
    [] p = "e_box" -> 60
    [] p = "e_pred" -> 2
    [] p = "e_profs" -> 8
    [] p = "e_hist" -> 5
    [] p = "e_ue" -> 16
    [] p = "e_fu" -> 16
    [] p = "e_st" -> Batch
    [] p = "e_aud" -> Batch
    [] p = "e_qp" -> Len(QpDelta)
    [] p = "e_dims" -> 25
    [] p = "e_vuifr" -> 1
    [] p = "e_types" -> 14
    [] p = "e_big_stream" -> 6
    [] p \in {"e_big_len", "e_big_sei"} -> 12
    [] p \in {"e_big_rtp", "e_big_bits", "e_big_esc"} -> 8
    [] p = "e_big_box" -> 6
    [] p = "e_many" -> 3
    [] p = "e_cli" -> 6
    [] p = "e_edges" -> 66
    [] p = "e_ids" -> 14
    [] p = "e_rows" -> 10
    [] p = "e_entry" -> 25
    [] p \in LimProfiles -> 31
    [] p \in WideProfiles -> 8
    [] p \in SweepProfiles -> 33
    [] p \in TailProfiles -> TailLen + 2
LenAlphabet == << 0, 1, 2, 3, 255 >>
EnumEvent(p, s, k, stores) ==
  LET x == (s - 1) * EnumLen(p, s) + k - 1 IN
  CASE p = "e_find" -> LET b == Str(x \div 2, 4) IN
                       IF x % 2 = 0 THEN Event("find", 1, b, <<>>)
                       ELSE Event("stream", 1, b, << 0, (x % 3) \div 2 >>)
    [] p = "e_esc"  -> Event("unescape", 1, Str(x, 5), <<>>)
    [] p = "e_len"  -> LET q == Str(x \div 3, 5)
                           b == [j \in 1..Len(q) |-> LenAlphabet[q[j] + 1]]
                       IN IF x % 3 = 0 THEN Event("findx", 1, b, <<>>)
                          ELSE Event("lenstream", 1, b, << 0, 0, x % 3 >>)
    [] p = "e_prefix" -> PrefixEvent(s, k)
    [] p = "e_ap" -> ApEvent(s, k)
    [] p = "e_box" -> BoxEvent(s, k)
    [] p = "e_hdr"  -> Event("s_hdr", 1, << s - 1, k - 1 >>, << 1 >>)
    [] p = "e_pred" -> IF k = 1 THEN Event("pred", 1, <<>>, [j \in 1..64 |-> j - 1])
                       ELSE Event("pname", 1, <<>>, [j \in 1..256 |-> j - 1])
    [] p = "e_profs" -> \* batches of 32 structures
         Event("profs", 1, Flatten([j \in 1..32 |->
            LET y == x * 32 + j - 1 IN
            IF y < 5 * 1024 THEN ProfBytes(<< 4, 5, 7, 9, 11 >>[1 + y \div 1024], << 4, 5, 7, 9, 11 >>[1 + y \div 1024], y % 1024)
            ELSE LET z == y - 5 * 1024 IN
                 ProfBytes(z % 32, (z \div 32) % 32, << 0, 2, 1023, 4, 170 >>[1 + ((z \div 1024) % 5)])]), <<>>)
    [] p = "e_hist" -> \* all histories of three units after one of three beginnings, then slices of each kind
         LET y == ((s - 1) * HistStride) % HistCount
             d == Digits(y % (HistK * HistK * HistK), HistK, 3)
         IN CASE k = 1 -> Event("stream", 1, Annexb(HistStart[1 + y \div (HistK * HistK * HistK)]), << 0, 0 >>)
              [] k = 5 -> Event("stream", 1, Annexb(HistEnd), << 0, 0 >>)
              [] OTHER -> HistOps(HistAlphabet[d[k - 1] + 1], s + k)
    [] p = "e_ue"   -> \* Exp-Golomb codes and the rest of two bytes
         LET v == (x * 131) % 65536
             b == << v \div 256, v % 256, (x * 7) % 256 >>
         IN Event("bits", 1, b, << << 3, 0, 4, 0, 14, 0, 15, 0 >>, << 4, 0, 3, 0, 1, 5 >>, << 11, 3, 3, 0, 3, 0 >>,
                                   << 1, 7, 4, 0, 14, 0 >>, << 5, 5, 5, 6, 5, 7, 5, 100 >>, << 13, 9, 15, 0, 16, 0, 17, 0 >> >>[1 + (x % 6)])
    [] p = "e_fu"   -> Event("rtpfu", 1, << 98, 1, (x % 256) >> \o SubSeq(RndBytes(x + 5, 6), 1, (x \div 256) % 7), << 1 >>)
    [] p = "e_st"   -> LET b == << x \div 256, x % 256 >> IN
         Event("strps", 1, b \o << 170, 85, 255 >>, << 0, << 0, 1, 2 >>[1 + (x % 3)], << 15, 1 >>[1 + (x % 2)] >>)
    [] p = "e_aud"  -> IF x < 256 THEN Event("s_aud", 1, << x >>, << 1 >>) ELSE Event("naluu", 1, << 70, 1 >> \o SubSeq(<< x % 256, (x * 3) % 256 >>, 1, (x \div 256) % 3), << 1 >>)
    [] p = "e_qp"   -> Event("qp", 1, QpUnit(QpInit[1 + ((s - 1) % Len(QpInit))], QpDelta[k]), <<>>)
    [] p = "e_dims" -> Event("naluu", 1, DimUnit((x * 37) % 2625), << 0 >>)
    [] p = "e_sum"  -> LET b == SumUnit(x) IN
                       IF x % 5 = 0 THEN Event("nalu", 1, Escape(b), << 1 >>) ELSE Event("naluu", 1, b, << 1 >>)
    [] p = "e_types" -> TypeEvent(s - 1, k)
    [] p = "e_big_stream" -> BigStreamEvent(s, k)
    [] p = "e_big_len" -> BigLenEvent(s, k)
    [] p = "e_big_sei" -> BigSeiEvent(s, k)
    [] p = "e_big_rtp" -> BigRtpEvent(s, k)
    [] p = "e_big_box" -> BigBoxEvent(s, k)
    [] p = "e_big_bits" -> BigBitsEvent(s, k)
    [] p = "e_big_esc" -> BigEscEvent(s, k)
    [] p = "e_many" -> ManyEvent(s, k)
    [] p = "e_cli" -> CliEvent(s, k)
    [] p = "e_edges" -> EdgeEvent(s, k)
    [] p = "e_ids" -> IdEvent(s, k)
    [] p = "e_entry" -> EntryEvent(s, k, stores[1])
    [] p = "e_rows" -> RowEvent(s, k, stores[1])
    [] p \in SweepProfiles ->
         IF k = 1 THEN IF p \in {"v_slice", "v_dump"} /\ s % 2 = 0 THEN Event("stream", 1, Annexb(WideSets), << 0, 0 >>)
                       ELSE Make(Step("stream", << "vps", "sps", "sps", "pps", "pps" >>, -1, 0), 1, stores[1], H(Seed(s), 23))
         ELSE SweepEvent(p, (s - 1) * 32 + k - 2, stores[1])
    [] p \in TailProfiles ->
         IF k = 1 THEN Event("stream", 1, Annexb(WideSets), << 0, 0 >>)
         ELSE TailEvent(p, s, k - 2, IF p = "t_slice" THEN stores[1] ELSE EmptyStore)
    [] p \in WideProfiles ->
         IF k = 1 /\ p \in {"w_slice", "w_dump"} THEN Event("stream", 1, Annexb(WideSets), << 0, 0 >>)
         ELSE IF k = 1 THEN Make(Step("stream", << "vps", "sps", "sps", "pps", "pps" >>, -1, 0), 1, stores[1], H(Seed(s), 19))
         ELSE WideEvent(p, s - 1, k - 2, stores[1])
    [] p \in LimProfiles ->
         IF k = 1 THEN Make(Step("stream", << "vps", "sps", "sps", "pps", "pps", "pps" >>, -1, 0), 1, stores[1], H(Seed(s), 17))
         ELSE LimEvent(p, s - 1, k - 2, stores[1])
    [] p = "e_vuifr" -> Event("vuifr", 1, <<>>, Flatten(Flatten([j \in 1..12 |-> [m \in 1..12 |-> << FrTicks[j], FrScales[m] >>]])))
================================================================================
