------------------------------- MODULE Syntax -------------------------------
(* The syntax structures of the H.265 standard that the library parses, as    *)
(* operators over the engine of module Gram, in the order of the standard's   *)
(* tables, with the permitted ranges and inference rules the library applies. *)
(* XD is the record of a structure XG with all elements absent.               *)
(* Deliberate deviations of the library from the standard (documented as      *)
(* unsupported in its source) are marked "DEVIATION".                         *)
EXTENDS Gram

B01(c) == IF c THEN 1 ELSE 0

(* ------------------------------------ 7.3.3 profile_tier_level ----------- *)
ProfileInfoD ==
  [profile_space |-> 0, tier_flag |-> 0, profile_idc |-> 0,
   profile_compatibility_flag |-> [i \in 1..32 |-> 0],
   progressive_source_flag |-> 0, interlaced_source_flag |-> 0,
   non_packed_constraint_flag |-> 0, frame_only_constraint_flag |-> 0,
   max_12bit_constraint_flag |-> 0, max_10bit_constraint_flag |-> 0,
   max_8bit_constraint_flag |-> 0, max_422chroma_constraint_flag |-> 0,
   max_420chroma_constraint_flag |-> 0, max_monochrome_constraint_flag |-> 0,
   intra_constraint_flag |-> 0, one_picture_only_constraint_flag |-> 0,
   lower_bit_rate_constraint_flag |-> 0, max_14bit_constraint_flag |-> 0,
   reserved_zero_33bits |-> <<0, 0>>, reserved_zero_34bits |-> <<0, 0>>,
   reserved_zero_7bits |-> 0, reserved_zero_35bits |-> <<0, 0>>,
   reserved_zero_43bits |-> <<0, 0>>, inbld_flag |-> 0,
   reserved_zero_bit |-> 0, profile_type |-> 0]

(* Tables A.2, A.3, A.5, A.7 and H.11: rows of constraint flags in the order  *)
(* (14bit) 12bit 10bit 8bit 422chroma 420chroma monochrome                    *)
ProfileTypeOf(f) ==
  LET k6 == << f.max_12bit_constraint_flag, f.max_10bit_constraint_flag,
               f.max_8bit_constraint_flag, f.max_422chroma_constraint_flag,
               f.max_420chroma_constraint_flag, f.max_monochrome_constraint_flag >>
      k7 == << f.max_14bit_constraint_flag >> \o k6
      ii == f.intra_constraint_flag
      op == f.one_picture_only_constraint_flag
      lb == f.lower_bit_rate_constraint_flag
      idc == f.profile_idc
      \* rows <<flags, value>>; 0 when none matches
      Row6(rows) == LET m == SelectSeq(rows, LAMBDA r : r[1] = k6)
                    IN IF m = <<>> THEN -1 ELSE m[1][2]
      Row7(rows) == LET m == SelectSeq(rows, LAMBDA r : r[1] = k7)
                    IN IF m = <<>> THEN -1 ELSE m[1][2]
      Or(v, d) == IF v = -1 THEN d ELSE v
  IN IF f.profile_space # 0 THEN 0
     ELSE CASE idc = 1 -> 1
       [] idc = 2 -> IF op = 1 THEN 100 ELSE 2
       [] idc = 3 -> 3
       [] idc = 4 -> Or(
            IF ii = 0 /\ op = 0 /\ lb = 1 THEN Row6(<<
                << <<1,1,1,1,1,1>>, 101 >>, << <<1,1,0,1,1,1>>, 102 >>,
                << <<1,0,0,1,1,1>>, 103 >>, << <<0,0,0,1,1,1>>, 104 >>,
                << <<1,0,0,1,1,0>>, 105 >>, << <<1,1,0,1,0,0>>, 106 >>,
                << <<1,0,0,1,0,0>>, 107 >>, << <<1,1,1,0,0,0>>, 108 >>,
                << <<1,1,0,0,0,0>>, 109 >>, << <<1,0,0,0,0,0>>, 110 >> >>)
            ELSE IF ii = 1 /\ op = 0 THEN Row6(<<
                << <<1,1,1,1,1,0>>, 111 >>, << <<1,1,0,1,1,0>>, 112 >>,
                << <<1,0,0,1,1,0>>, 113 >>, << <<1,1,0,1,0,0>>, 114 >>,
                << <<1,0,0,1,0,0>>, 115 >>, << <<1,1,1,0,0,0>>, 116 >>,
                << <<1,1,0,0,0,0>>, 117 >>, << <<1,0,0,0,0,0>>, 118 >>,
                << <<0,0,0,0,0,0>>, 119 >> >>)
            ELSE IF ii = 1 /\ op = 1 THEN Row6(<<
                << <<1,1,1,0,0,0>>, 120 >>, << <<0,0,0,0,0,0>>, 121 >>,
                << <<1,1,1,1,1,1>>, 150 >>, << <<1,1,0,1,1,1>>, 151 >>,
                << <<1,1,1,1,1,0>>, 3 >>,   << <<1,1,0,1,1,0>>, 100 >>,
                << <<1,1,0,0,0,0>>, 152 >> >>)
            ELSE -1, 4)
       [] idc = 5 -> Or(
            IF ii = 0 /\ op = 0 /\ lb = 1 THEN Row7(<<
                << <<1,1,1,1,0,0,0>>, 122 >>, << <<1,1,1,0,0,0,0>>, 123 >>,
                << <<1,0,0,0,0,0,0>>, 124 >> >>)
            ELSE IF ii = 1 /\ op = 0 THEN Row7(<< << <<0,0,0,0,0,0,0>>, 125 >> >>)
            ELSE -1, 5)
       [] idc = 6 -> 6
       [] idc = 7 -> Or(
            IF ii = 0 /\ op = 0 /\ lb = 1 THEN Row6(<<
                << <<1,1,1,1,1,0>>, 126 >>, << <<1,1,0,1,1,0>>, 127 >> >>)
            ELSE -1, 7)
       [] idc = 8 -> 8
       [] idc = 9 -> Or(
            IF ii = 0 /\ op = 0 /\ lb = 1 THEN Row7(<<
                << <<1,1,1,1,1,1,0>>, 128 >>, << <<1,1,1,0,1,1,0>>, 129 >>,
                << <<1,1,1,1,0,0,0>>, 130 >>, << <<1,1,1,0,0,0,0>>, 131 >> >>)
            ELSE -1, 9)
       [] idc = 10 -> 10
       [] idc = 11 -> Or(
            IF ii = 0 /\ op = 0 /\ lb = 1 THEN Row7(<<
                << <<1,1,1,1,0,0,0>>, 132 >>, << <<1,1,1,0,0,0,0>>, 133 >>,
                << <<1,0,0,0,0,0,0>>, 134 >> >>)
            ELSE -1, 11)
       [] idc = 12 -> 12
       [] idc = 13 -> 13
       [] OTHER -> 0

ProfileIdcs == << 1, 2, 3, 4, 4, 4, 5, 5, 6, 7, 8, 9, 9, 10, 11, 11, 12, 13, 0, 31 >>
HasProfile(f, ids) ==
  f.profile_idc \in ids \/ \E i \in ids : f.profile_compatibility_flag[i + 1] = 1
ProfileInfoG(s0) ==
  LET s1 == s0 ++ u("profile_space", 2) ++ u("tier_flag", 1)
               ++ up("profile_idc", 5, ProfileIdcs)
      \* 32 compatibility flags: generated sparsely
      s2 == IF ~s1.ok THEN s1
            ELSE IF s1.m = "p" THEN Row(s1, "profile_compatibility_flag", 32, 1)
            ELSE LET a == Rnd(s1.g.r)
                     b == Rnd(a)
                     one == Mod(a, 64)
                     two == Mod(b, 16)
                     v == [i \in 1..32 |-> B01(i = one \/ i = two)]
                 IN Set([Emit(s1, v) EXCEPT !.g = [@ EXCEPT !.r = b]],
                        "profile_compatibility_flag", v)
      s3 == s2 ++ u("progressive_source_flag", 1) ++ u("interlaced_source_flag", 1)
               ++ u("non_packed_constraint_flag", 1) ++ u("frame_only_constraint_flag", 1)
      s4 == IF HasProfile(s3.f, 4..11)
            THEN LET t == s3 ++ u("max_12bit_constraint_flag", 1)
                      ++ u("max_10bit_constraint_flag", 1)
                      ++ u("max_8bit_constraint_flag", 1)
                      ++ u("max_422chroma_constraint_flag", 1)
                      ++ u("max_420chroma_constraint_flag", 1)
                      ++ u("max_monochrome_constraint_flag", 1)
                      ++ u("intra_constraint_flag", 1)
                      ++ u("one_picture_only_constraint_flag", 1)
                      ++ u("lower_bit_rate_constraint_flag", 1)
                 IN IF HasProfile(t.f, {5, 9, 10, 11})
                    THEN t ++ u("max_14bit_constraint_flag", 1) ++ uw("reserved_zero_33bits", 33)
                    ELSE t ++ uw("reserved_zero_34bits", 34)
            ELSE IF HasProfile(s3.f, {2})
            THEN s3 ++ u("reserved_zero_7bits", 7)
                    ++ u("one_picture_only_constraint_flag", 1)
                    ++ uw("reserved_zero_35bits", 35)
            ELSE s3 ++ uw("reserved_zero_43bits", 43)
      s5 == IF HasProfile(s4.f, {1, 2, 3, 4, 5, 9, 11})
            THEN s4 ++ u("inbld_flag", 1) ELSE s4 ++ u("reserved_zero_bit", 1)
  IN IF s5.ok THEN Set(s5, "profile_type", ProfileTypeOf(s5.f)) ELSE s5

PtlD ==
  [profilePresentFlag |-> 0, maxNumSubLayersMinus1 |-> 0, general |-> <<>>,
   general_level_idc |-> 0, sub_layer_profile_present_flag |-> <<>>,
   sub_layer_level_present_flag |-> <<>>, reserved_zero_2bits |-> <<>>,
   sub_layer |-> <<>>, sub_layer_level_idc |-> <<>>]
PtlG(s0, present, max) ==
  LET s1 == Set(Set(s0, "profilePresentFlag", present), "maxNumSubLayersMinus1", max)
      s2 == IF present = 1 THEN Sub(s1, "general", ProfileInfoD, ProfileInfoG) ELSE s1
      s3 == s2 ++ u("general_level_idc", 8)
      s4 == Rep(s3, max, LAMBDA t, i : t ++ ul("sub_layer_profile_present_flag", 1)
                                         ++ ul("sub_layer_level_present_flag", 1))
      s5 == IF max > 0 THEN Row(s4, "reserved_zero_2bits", 8 - max, 2) ELSE s4
  IN Rep(s5, max, LAMBDA t, i :
        LET t1 == IF t.f.sub_layer_profile_present_flag[i + 1] = 1
                  THEN SubPush(t, "sub_layer", ProfileInfoD, ProfileInfoG) ELSE t
        IN IF t.f.sub_layer_level_present_flag[i + 1] = 1
           THEN t1 ++ ul("sub_layer_level_idc", 8) ELSE t1)

(* ---------------------------------------------------- E.2.3 sub-layer HRD *)
SubLayerHrdD ==
  [subLayerId |-> 0, CpbCnt |-> 0, sub_pic_hrd_params_present_flag |-> 0,
   bit_rate_value_minus1 |-> <<>>, cpb_size_value_minus1 |-> <<>>,
   cpb_size_du_value_minus1 |-> <<>>, bit_rate_du_value_minus1 |-> <<>>,
   cbr_flag |-> <<>>]
SubLayerHrdG(s0, id, cpbcnt, subpic) ==
  LET s1 == Set(Set(Set(s0, "subLayerId", id), "CpbCnt", cpbcnt),
                "sub_pic_hrd_params_present_flag", subpic)
  IN Rep(s1, cpbcnt, LAMBDA t, i :
        LET t1 == t ++ uel("bit_rate_value_minus1") ++ uel("cpb_size_value_minus1")
            t2 == IF subpic # 0
                  THEN t1 ++ uel("cpb_size_du_value_minus1") ++ uel("bit_rate_du_value_minus1")
                  ELSE Push(Push(t1, "cpb_size_du_value_minus1", 0),
                            "bit_rate_du_value_minus1", 0)
        IN t2 ++ ul("cbr_flag", 1))

(* ------------------------------------------------------------- E.2.2 HRD -- *)
HrdD ==
  [commonInfPresentFlag |-> 0, maxNumSubLayersMinus1 |-> 0,
   nal_hrd_parameters_present_flag |-> 0, vcl_hrd_parameters_present_flag |-> 0,
   sub_pic_hrd_params_present_flag |-> 0, tick_divisor_minus2 |-> 0,
   du_cpb_removal_delay_increment_length_minus1 |-> 0,
   sub_pic_cpb_params_in_pic_timing_sei_flag |-> 0,
   dpb_output_delay_du_length_minus1 |-> 0, bit_rate_scale |-> 0,
   cpb_size_scale |-> 0, cpb_size_du_scale |-> 0,
   initial_cpb_removal_delay_length_minus1 |-> 0,
   au_cpb_removal_delay_length_minus1 |-> 0, dpb_output_delay_length_minus1 |-> 0,
   fixed_pic_rate_general_flag |-> <<>>, fixed_pic_rate_within_cvs_flag |-> <<>>,
   elemental_duration_in_tc_minus1 |-> <<>>, low_delay_hrd_flag |-> <<>>,
   cpb_cnt_minus1 |-> <<>>, sub_layer_hrd_parameters_vector |-> <<>>]
HrdCommon(p, f) ==    \* common information of p, in a fresh f
  [f EXCEPT
   !.nal_hrd_parameters_present_flag = p.nal_hrd_parameters_present_flag,
   !.vcl_hrd_parameters_present_flag = p.vcl_hrd_parameters_present_flag,
   !.sub_pic_hrd_params_present_flag = p.sub_pic_hrd_params_present_flag,
   !.tick_divisor_minus2 = p.tick_divisor_minus2,
   !.du_cpb_removal_delay_increment_length_minus1 = p.du_cpb_removal_delay_increment_length_minus1,
   !.sub_pic_cpb_params_in_pic_timing_sei_flag = p.sub_pic_cpb_params_in_pic_timing_sei_flag,
   !.dpb_output_delay_du_length_minus1 = p.dpb_output_delay_du_length_minus1,
   !.bit_rate_scale = p.bit_rate_scale, !.cpb_size_scale = p.cpb_size_scale,
   !.cpb_size_du_scale = p.cpb_size_du_scale,
   !.initial_cpb_removal_delay_length_minus1 = p.initial_cpb_removal_delay_length_minus1,
   !.au_cpb_removal_delay_length_minus1 = p.au_cpb_removal_delay_length_minus1,
   !.dpb_output_delay_length_minus1 = p.dpb_output_delay_length_minus1]
(* prev: <<>> or << the preceding HRD structure >> *)
HrdG(s0, common, max, prev) ==
  LET s1 == Set(Set(s0, "commonInfPresentFlag", common), "maxNumSubLayersMinus1", max)
      s2 == IF common = 1
            THEN LET t == s1 ++ u("nal_hrd_parameters_present_flag", 1)
                             ++ u("vcl_hrd_parameters_present_flag", 1)
                 IN IF t.f.nal_hrd_parameters_present_flag = 1
                       \/ t.f.vcl_hrd_parameters_present_flag = 1
                    THEN LET t1 == t ++ u("sub_pic_hrd_params_present_flag", 1)
                             sp == t1.f.sub_pic_hrd_params_present_flag = 1
                             t2 == IF sp
                                   THEN t1 ++ u("tick_divisor_minus2", 8)
                                     ++ u("du_cpb_removal_delay_increment_length_minus1", 5)
                                     ++ u("sub_pic_cpb_params_in_pic_timing_sei_flag", 1)
                                     ++ u("dpb_output_delay_du_length_minus1", 5)
                                   ELSE t1
                             t3 == t2 ++ u("bit_rate_scale", 4) ++ u("cpb_size_scale", 4)
                             t4 == IF sp THEN t3 ++ u("cpb_size_du_scale", 4) ELSE t3
                         IN t4 ++ u("initial_cpb_removal_delay_length_minus1", 5)
                               ++ u("au_cpb_removal_delay_length_minus1", 5)
                               ++ u("dpb_output_delay_length_minus1", 5)
                    ELSE t
            ELSE IF prev # <<>> /\ s1.ok
            THEN [s1 EXCEPT !.f = HrdCommon(prev[1], @)]
            ELSE s1
      nal == s2.f.nal_hrd_parameters_present_flag
      vcl == s2.f.vcl_hrd_parameters_present_flag
      sub == s2.f.sub_pic_hrd_params_present_flag
  IN Rep(s2, max + 1, LAMBDA t0, i :
        LET t1 == t0 ++ ul("fixed_pic_rate_general_flag", 1)
            t2 == IF t1.x = 0 THEN t1 ++ ul("fixed_pic_rate_within_cvs_flag", 1)
                  ELSE [Push(t1, "fixed_pic_rate_within_cvs_flag", 1) EXCEPT !.x = 1]
            t3 == IF t2.x = 1
                  THEN [Push(t2 ++ uel("elemental_duration_in_tc_minus1"),
                             "low_delay_hrd_flag", 0) EXCEPT !.x = 0]
                  ELSE Push(t2, "elemental_duration_in_tc_minus1", 0)
                         ++ ul("low_delay_hrd_flag", 1)
            t4 == IF t3.x = 0
                  THEN t3 ++ [uec("cpb_cnt_minus1", MaxU, 2) EXCEPT !.a = TRUE]
                  ELSE [Push(t3, "cpb_cnt_minus1", 0) EXCEPT !.x = 0]
            cnt == WAdd(t4.x, 1)
            t5 == IF nal = 1
                  THEN SubPush(t4, "sub_layer_hrd_parameters_vector", SubLayerHrdD,
                               LAMBDA w : SubLayerHrdG(w, i, cnt, sub))
                  ELSE t4
        IN IF vcl = 1
           THEN SubPush(t5, "sub_layer_hrd_parameters_vector", SubLayerHrdD,
                        LAMBDA w : SubLayerHrdG(w, i, cnt, sub))
           ELSE t5)

(* ------------------------------------------------------------- E.2.1 VUI -- *)
VuiD ==
  [sps_max_sub_layers_minus1 |-> 0, aspect_ratio_info_present_flag |-> 0,
   aspect_ratio_idc |-> 0, sar_width |-> 0, sar_height |-> 0,
   overscan_info_present_flag |-> 0, overscan_appropriate_flag |-> 0,
   video_signal_type_present_flag |-> 0, video_format |-> 0,
   video_full_range_flag |-> 0, colour_description_present_flag |-> 0,
   colour_primaries |-> 0, transfer_characteristics |-> 0, matrix_coeffs |-> 0,
   chroma_loc_info_present_flag |-> 0, chroma_sample_loc_type_top_field |-> 0,
   chroma_sample_loc_type_bottom_field |-> 0, neutral_chroma_indication_flag |-> 0,
   field_seq_flag |-> 0, frame_field_info_present_flag |-> 0,
   default_display_window_flag |-> 0, def_disp_win_left_offset |-> 0,
   def_disp_win_right_offset |-> 0, def_disp_win_top_offset |-> 0,
   def_disp_win_bottom_offset |-> 0, vui_timing_info_present_flag |-> 0,
   vui_num_units_in_tick |-> 0, vui_time_scale |-> 0,
   vui_poc_proportional_to_timing_flag |-> 0,
   vui_num_ticks_poc_diff_one_minus1 |-> 0, vui_hrd_parameters_present_flag |-> 0,
   hrd_parameters |-> <<>>, bitstream_restriction_flag |-> 0,
   tiles_fixed_structure_flag |-> 0, motion_vectors_over_pic_boundaries_flag |-> 0,
   restricted_ref_pic_lists_flag |-> 0, min_spatial_segmentation_idc |-> 0,
   max_bytes_per_pic_denom |-> 0, max_bits_per_min_cu_denom |-> 0,
   log2_max_mv_length_horizontal |-> 0, log2_max_mv_length_vertical |-> 0]
VuiG(s0, max) ==
  LET s1 == Set(s0, "sps_max_sub_layers_minus1", max) ++ u("aspect_ratio_info_present_flag", 1)
      s2 == IF s1.f.aspect_ratio_info_present_flag = 1
            THEN LET t == s1 ++ up("aspect_ratio_idc", 8, <<0, 1, 16, 254, 255, 255>>)
                 IN IF t.f.aspect_ratio_idc = 255
                    THEN t ++ u("sar_width", 16) ++ u("sar_height", 16) ELSE t
            ELSE s1
      s3 == s2 ++ u("overscan_info_present_flag", 1)
      s4 == IF s3.f.overscan_info_present_flag = 1 THEN s3 ++ u("overscan_appropriate_flag", 1) ELSE s3
      s5 == s4 ++ u("video_signal_type_present_flag", 1)
      s6 == IF s5.f.video_signal_type_present_flag = 1
            THEN LET t == s5 ++ u("video_format", 3) ++ u("video_full_range_flag", 1)
                             ++ u("colour_description_present_flag", 1)
                 IN IF t.f.colour_description_present_flag = 1
                    THEN t ++ u("colour_primaries", 8) ++ u("transfer_characteristics", 8)
                           ++ u("matrix_coeffs", 8)
                    ELSE t
            ELSE s5
      s7 == s6 ++ u("chroma_loc_info_present_flag", 1)
      s8 == IF s7.f.chroma_loc_info_present_flag = 1
            THEN s7 ++ uer("chroma_sample_loc_type_top_field", 0, 5)
                    ++ uer("chroma_sample_loc_type_bottom_field", 0, 5)
            ELSE s7
      s9 == s8 ++ u("neutral_chroma_indication_flag", 1) ++ u("field_seq_flag", 1)
               ++ u("frame_field_info_present_flag", 1) ++ u("default_display_window_flag", 1)
      s10 == IF s9.f.default_display_window_flag = 1
             THEN s9 ++ uer("def_disp_win_left_offset", 0, 16384)
                     ++ uer("def_disp_win_right_offset", 0, 16384)
                     ++ uer("def_disp_win_top_offset", 0, 16384)
                     ++ uer("def_disp_win_bottom_offset", 0, 16384)
             ELSE s9
      s11 == s10 ++ u("vui_timing_info_present_flag", 1)
      s12 == IF s11.f.vui_timing_info_present_flag = 1
             THEN LET t == s11 ++ up("vui_num_units_in_tick", 32, <<1, 1001, 1000, 2, 3, 90000, -1>>)
                               ++ up("vui_time_scale", 32, <<25, 30000, 60000, 24000, 1, 50, 3, 1999999, -2>>)
                               ++ u("vui_poc_proportional_to_timing_flag", 1)
                      t1 == IF t.f.vui_poc_proportional_to_timing_flag = 1
                            THEN t ++ uer("vui_num_ticks_poc_diff_one_minus1", 0, -2) ELSE t
                      t2 == t1 ++ u("vui_hrd_parameters_present_flag", 1)
                  IN IF t2.f.vui_hrd_parameters_present_flag = 1
                     THEN Sub(t2, "hrd_parameters", HrdD, LAMBDA w : HrdG(w, 1, max, <<>>))
                     ELSE t2
             ELSE s11
      s13 == s12 ++ u("bitstream_restriction_flag", 1)
  IN IF s13.f.bitstream_restriction_flag = 1
     THEN s13 ++ u("tiles_fixed_structure_flag", 1)
              ++ u("motion_vectors_over_pic_boundaries_flag", 1)
              ++ u("restricted_ref_pic_lists_flag", 1)
              ++ uer("min_spatial_segmentation_idc", 0, 4095)
              ++ uer("max_bytes_per_pic_denom", 0, 16)
              ++ uer("max_bits_per_min_cu_denom", 0, 16)
              ++ uer("log2_max_mv_length_horizontal", 0, 16)
              ++ uer("log2_max_mv_length_vertical", 0, 15)
     ELSE s13

(* ----------------------------------------------------------- 7.3.2.1 VPS -- *)
VpsD ==
  [vps_video_parameter_set_id |-> 0, vps_base_layer_internal_flag |-> 0,
   vps_base_layer_available_flag |-> 0, vps_max_layers_minus1 |-> 0,
   vps_max_sub_layers_minus1 |-> 0, vps_temporal_id_nesting_flag |-> 0,
   vps_reserved_0xffff_16bits |-> 0, profile_tier_level |-> <<>>,
   vps_sub_layer_ordering_info_present_flag |-> 0,
   vps_max_dec_pic_buffering_minus1 |-> <<>>, vps_max_num_reorder_pics |-> <<>>,
   vps_max_latency_increase_plus1 |-> <<>>, vps_max_layer_id |-> 0,
   vps_num_layer_sets_minus1 |-> 0, layer_id_included_flag |-> <<>>,
   vps_timing_info_present_flag |-> 0, vps_num_units_in_tick |-> 0,
   vps_time_scale |-> 0, vps_poc_proportional_to_timing_flag |-> 0,
   vps_num_ticks_poc_diff_one_minus1 |-> 0, vps_num_hrd_parameters |-> 0,
   hrd_parameters |-> <<>>, hrd_layer_set_idx |-> <<>>, cprms_present_flag |-> <<>>,
   vps_extension_flag |-> 0, vps_extension_data_flag |-> 0]
VpsG(s0) ==
  LET s1 == s0 ++ up("vps_video_parameter_set_id", 4, <<0, 0, 1, 2, 15>>)
               ++ u("vps_base_layer_internal_flag", 1)
               ++ u("vps_base_layer_available_flag", 1) ++ u("vps_max_layers_minus1", 6)
               ++ u("vps_max_sub_layers_minus1", 3) ++ u("vps_temporal_id_nesting_flag", 1)
               ++ u("vps_reserved_0xffff_16bits", 16)
      max == s1.f.vps_max_sub_layers_minus1
      s2 == Sub(s1, "profile_tier_level", PtlD, LAMBDA w : PtlG(w, 1, max))
               ++ u("vps_sub_layer_ordering_info_present_flag", 1)
      s3 == Rep(s2, IF s2.f.vps_sub_layer_ordering_info_present_flag = 1 THEN max + 1 ELSE 1,
               LAMBDA t, i : t ++ uel("vps_max_dec_pic_buffering_minus1")
                               ++ uel("vps_max_num_reorder_pics")
                               ++ uel("vps_max_latency_increase_plus1"))
      s4 == s3 ++ [up("vps_max_layer_id", 6, <<0, 1, 2, 5, 62>>) EXCEPT !.hi = 62]
               ++ uec("vps_num_layer_sets_minus1", 1023, 3)
      s5 == Rep(s4, s4.f.vps_num_layer_sets_minus1, LAMBDA t, i :
               PushRow(t, "layer_id_included_flag", s4.f.vps_max_layer_id + 1, 1))
            ++ u("vps_timing_info_present_flag", 1)
      s6 == IF s5.f.vps_timing_info_present_flag = 1
            THEN LET t == s5 ++ u("vps_num_units_in_tick", 32) ++ u("vps_time_scale", 32)
                             ++ u("vps_poc_proportional_to_timing_flag", 1)
                     t1 == IF t.f.vps_poc_proportional_to_timing_flag = 1
                           THEN t ++ uer("vps_num_ticks_poc_diff_one_minus1", 0, -2) ELSE t
                     n  == t1.f.vps_num_layer_sets_minus1 + 1
                     t2 == t1 ++ uec("vps_num_hrd_parameters", n, Min2(n, 3))
                 IN Rep(t2, t2.f.vps_num_hrd_parameters, LAMBDA v, i :
                      LET v1 == v ++ uel("hrd_layer_set_idx")
                          v2 == IF i > 0 THEN v1 ++ ul("cprms_present_flag", 1)
                                ELSE [Push(v1, "cprms_present_flag", 1) EXCEPT !.x = 1]
                          c  == v2.x
                          pr == v2.f.hrd_parameters
                      \* only the last structure is retained
                      IN Sub(v2, "hrd_parameters", HrdD, LAMBDA w : HrdG(w, c, max, pr)))
            ELSE s5
      s7 == s6 ++ u("vps_extension_flag", 1)
      s8 == IF s7.f.vps_extension_flag = 1 THEN ExtData(s7, "vps_extension_data_flag") ELSE s7
  IN Trailing(s8)

(* --------------------------------------------- 7.3.4 scaling_list_data ---- *)
ScalingD ==
  [scaling_list_pred_mode_flag |-> [z \in 1..4 |-> [m \in 1..6 |-> 0]],
   scaling_list_pred_matrix_id_delta |-> [z \in 1..4 |-> [m \in 1..6 |-> 0]],
   scaling_list_dc_coef_minus8 |-> [z \in 1..4 |-> [m \in 1..6 |-> 0]],
   ScalingList |-> [z \in 1..4 |-> [m \in 1..6 |-> <<>>]]]
SetIn(s, nm, z, m, v) ==
  IF s.ok THEN [s EXCEPT !.f = [@ EXCEPT ![nm] = [@ EXCEPT ![z] = [@ EXCEPT ![m] = v]]]] ELSE s
ScalingMatrices == << <<0,0>>, <<0,1>>, <<0,2>>, <<0,3>>, <<0,4>>, <<0,5>>,
                      <<1,0>>, <<1,1>>, <<1,2>>, <<1,3>>, <<1,4>>, <<1,5>>,
                      <<2,0>>, <<2,1>>, <<2,2>>, <<2,3>>, <<2,4>>, <<2,5>>,
                      <<3,0>>, <<3,3>> >>
(* coefficients: a run of n se(v) differences starting from next; s.x = list   *)
RECURSIVE CoefRun(_, _, _, _)
CoefRun(s, n, next, acc) ==
  IF ~s.ok THEN s
  ELSE IF n = 0 THEN [s EXCEPT !.x = acc]
  ELSE LET t == s ++ ser("scaling_list_delta_coef", -128, 127)
           v == (next + (IF t.ok THEN t.x ELSE 0) + 256) % 256
       IN CoefRun(t, n - 1, v, Append(acc, v))
(* the generator codes most matrices by reference, to keep lists short         *)
PredMode(s) == s ++ up("scaling_list_pred_mode_flag", 1, <<0, 0, 0, 1>>)
ScalingG(s0) ==
  FoldLeft(LAMBDA s, zm :
    IF ~s.ok THEN s
    ELSE LET z == zm[1]
             m == zm[2]
             f0 == s.f
             s1 == LET t == s ++ [up("", 1, <<0, 0, 0, 1>>) EXCEPT !.nm = ""] IN
                   SetIn(t, "scaling_list_pred_mode_flag", z + 1, m + 1, t.x)
         IN IF ~s1.ok THEN s1
            ELSE IF s1.x = 0
            THEN LET t == s1 ++ ue("pred_matrix_id_delta") IN
                 SetIn(t, "scaling_list_pred_matrix_id_delta", z + 1, m + 1, t.x)
            ELSE LET n  == Min2(64, Pow2(4 + 2 * z))
                     s2 == IF z > 1
                           THEN LET t == s1 ++ ser("dc_coef_minus8", -7, 247) IN
                                SetIn(t, "scaling_list_dc_coef_minus8", z - 1, m + 1, t.x)
                           ELSE s1
                     s3 == CoefRun(s2, n, IF z > 1 /\ s2.ok THEN s2.x + 8 ELSE 8, <<>>)
                 IN SetIn(s3, "ScalingList", z + 1, m + 1, s3.x),
    s0, ScalingMatrices)

(* ------------------------------ 7.3.7 st_ref_pic_set and 7.4.8 derivation - *)
StRpsD ==
  [stRpsIdx |-> 0, num_short_term_ref_pic_sets |-> 0,
   inter_ref_pic_set_prediction_flag |-> 0, delta_idx_minus1 |-> 0,
   delta_rps_sign |-> 0, abs_delta_rps_minus1 |-> 0,
   used_by_curr_pic_flag |-> <<>>, use_delta_flag |-> <<>>,
   num_negative_pics |-> 0, num_positive_pics |-> 0,
   delta_poc_s0_minus1 |-> <<>>, used_by_curr_pic_s0_flag |-> <<>>,
   delta_poc_s1_minus1 |-> <<>>, used_by_curr_pic_s1_flag |-> <<>>]
(* DeltaPocS0 / DeltaPocS1 (7-65, 7-66) of a set *)
PrefixSums(d) == FoldLeft(LAMBDA acc, v : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + v + 1),
                          <<>>, d)
Neg(q) == [i \in 1..Len(q) |-> - q[i]]
(* candidates << dPoc, used, use_delta >> in the order of (7-61) / (7-62)      *)
StRpsDerive(ref, deltaRps, used, use) ==
  LET S0 == Neg(PrefixSums(ref.delta_poc_s0_minus1))
      S1 == PrefixSums(ref.delta_poc_s1_minus1)
      n0 == Len(S0)
      n1 == Len(S1)
      C0(j) == << S0[j] + deltaRps, used[j], use[j] >>           \* j-th negative
      C1(j) == << S1[j] + deltaRps, used[n0 + j], use[n0 + j] >> \* j-th positive
      CR    == << deltaRps, used[n0 + n1 + 1], use[n0 + n1 + 1] >>
      neg == [k \in 1..n1 |-> C1(n1 + 1 - k)] \o << CR >> \o [k \in 1..n0 |-> C0(k)]
      pos == [k \in 1..n0 |-> C0(n0 + 1 - k)] \o << CR >> \o [k \in 1..n1 |-> C1(k)]
  IN [ neg |-> SelectSeq(neg, LAMBDA c : c[1] < 0 /\ c[3] = 1),
       pos |-> SelectSeq(pos, LAMBDA c : c[1] > 0 /\ c[3] = 1) ]
(* back to coded form: distances minus 1 *)
Dists(q) == [k \in 1..Len(q) |->
               LET d == q[k][1] - (IF k = 1 THEN 0 ELSE q[k - 1][1])
               IN (IF d < 0 THEN - d ELSE d) - 1]
Col2(q) == [k \in 1..Len(q) |-> q[k][2]]

StRpsG(s0, idx, num, sets, max) ==
  LET s1 == Set(Set(Require(s0, num >= 0 /\ num <= 64), "stRpsIdx", idx),
                "num_short_term_ref_pic_sets", num)
      s2 == IF idx # 0 THEN s1 ++ u("inter_ref_pic_set_prediction_flag", 1) ELSE s1
  IN IF ~s2.ok THEN s2
     ELSE IF s2.f.inter_ref_pic_set_prediction_flag = 1
     THEN LET s3 == IF idx = num THEN s2 ++ uer("delta_idx_minus1", 0, idx - 1) ELSE s2
              s4 == s3 ++ u("delta_rps_sign", 1)
                       ++ uep("abs_delta_rps_minus1", 0, 32767, <<0, 0, 1, 2, 3, 4, 7>>)
              ref == sets[idx - s4.f.delta_idx_minus1]      \* RefRpsIdx + 1
              nd  == ref.num_negative_pics + ref.num_positive_pics
              s5  == Require(s4, ~s4.ok \/ nd < 16)
              s6  == IF s5.ok
                     THEN Rep(s5, nd + 1, LAMBDA t, j :
                        LET t1 == t ++ ul("used_by_curr_pic_flag", 1) IN
                        IF t1.x = 0 THEN t1 ++ ulp("use_delta_flag", 1, <<0, 1, 1>>)
                        ELSE Push(t1, "use_delta_flag", 1))
                     ELSE s5
          IN IF ~s6.ok THEN s6
             ELSE LET dr == (1 - 2 * s6.f.delta_rps_sign) * (s6.f.abs_delta_rps_minus1 + 1)
                      r  == StRpsDerive(ref, dr, s6.f.used_by_curr_pic_flag, s6.f.use_delta_flag)
                  IN IF Len(r.neg) > 16 \/ Len(r.pos) > 16 THEN Fail(s6)
                     ELSE [s6 EXCEPT !.f = [@ EXCEPT
                            !.num_negative_pics = Len(r.neg),
                            !.num_positive_pics = Len(r.pos),
                            !.delta_poc_s0_minus1 = Dists(r.neg),
                            !.used_by_curr_pic_s0_flag = Col2(r.neg),
                            !.delta_poc_s1_minus1 = Dists(r.pos),
                            !.used_by_curr_pic_s1_flag = Col2(r.pos)]]
     ELSE LET s3 == s2 ++ uec("num_negative_pics", max, Min2(max, 4))
              s4 == s3 ++ uec("num_positive_pics", max - s3.f.num_negative_pics,
                              Min2(max - s3.f.num_negative_pics, 3))
              dist(nm) == [uep(nm, 0, 32767, <<0, 0, 1, 2, 3>>) EXCEPT !.a = TRUE]
              s5 == Rep(s4, s4.f.num_negative_pics, LAMBDA t, i :
                        t ++ dist("delta_poc_s0_minus1") ++ ul("used_by_curr_pic_s0_flag", 1))
          IN Rep(s5, s5.f.num_positive_pics, LAMBDA t, i :
                        t ++ dist("delta_poc_s1_minus1") ++ ul("used_by_curr_pic_s1_flag", 1))

(* --------------------------------------------------- SPS extensions ------- *)
SpsRangeD ==
  [transform_skip_rotation_enabled_flag |-> 0, transform_skip_context_enabled_flag |-> 0,
   implicit_rdpcm_enabled_flag |-> 0, explicit_rdpcm_enabled_flag |-> 0,
   extended_precision_processing_flag |-> 0, intra_smoothing_disabled_flag |-> 0,
   high_precision_offsets_enabled_flag |-> 0, persistent_rice_adaptation_enabled_flag |-> 0,
   cabac_bypass_alignment_enabled_flag |-> 0]
SpsRangeG(s) ==
  s ++ u("transform_skip_rotation_enabled_flag", 1) ++ u("transform_skip_context_enabled_flag", 1)
    ++ u("implicit_rdpcm_enabled_flag", 1) ++ u("explicit_rdpcm_enabled_flag", 1)
    ++ u("extended_precision_processing_flag", 1) ++ u("intra_smoothing_disabled_flag", 1)
    ++ u("high_precision_offsets_enabled_flag", 1)
    ++ u("persistent_rice_adaptation_enabled_flag", 1)
    ++ u("cabac_bypass_alignment_enabled_flag", 1)
SpsMultilayerD == [inter_view_mv_vert_constraint_flag |-> 0]
SpsMultilayerG(s) == s ++ u("inter_view_mv_vert_constraint_flag", 1)
Sps3dD ==
  [iv_di_mc_enabled_flag |-> <<>>, iv_mv_scal_enabled_flag |-> <<>>,
   log2_ivmc_sub_pb_size_minus3 |-> 0, iv_res_pred_enabled_flag |-> 0,
   depth_ref_enabled_flag |-> 0, vsp_mc_enabled_flag |-> 0, dbbp_enabled_flag |-> 0,
   tex_mc_enabled_flag |-> 0, log2_texmc_sub_pb_size_minus3 |-> 0,
   intra_contour_enabled_flag |-> 0, intra_dc_only_wedge_enabled_flag |-> 0,
   cqt_cu_part_pred_enabled_flag |-> 0, inter_dc_only_enabled_flag |-> 0,
   skip_intra_enabled_flag |-> 0]
Sps3dG(s) ==
  s ++ ul("iv_di_mc_enabled_flag", 1) ++ ul("iv_mv_scal_enabled_flag", 1)
    ++ ue("log2_ivmc_sub_pb_size_minus3") ++ u("iv_res_pred_enabled_flag", 1)
    ++ u("depth_ref_enabled_flag", 1) ++ u("vsp_mc_enabled_flag", 1) ++ u("dbbp_enabled_flag", 1)
    ++ ul("iv_di_mc_enabled_flag", 1) ++ ul("iv_mv_scal_enabled_flag", 1)
    ++ u("tex_mc_enabled_flag", 1) ++ ue("log2_texmc_sub_pb_size_minus3")
    ++ u("intra_contour_enabled_flag", 1) ++ u("intra_dc_only_wedge_enabled_flag", 1)
    ++ u("cqt_cu_part_pred_enabled_flag", 1) ++ u("inter_dc_only_enabled_flag", 1)
    ++ u("skip_intra_enabled_flag", 1)
SpsSccD ==
  [sps_curr_pic_ref_enabled_flag |-> 0, palette_mode_enabled_flag |-> 0,
   palette_max_size |-> 0, delta_palette_max_predictor_size |-> 0,
   sps_palette_predictor_initializers_present_flag |-> 0,
   sps_num_palette_predictor_initializers_minus1 |-> 0,
   sps_palette_predictor_initializers |-> <<>>,
   motion_vector_resolution_control_idc |-> 0,
   intra_boundary_filtering_disabled_flag |-> 0]
SpsSccG(s0, chroma, bdl, bdc) ==
  LET s1 == s0 ++ u("sps_curr_pic_ref_enabled_flag", 1) ++ u("palette_mode_enabled_flag", 1)
      s2 == IF s1.f.palette_mode_enabled_flag = 1
            THEN LET t == s1 ++ uer("palette_max_size", 0, 64)
                             ++ uer("delta_palette_max_predictor_size", 0, 128)
                             ++ u("sps_palette_predictor_initializers_present_flag", 1)
                 IN IF t.f.sps_palette_predictor_initializers_present_flag = 1
                    THEN LET t1 == t ++ uep("sps_num_palette_predictor_initializers_minus1",
                                            0, 127, <<0, 1, 2, 3, 4>>)
                             n  == t1.f.sps_num_palette_predictor_initializers_minus1 + 1
                         IN Rep(t1, IF chroma = 0 THEN 1 ELSE 3, LAMBDA v, c :
                              PushRow(v, "sps_palette_predictor_initializers", n,
                                      8 + (IF c = 0 THEN bdl ELSE bdc)))
                    ELSE t
            ELSE s1
  IN s2 ++ up("motion_vector_resolution_control_idc", 2, <<0, 1, 2, 2>>)
        ++ u("intra_boundary_filtering_disabled_flag", 1)

(* ----------------------------------------------------------- 7.3.2.2 SPS -- *)
SpsD ==
  [sps_video_parameter_set_id |-> 0, sps_max_sub_layers_minus1 |-> 0,
   sps_temporal_id_nesting_flag |-> 0, profile_tier_level |-> <<>>,
   sps_seq_parameter_set_id |-> 0, chroma_format_idc |-> 0,
   separate_colour_plane_flag |-> 0, pic_width_in_luma_samples |-> 0,
   pic_height_in_luma_samples |-> 0, conformance_window_flag |-> 0,
   conf_win_left_offset |-> 0, conf_win_right_offset |-> 0,
   conf_win_top_offset |-> 0, conf_win_bottom_offset |-> 0,
   bit_depth_luma_minus8 |-> 0, bit_depth_chroma_minus8 |-> 0,
   log2_max_pic_order_cnt_lsb_minus4 |-> 0,
   sps_sub_layer_ordering_info_present_flag |-> 0,
   sps_max_dec_pic_buffering_minus1 |-> <<>>, sps_max_num_reorder_pics |-> <<>>,
   sps_max_latency_increase_plus1 |-> <<>>,
   log2_min_luma_coding_block_size_minus3 |-> 0,
   log2_diff_max_min_luma_coding_block_size |-> 0,
   log2_min_luma_transform_block_size_minus2 |-> 0,
   log2_diff_max_min_luma_transform_block_size |-> 0,
   max_transform_hierarchy_depth_inter |-> 0, max_transform_hierarchy_depth_intra |-> 0,
   scaling_list_enabled_flag |-> 0, sps_scaling_list_data_present_flag |-> 0,
   scaling_list_data |-> <<>>, amp_enabled_flag |-> 0,
   sample_adaptive_offset_enabled_flag |-> 0, pcm_enabled_flag |-> 0,
   pcm_sample_bit_depth_luma_minus1 |-> 0, pcm_sample_bit_depth_chroma_minus1 |-> 0,
   log2_min_pcm_luma_coding_block_size_minus3 |-> 0,
   log2_diff_max_min_pcm_luma_coding_block_size |-> 0,
   pcm_loop_filter_disabled_flag |-> 0, num_short_term_ref_pic_sets |-> 0,
   st_ref_pic_set |-> <<>>, long_term_ref_pics_present_flag |-> 0,
   num_long_term_ref_pics_sps |-> 0, lt_ref_pic_poc_lsb_sps |-> <<>>,
   used_by_curr_pic_lt_sps_flag |-> <<>>, sps_temporal_mvp_enabled_flag |-> 0,
   strong_intra_smoothing_enabled_flag |-> 0, vui_parameters_present_flag |-> 0,
   vui_parameters |-> <<>>, sps_extension_present_flag |-> 0,
   sps_range_extension_flag |-> 0, sps_multilayer_extension_flag |-> 0,
   sps_3d_extension_flag |-> 0, sps_scc_extension_flag |-> 0,
   sps_extension_4bits |-> 0, sps_range_extension |-> <<>>,
   sps_multilayer_extension |-> <<>>, sps_3d_extension |-> <<>>,
   sps_scc_extension |-> <<>>, sps_extension_data_flag |-> 0]
PicSizes == << 8, 16, 24, 64, 64, 128, 320, 176, 144, 1280, 720, 1920, 1088, 4096, 2160,
               8192, 16384, 16888, 200, 48, 40 >>
SpsG(s0) ==
  LET s1 == s0 ++ u("sps_video_parameter_set_id", 4)
               ++ up("sps_max_sub_layers_minus1", 3, <<0, 0, 1, 2, 6, 7>>)
               ++ u("sps_temporal_id_nesting_flag", 1)
      max == s1.f.sps_max_sub_layers_minus1
      s2 == Sub(s1, "profile_tier_level", PtlD, LAMBDA w : PtlG(w, 1, max))
               ++ uep("sps_seq_parameter_set_id", 0, 15, <<0, 0, 1, 2, 15>>)
               ++ uep("chroma_format_idc", 0, 3, <<0, 1, 1, 2, 3>>)
      s3 == IF s2.f.chroma_format_idc = 3 THEN s2 ++ u("separate_colour_plane_flag", 1) ELSE s2
      s4 == s3 ++ uep("pic_width_in_luma_samples", 1, 16888, PicSizes)
               ++ uep("pic_height_in_luma_samples", 1, 16888, PicSizes)
               ++ u("conformance_window_flag", 1)
      w  == s4.f.pic_width_in_luma_samples
      h  == s4.f.pic_height_in_luma_samples
      s5 == IF s4.f.conformance_window_flag = 1
            THEN s4 ++ uep("conf_win_left_offset", 0, w, <<0, 1, 2, 4>>)
                    ++ uep("conf_win_right_offset", 0, w, <<0, 1, 2, 4>>)
                    ++ uep("conf_win_top_offset", 0, h, <<0, 1, 2, 4>>)
                    ++ uep("conf_win_bottom_offset", 0, h, <<0, 1, 2, 4>>)
            ELSE s4
      s6 == s5 ++ uer("bit_depth_luma_minus8", 0, 8) ++ uer("bit_depth_chroma_minus8", 0, 8)
               ++ uer("log2_max_pic_order_cnt_lsb_minus4", 0, 12)
               ++ u("sps_sub_layer_ordering_info_present_flag", 1)
      s7 == Rep(s6, IF s6.f.sps_sub_layer_ordering_info_present_flag = 1 THEN max + 1 ELSE 1,
               LAMBDA t, i : t ++ uerl("sps_max_dec_pic_buffering_minus1", 0, 15)
                               ++ uel("sps_max_num_reorder_pics")
                               ++ uel("sps_max_latency_increase_plus1"))
      s8 == s7 ++ uep("log2_min_luma_coding_block_size_minus3", 0, 3, <<0, 0, 0, 0, 1, 2, 3>>)
      mcb == Pow2(s8.f.log2_min_luma_coding_block_size_minus3 + 3)
      s9 == Demand(Demand(s8, w % mcb = 0), h % mcb = 0)
               ++ uer("log2_diff_max_min_luma_coding_block_size", 0, 3)
               ++ ue("log2_min_luma_transform_block_size_minus2")
               ++ ue("log2_diff_max_min_luma_transform_block_size")
               ++ ue("max_transform_hierarchy_depth_inter")
               ++ ue("max_transform_hierarchy_depth_intra")
               ++ u("scaling_list_enabled_flag", 1)
      s10 == IF s9.f.scaling_list_enabled_flag = 1
             THEN LET t == s9 ++ u("sps_scaling_list_data_present_flag", 1)
                  IN IF t.f.sps_scaling_list_data_present_flag = 1
                     THEN Sub(t, "scaling_list_data", ScalingD, ScalingG) ELSE t
             ELSE s9
      s11 == s10 ++ u("amp_enabled_flag", 1) ++ u("sample_adaptive_offset_enabled_flag", 1)
                 ++ u("pcm_enabled_flag", 1)
      s12 == IF s11.f.pcm_enabled_flag = 1
             THEN s11 ++ u("pcm_sample_bit_depth_luma_minus1", 4)
                      ++ u("pcm_sample_bit_depth_chroma_minus1", 4)
                      ++ ue("log2_min_pcm_luma_coding_block_size_minus3")
                      ++ ue("log2_diff_max_min_pcm_luma_coding_block_size")
                      ++ u("pcm_loop_filter_disabled_flag", 1)
             ELSE s11
      s13 == s12 ++ uec("num_short_term_ref_pic_sets", 64, 5)
      s14 == Rep(s13, s13.f.num_short_term_ref_pic_sets, LAMBDA t, i :
               SubPush(t, "st_ref_pic_set", StRpsD, LAMBDA v :
                 StRpsG(v, i, s13.f.num_short_term_ref_pic_sets, t.f.st_ref_pic_set, 15)))
             ++ u("long_term_ref_pics_present_flag", 1)
      s15 == IF s14.f.long_term_ref_pics_present_flag = 1
             THEN LET t == s14 ++ uec("num_long_term_ref_pics_sps", 32, 4)
                  IN Rep(t, t.f.num_long_term_ref_pics_sps, LAMBDA v, i :
                       v ++ ul("lt_ref_pic_poc_lsb_sps", t.f.log2_max_pic_order_cnt_lsb_minus4 + 4)
                         ++ ul("used_by_curr_pic_lt_sps_flag", 1))
             ELSE s14
      s16 == s15 ++ u("sps_temporal_mvp_enabled_flag", 1)
                 ++ u("strong_intra_smoothing_enabled_flag", 1)
                 ++ u("vui_parameters_present_flag", 1)
      s17 == (IF s16.f.vui_parameters_present_flag = 1
              THEN Sub(s16, "vui_parameters", VuiD, LAMBDA v : VuiG(v, max)) ELSE s16)
             ++ u("sps_extension_present_flag", 1)
      s18 == IF s17.f.sps_extension_present_flag = 1
             THEN s17 ++ u("sps_range_extension_flag", 1) ++ u("sps_multilayer_extension_flag", 1)
                      ++ u("sps_3d_extension_flag", 1) ++ u("sps_scc_extension_flag", 1)
                      ++ up("sps_extension_4bits", 4, <<0, 0, 1, 8, 15>>)
             ELSE s17
      s19 == IF s18.f.sps_range_extension_flag = 1
             THEN Sub(s18, "sps_range_extension", SpsRangeD, SpsRangeG) ELSE s18
      s20 == IF s19.f.sps_multilayer_extension_flag = 1
             THEN Sub(s19, "sps_multilayer_extension", SpsMultilayerD, SpsMultilayerG) ELSE s19
      s21 == IF s20.f.sps_3d_extension_flag = 1
             THEN Sub(s20, "sps_3d_extension", Sps3dD, Sps3dG) ELSE s20
      s22 == IF s21.f.sps_scc_extension_flag = 1
             THEN Sub(s21, "sps_scc_extension", SpsSccD, LAMBDA v :
                    SpsSccG(v, s21.f.chroma_format_idc, s21.f.bit_depth_luma_minus8,
                            s21.f.bit_depth_chroma_minus8))
             ELSE s21
      s23 == IF s22.f.sps_extension_4bits # 0 THEN ExtData(s22, "sps_extension_data_flag") ELSE s22
  IN Trailing(s23)

(* derived variables of an SPS (7-10 .. 7-24, Table 6-1, output cropping)      *)
CeilDiv(a, b) == (a + b - 1) \div b
SubWidthC(f)  == IF f.separate_colour_plane_flag = 1 THEN 1
                 ELSE IF f.chroma_format_idc \in {1, 2} THEN 2 ELSE 1
SubHeightC(f) == IF f.separate_colour_plane_flag = 1 THEN 1
                 ELSE IF f.chroma_format_idc = 1 THEN 2 ELSE 1
MinCbLog2SizeY(f) == f.log2_min_luma_coding_block_size_minus3 + 3
CtbLog2SizeY(f)   == MinCbLog2SizeY(f) + f.log2_diff_max_min_luma_coding_block_size
PicWidthInCtbsY(f)  == CeilDiv(f.pic_width_in_luma_samples, Pow2(CtbLog2SizeY(f)))
PicHeightInCtbsY(f) == CeilDiv(f.pic_height_in_luma_samples, Pow2(CtbLog2SizeY(f)))
PicSizeInCtbsY(f)   == PicWidthInCtbsY(f) * PicHeightInCtbsY(f)
CropWidth(f)  == f.pic_width_in_luma_samples
                 - SubWidthC(f) * (f.conf_win_left_offset + f.conf_win_right_offset)
CropHeight(f) == f.pic_height_in_luma_samples
                 - SubHeightC(f) * (f.conf_win_top_offset + f.conf_win_bottom_offset)
SpsDerived(f) ==
  LET mcb == Pow2(MinCbLog2SizeY(f))
      w == f.pic_width_in_luma_samples
      h == f.pic_height_in_luma_samples
  IN [MinCbLog2SizeY |-> MinCbLog2SizeY(f), CtbLog2SizeY |-> CtbLog2SizeY(f),
      MinCbSizeY |-> mcb, CtbSizeY |-> Pow2(CtbLog2SizeY(f)),
      PicWidthInMinCbsY |-> w \div mcb, PicWidthInCtbsY |-> PicWidthInCtbsY(f),
      PicHeightInMinCbsY |-> h \div mcb, PicHeightInCtbsY |-> PicHeightInCtbsY(f),
      PicSizeInMinCbsY |-> (w \div mcb) * (h \div mcb),
      PicSizeInCtbsY |-> PicSizeInCtbsY(f), PicSizeInSamplesY |-> w * h,
      SubWidthC |-> SubWidthC(f), SubHeightC |-> SubHeightC(f),
      MaxNumNegativePics |-> 15, width |-> CropWidth(f), height |-> CropHeight(f)]
(* frame rate in thousandths where the arithmetic fits, -1 elsewhere           *)
FrameRateOf(v) ==
  IF v.vui_time_scale \in 1..2000000 /\ v.vui_num_units_in_tick >= 1
  THEN (v.vui_time_scale * 1000) \div v.vui_num_units_in_tick ELSE -1

(* --------------------------------------------------- PPS extensions ------- *)
PpsMultilayerD ==
  [poc_reset_info_present_flag |-> 0, pps_infer_scaling_list_flag |-> 0,
   pps_scaling_list_ref_layer_id |-> 0, num_ref_loc_offsets |-> 0,
   ref_loc_offset_layer_id |-> <<>>, scaled_ref_layer_offset_present_flag |-> <<>>,
   scaled_ref_layer_left_offset |-> <<>>, scaled_ref_layer_top_offset |-> <<>>,
   scaled_ref_layer_right_offset |-> <<>>, scaled_ref_layer_bottom_offset |-> <<>>,
   ref_region_offset_present_flag |-> <<>>, ref_region_left_offset |-> <<>>,
   ref_region_top_offset |-> <<>>, ref_region_right_offset |-> <<>>,
   ref_region_bottom_offset |-> <<>>, resample_phase_set_present_flag |-> <<>>,
   phase_hor_luma |-> <<>>, phase_ver_luma |-> <<>>,
   phase_hor_chroma_plus8 |-> <<>>, phase_ver_chroma_plus8 |-> <<>>,
   colour_mapping_enabled_flag |-> 0]
PpsMultilayerG(s0) ==
  LET s1 == s0 ++ u("poc_reset_info_present_flag", 1) ++ u("pps_infer_scaling_list_flag", 1)
      s2 == IF s1.f.pps_infer_scaling_list_flag = 1
            THEN s1 ++ u("pps_scaling_list_ref_layer_id", 6) ELSE s1
      s3 == s2 ++ uec("num_ref_loc_offsets", MaxU, 3)
      s4 == Rep(s3, s3.f.num_ref_loc_offsets, LAMBDA t, i :
              LET t1 == t ++ ul("ref_loc_offset_layer_id", 6)
                          ++ ul("scaled_ref_layer_offset_present_flag", 1)
                  t2 == IF t1.x = 1
                        THEN t1 ++ sel("scaled_ref_layer_left_offset")
                                ++ sel("scaled_ref_layer_top_offset")
                                ++ sel("scaled_ref_layer_right_offset")
                                ++ sel("scaled_ref_layer_bottom_offset")
                        ELSE t1
                  t3 == t2 ++ ul("ref_region_offset_present_flag", 1)
                  t4 == IF t3.x = 1
                        THEN t3 ++ sel("ref_region_left_offset") ++ sel("ref_region_top_offset")
                                ++ sel("ref_region_right_offset") ++ sel("ref_region_bottom_offset")
                        ELSE t3
                  t5 == t4 ++ ul("resample_phase_set_present_flag", 1)
              IN IF t5.x = 1
                 THEN t5 ++ sel("phase_hor_luma") ++ sel("phase_ver_luma")
                         ++ sel("phase_hor_chroma_plus8") ++ sel("phase_ver_chroma_plus8")
                 ELSE t5)
  \* DEVIATION: the colour mapping table is not supported
  IN s4 ++ [up("colour_mapping_enabled_flag", 1, <<0>>) EXCEPT !.hi = 0]
PpsSccD ==
  [pps_curr_pic_ref_enabled_flag |-> 0, residual_adaptive_colour_transform_enabled_flag |-> 0,
   pps_slice_act_qp_offsets_present_flag |-> 0, pps_act_y_qp_offset_plus5 |-> 0,
   pps_act_cb_qp_offset_plus5 |-> 0, pps_act_cr_qp_offset_plus3 |-> 0,
   pps_palette_predictor_initializer_present_flag |-> 0,
   pps_num_palette_predictor_initializer |-> 0, monochrome_palette_flag |-> 0,
   luma_bit_depth_entry_minus8 |-> 0, chroma_bit_depth_entry_minus8 |-> 0,
   pps_palette_predictor_initializers |-> <<>>]
PpsSccG(s0) ==
  LET s1 == s0 ++ u("pps_curr_pic_ref_enabled_flag", 1)
               ++ u("residual_adaptive_colour_transform_enabled_flag", 1)
      s2 == IF s1.f.residual_adaptive_colour_transform_enabled_flag = 1
            THEN s1 ++ u("pps_slice_act_qp_offsets_present_flag", 1)
                    ++ se("pps_act_y_qp_offset_plus5") ++ se("pps_act_cb_qp_offset_plus5")
                    ++ se("pps_act_cr_qp_offset_plus3")
            ELSE s1
      s3 == s2 ++ u("pps_palette_predictor_initializer_present_flag", 1)
      s4 == IF s3.f.pps_palette_predictor_initializer_present_flag = 1
            THEN s3 ++ uec("pps_num_palette_predictor_initializer", MaxU, 4) ELSE s3
      n  == s4.f.pps_num_palette_predictor_initializer
      bd(nm) == uep(nm, 0, MaxU, <<0, 1, 2, 8, 24>>)
  IN IF s4.f.pps_palette_predictor_initializer_present_flag = 1 /\ n # 0
     THEN LET s5 == s4 ++ u("monochrome_palette_flag", 1) ++ bd("luma_bit_depth_entry_minus8")
              mono == s5.f.monochrome_palette_flag = 1
              s6 == IF mono THEN s5 ELSE s5 ++ bd("chroma_bit_depth_entry_minus8")
          IN Rep(s6, IF mono THEN 1 ELSE 3, LAMBDA t, c :
               PushRow(t, "pps_palette_predictor_initializers", n,
                 WAdd(8, IF c = 0 THEN s6.f.luma_bit_depth_entry_minus8
                         ELSE s6.f.chroma_bit_depth_entry_minus8)))
     ELSE s4

(* ----------------------------------------------------------- 7.3.2.3 PPS -- *)
PpsD ==
  [pps_pic_parameter_set_id |-> 0, pps_seq_parameter_set_id |-> 0,
   dependent_slice_segments_enabled_flag |-> 0, output_flag_present_flag |-> 0,
   num_extra_slice_header_bits |-> 0, sign_data_hiding_enabled_flag |-> 0,
   cabac_init_present_flag |-> 0, num_ref_idx_l0_default_active_minus1 |-> 0,
   num_ref_idx_l1_default_active_minus1 |-> 0, init_qp_minus26 |-> 0,
   constrained_intra_pred_flag |-> 0, transform_skip_enabled_flag |-> 0,
   cu_qp_delta_enabled_flag |-> 0, diff_cu_qp_delta_depth |-> 0,
   pps_cb_qp_offset |-> 0, pps_cr_qp_offset |-> 0,
   pps_slice_chroma_qp_offsets_present_flag |-> 0, weighted_pred_flag |-> 0,
   weighted_bipred_flag |-> 0, transquant_bypass_enabled_flag |-> 0,
   tiles_enabled_flag |-> 0, entropy_coding_sync_enabled_flag |-> 0,
   num_tile_columns_minus1 |-> 0, num_tile_rows_minus1 |-> 0,
   uniform_spacing_flag |-> 0, column_width_minus1 |-> <<>>,
   row_height_minus1 |-> <<>>, loop_filter_across_tiles_enabled_flag |-> 0,
   pps_loop_filter_across_slices_enabled_flag |-> 0,
   deblocking_filter_control_present_flag |-> 0,
   deblocking_filter_override_enabled_flag |-> 0,
   pps_deblocking_filter_disabled_flag |-> 0, pps_beta_offset_div2 |-> 0,
   pps_tc_offset_div2 |-> 0, pps_scaling_list_data_present_flag |-> 0,
   scaling_list_data |-> <<>>, lists_modification_present_flag |-> 0,
   log2_parallel_merge_level_minus2 |-> 0,
   slice_segment_header_extension_present_flag |-> 0, pps_extension_present_flag |-> 0,
   pps_range_extension_flag |-> 0, pps_multilayer_extension_flag |-> 0,
   pps_3d_extension_flag |-> 0, pps_scc_extension_flag |-> 0,
   pps_extension_4bits |-> 0, pps_scc_extension |-> <<>>,
   pps_multilayer_extension |-> <<>>, pps_extension_data_flag |-> 0]
PpsG(s0) ==
  LET s1 == s0 ++ uep("pps_pic_parameter_set_id", 0, MaxU, <<0, 0, 1, 2, 63>>)
               ++ uep("pps_seq_parameter_set_id", 0, MaxU, <<0, 0, 1, 2, 15>>)
               ++ u("dependent_slice_segments_enabled_flag", 1)
               ++ u("output_flag_present_flag", 1) ++ u("num_extra_slice_header_bits", 3)
               ++ u("sign_data_hiding_enabled_flag", 1) ++ u("cabac_init_present_flag", 1)
               ++ uep("num_ref_idx_l0_default_active_minus1", 0, MaxU, <<0, 1, 2, 3, 14>>)
               ++ uep("num_ref_idx_l1_default_active_minus1", 0, MaxU, <<0, 1, 2, 3, 14>>)
               ++ se("init_qp_minus26") ++ u("constrained_intra_pred_flag", 1)
               ++ u("transform_skip_enabled_flag", 1) ++ u("cu_qp_delta_enabled_flag", 1)
      s2 == IF s1.f.cu_qp_delta_enabled_flag = 1 THEN s1 ++ ue("diff_cu_qp_delta_depth") ELSE s1
      s3 == s2 ++ se("pps_cb_qp_offset") ++ se("pps_cr_qp_offset")
               ++ u("pps_slice_chroma_qp_offsets_present_flag", 1)
               ++ u("weighted_pred_flag", 1) ++ u("weighted_bipred_flag", 1)
               ++ u("transquant_bypass_enabled_flag", 1) ++ u("tiles_enabled_flag", 1)
               ++ u("entropy_coding_sync_enabled_flag", 1)
      s4 == IF s3.f.tiles_enabled_flag = 1
            THEN LET t == s3 ++ uec("num_tile_columns_minus1", MaxU, 5)
                             ++ uec("num_tile_rows_minus1", MaxU, 4)
                             ++ u("uniform_spacing_flag", 1)
                     t1 == IF t.f.uniform_spacing_flag = 0
                           THEN Rep(Rep(t, t.f.num_tile_columns_minus1,
                                        LAMBDA v, i : v ++ uel("column_width_minus1")),
                                    t.f.num_tile_rows_minus1,
                                    LAMBDA v, i : v ++ uel("row_height_minus1"))
                           ELSE t
                 IN t1 ++ u("loop_filter_across_tiles_enabled_flag", 1)
            ELSE s3
      s5 == s4 ++ u("pps_loop_filter_across_slices_enabled_flag", 1)
               ++ u("deblocking_filter_control_present_flag", 1)
      s6 == IF s5.f.deblocking_filter_control_present_flag = 1
            THEN LET t == s5 ++ u("deblocking_filter_override_enabled_flag", 1)
                             ++ u("pps_deblocking_filter_disabled_flag", 1)
                 IN IF t.f.pps_deblocking_filter_disabled_flag = 0
                    THEN t ++ se("pps_beta_offset_div2") ++ se("pps_tc_offset_div2") ELSE t
            ELSE s5
      s7 == s6 ++ up("pps_scaling_list_data_present_flag", 1, <<0, 0, 1>>)
      s8 == IF s7.f.pps_scaling_list_data_present_flag = 1
            THEN Sub(s7, "scaling_list_data", ScalingD, ScalingG) ELSE s7
      s9 == s8 ++ u("lists_modification_present_flag", 1)
               ++ ue("log2_parallel_merge_level_minus2")
               ++ u("slice_segment_header_extension_present_flag", 1)
               ++ u("pps_extension_present_flag", 1)
      s10 == IF s9.f.pps_extension_present_flag = 1
             THEN s9 ++ up("pps_range_extension_flag", 1, <<0>>)
                     ++ u("pps_multilayer_extension_flag", 1)
                     ++ up("pps_3d_extension_flag", 1, <<0>>)
                     ++ u("pps_scc_extension_flag", 1)
                     ++ up("pps_extension_4bits", 4, <<0, 0, 1, 8, 15>>)
             ELSE s9
      \* DEVIATION: the range extension is not supported
      s11 == Require(s10, s10.f.pps_range_extension_flag = 0)
      s12 == IF s11.f.pps_multilayer_extension_flag = 1
             THEN Sub(s11, "pps_multilayer_extension", PpsMultilayerD, PpsMultilayerG) ELSE s11
      \* DEVIATION: the 3D extension is not supported
      s13 == Require(s12, s12.f.pps_3d_extension_flag = 0)
      s14 == IF s13.f.pps_scc_extension_flag = 1
             THEN Sub(s13, "pps_scc_extension", PpsSccD, PpsSccG) ELSE s13
      s15 == IF s14.f.pps_extension_4bits # 0 THEN ExtData(s14, "pps_extension_data_flag") ELSE s14
  IN Trailing(s15)

(* ------------------------------------------- 7.3.2.5 access unit delimiter  *)
AudD == [pic_type |-> 0]
AudG(s) == Trailing(s ++ u("pic_type", 3))

(* ------------------------------------------- 7.3.6.3 pred_weight_table ---- *)
PwtD ==
  [ChromaArrayType |-> 0, num_ref_idx_l0_active_minus1 |-> 0,
   luma_log2_weight_denom |-> 0, delta_chroma_log2_weight_denom |-> 0,
   luma_weight_l0_flag |-> <<>>, chroma_weight_l0_flag |-> <<>>,
   delta_luma_weight_l0 |-> <<>>, luma_offset_l0 |-> <<>>,
   delta_chroma_weight_l0 |-> <<>>, delta_chroma_offset_l0 |-> <<>>,
   luma_weight_l1_flag |-> <<>>, chroma_weight_l1_flag |-> <<>>,
   delta_luma_weight_l1 |-> <<>>, luma_offset_l1 |-> <<>>,
   delta_chroma_weight_l1 |-> <<>>, delta_chroma_offset_l1 |-> <<>>]
(* DEVIATION: only the part for list 0 is read                                *)
PwtG(s0, cat, l0) ==
  LET n  == WAdd(l0, 1)
      s1 == Set(Set(s0, "ChromaArrayType", cat), "num_ref_idx_l0_active_minus1", l0)
              ++ ue("luma_log2_weight_denom")
      s2 == IF cat # 0 THEN s1 ++ se("delta_chroma_log2_weight_denom") ELSE s1
      s3 == Row(s2, "luma_weight_l0_flag", n, 1)
      s4 == IF cat # 0 THEN Row(s3, "chroma_weight_l0_flag", n, 1) ELSE s3
  IN IF ~s4.ok THEN s4
     ELSE FoldLeft(LAMBDA t, i :
        LET t1 == IF t.ok /\ t.f.luma_weight_l0_flag[i] = 1
                  THEN t ++ sel("delta_luma_weight_l0") ++ sel("luma_offset_l0") ELSE t
        IN IF t1.ok /\ cat # 0 /\ t1.f.chroma_weight_l0_flag[i] = 1
           THEN LET a == t1 ++ se("chroma_weight")
                    b == a ++ se("chroma_offset")
                    c == b ++ se("chroma_weight")
                    d == c ++ se("chroma_offset")
                IN Push(Push(d, "delta_chroma_weight_l0", << a.x, c.x >>),
                        "delta_chroma_offset_l0", << b.x, d.x >>)
           ELSE t1, s4, Iota(n))

(* ----------------------------------- 7.3.6.1 slice_segment_header --------- *)
(* use: the elements of the sets in force that govern the segment              *)
SliceD ==
  [use |-> <<>>, nal_unit_type |-> 0, ChromaArrayType |-> 0,
   first_slice_segment_in_pic_flag |-> 0, no_output_of_prior_pics_flag |-> 0,
   slice_pic_parameter_set_id |-> 0, dependent_slice_segment_flag |-> 0,
   slice_segment_address |-> 0, slice_reserved_flag |-> <<>>, slice_type |-> 0,
   pic_output_flag |-> 0, colour_plane_id |-> 0, slice_pic_order_cnt_lsb |-> 0,
   short_term_ref_pic_set_sps_flag |-> 0, st_ref_pic_set |-> <<>>,
   short_term_ref_pic_set_idx |-> 0, num_long_term_sps |-> 0,
   num_long_term_pics |-> 0, lt_idx_sps |-> <<>>, poc_lsb_lt |-> <<>>,
   used_by_curr_pic_lt_flag |-> <<>>, delta_poc_msb_present_flag |-> <<>>,
   delta_poc_msb_cycle_lt |-> <<>>, slice_temporal_mvp_enabled_flag |-> 0,
   slice_sao_luma_flag |-> 0, slice_sao_chroma_flag |-> 0,
   num_ref_idx_active_override_flag |-> 0, num_ref_idx_l0_active_minus1 |-> 0,
   num_ref_idx_l1_active_minus1 |-> 0, mvd_l1_zero_flag |-> 0,
   cabac_init_flag |-> 0, collocated_from_l0_flag |-> 1, collocated_ref_idx |-> 0,
   pred_weight_table |-> <<>>, five_minus_max_num_merge_cand |-> 0,
   use_integer_mv_flag |-> 0, slice_qp_delta |-> 0, slice_cb_qp_offset |-> 0,
   slice_cr_qp_offset |-> 0, slice_act_y_qp_offset |-> 0,
   slice_act_cb_qp_offset |-> 0, slice_act_cr_qp_offset |-> 0,
   cu_chroma_qp_offset_enabled_flag |-> 0, deblocking_filter_override_flag |-> 0,
   slice_deblocking_filter_disabled_flag |-> 0, slice_beta_offset_div2 |-> 0,
   slice_tc_offset_div2 |-> 0, slice_loop_filter_across_slices_enabled_flag |-> 0,
   num_entry_point_offsets |-> 0, offset_len_minus1 |-> 0,
   entry_point_offset_minus1 |-> <<>>, slice_segment_header_extension_length |-> 0,
   slice_segment_header_extension_data_byte |-> <<>>]
SliceB == 0
SliceP == 1
IsIdr(nut)  == nut \in {19, 20}
IsIrap(nut) == nut \in 16..23
(* product of two words modulo 2^32, minus 1 (counts of tiles)                *)
RECURSIVE WMul(_, _)
WMul(a, b) == IF b = 0 THEN 0
              ELSE LET h == WMul(a, UHalf(b)) IN
                   IF b % 2 = 0 THEN WAdd(h, h) ELSE WAdd(WAdd(h, h), a)
MaxEntryPoints(sps, pps) ==
  LET cols == WAdd(pps.num_tile_columns_minus1, 1)
      rows == WAdd(pps.num_tile_rows_minus1, 1)
      hgt  == PicHeightInCtbsY(sps)
  IN IF pps.tiles_enabled_flag = 0 THEN hgt - 1
     ELSE IF pps.entropy_coding_sync_enabled_flag = 0 THEN WAdd(WMul(cols, rows), -1)
     ELSE WAdd(WMul(cols, hgt), -1)

(* the part between the slice address and the entry points, present in        *)
(* independent slice segments                                                 *)
SliceIndependentG(s0, nut, pps, sps) ==
  LET s1 == Row(s0, "slice_reserved_flag", pps.num_extra_slice_header_bits, 1)
               ++ uep("slice_type", 0, MaxU, <<0, 0, 1, 1, 2>>)
      s2 == IF pps.output_flag_present_flag = 1 THEN s1 ++ u("pic_output_flag", 1) ELSE s1
      s3 == IF sps.separate_colour_plane_flag = 1 THEN s2 ++ u("colour_plane_id", 2) ELSE s2
      poclen == sps.log2_max_pic_order_cnt_lsb_minus4 + 4
      nst == sps.num_short_term_ref_pic_sets
      nlt == sps.num_long_term_ref_pics_sps
      s4 == IF IsIdr(nut) THEN s3
            ELSE LET t1 == s3 ++ u("slice_pic_order_cnt_lsb", poclen)
                              ++ u("short_term_ref_pic_set_sps_flag", 1)
                     t2 == IF t1.f.short_term_ref_pic_set_sps_flag = 0
                           THEN Sub(t1, "st_ref_pic_set", StRpsD, LAMBDA v :
                                  StRpsG(v, nst, nst, sps.st_ref_pic_set, 15))
                           ELSE IF nst > 1
                           THEN t1 ++ u("short_term_ref_pic_set_idx", CeilLog2(nst))
                           ELSE t1
                     t3 == IF sps.long_term_ref_pics_present_flag = 1
                           THEN LET v1 == IF nlt > 0 THEN t2 ++ uec("num_long_term_sps", MaxU, 2) ELSE t2
                                    v2 == v1 ++ uec("num_long_term_pics", MaxU, 2)
                                    ns == v2.f.num_long_term_sps
                                    np == v2.f.num_long_term_pics
                                    msb(t) == LET q == t ++ ul("delta_poc_msb_present_flag", 1)
                                              IN IF q.x = 1 THEN q ++ uel("delta_poc_msb_cycle_lt") ELSE q
                                    v3 == Rep(v2, ns, LAMBDA t, i :
                                            msb(IF nlt > 1 THEN t ++ ul("lt_idx_sps", CeilLog2(nlt)) ELSE t))
                                IN Rep(v3, np, LAMBDA t, i :
                                     msb(t ++ ul("poc_lsb_lt", poclen)
                                           ++ ul("used_by_curr_pic_lt_flag", 1)))
                           ELSE t2
                 IN IF sps.sps_temporal_mvp_enabled_flag = 1
                    THEN t3 ++ u("slice_temporal_mvp_enabled_flag", 1) ELSE t3
      cat == IF sps.separate_colour_plane_flag = 1 THEN 0 ELSE sps.chroma_format_idc
      s5 == Set(s4, "ChromaArrayType", cat)
      s6 == IF sps.sample_adaptive_offset_enabled_flag = 1
            THEN LET t == s5 ++ u("slice_sao_luma_flag", 1)
                 IN IF cat # 0 THEN t ++ u("slice_sao_chroma_flag", 1) ELSE t
            ELSE s5
      st == s6.f.slice_type
      mvres == IF sps.sps_scc_extension_flag = 1 /\ sps.sps_scc_extension # <<>>
               THEN sps.sps_scc_extension[1].motion_vector_resolution_control_idc ELSE 0
      s7 == IF s6.ok /\ st \in {SliceB, SliceP}
            THEN LET t1 == s6 ++ u("num_ref_idx_active_override_flag", 1)
                     \* 7.4.7.1: inferred from the PPS when not present
                     t2 == Set(t1, "num_ref_idx_l0_active_minus1", pps.num_ref_idx_l0_default_active_minus1)
                     t3 == IF st = SliceB
                           THEN Set(t2, "num_ref_idx_l1_active_minus1", pps.num_ref_idx_l1_default_active_minus1)
                           ELSE t2
                     nri(nm) == uep(nm, 0, MaxU, <<0, 0, 1, 2, 3, 14>>)
                     t4 == IF t3.f.num_ref_idx_active_override_flag = 1
                           THEN LET v == t3 ++ nri("num_ref_idx_l0_active_minus1")
                                IN IF st = SliceB THEN v ++ nri("num_ref_idx_l1_active_minus1") ELSE v
                           ELSE t3
                     \* DEVIATION: ref_pic_lists_modification() is not read
                     t5 == IF st = SliceB THEN t4 ++ u("mvd_l1_zero_flag", 1) ELSE t4
                     t6 == IF pps.cabac_init_present_flag = 1 THEN t5 ++ u("cabac_init_flag", 1) ELSE t5
                     t7 == IF t6.f.slice_temporal_mvp_enabled_flag = 1
                           THEN LET v == IF st = SliceB THEN t6 ++ u("collocated_from_l0_flag", 1) ELSE t6
                                    many == IF v.f.collocated_from_l0_flag = 1
                                            THEN v.f.num_ref_idx_l0_active_minus1 # 0
                                            ELSE v.f.num_ref_idx_l1_active_minus1 # 0
                                IN IF many THEN v ++ ue("collocated_ref_idx") ELSE v
                           ELSE t6
                     t8 == IF (pps.weighted_pred_flag = 1 /\ st = SliceP)
                              \/ (pps.weighted_bipred_flag = 1 /\ st = SliceB)
                           THEN Sub(t7, "pred_weight_table", PwtD, LAMBDA v :
                                  PwtG(v, cat, t7.f.num_ref_idx_l0_active_minus1))
                           ELSE t7
                     t9 == t8 ++ ue("five_minus_max_num_merge_cand")
                 IN IF mvres = 2 THEN t9 ++ u("use_integer_mv_flag", 1) ELSE t9
            ELSE s6
      s8 == s7 ++ se("slice_qp_delta")
      s9 == IF pps.pps_slice_chroma_qp_offsets_present_flag = 1
            THEN s8 ++ se("slice_cb_qp_offset") ++ se("slice_cr_qp_offset") ELSE s8
      act == pps.pps_scc_extension_flag = 1 /\ pps.pps_scc_extension # <<>>
             /\ pps.pps_scc_extension[1].pps_slice_act_qp_offsets_present_flag = 1
      s10 == IF act THEN s9 ++ se("slice_act_y_qp_offset") ++ se("slice_act_cb_qp_offset")
                            ++ se("slice_act_cr_qp_offset") ELSE s9
      s11 == IF pps.deblocking_filter_override_enabled_flag = 1
             THEN s10 ++ u("deblocking_filter_override_flag", 1) ELSE s10
      \* 7.4.7.1: inferred from the PPS when not present
      s12 == Set(s11, "slice_deblocking_filter_disabled_flag", pps.pps_deblocking_filter_disabled_flag)
      s13 == IF s12.f.deblocking_filter_override_flag = 1
             THEN LET t == s12 ++ u("slice_deblocking_filter_disabled_flag", 1)
                  IN IF t.f.slice_deblocking_filter_disabled_flag = 0
                     THEN t ++ se("slice_beta_offset_div2") ++ se("slice_tc_offset_div2") ELSE t
             ELSE s12
  IN IF pps.pps_loop_filter_across_slices_enabled_flag = 1
        /\ (s13.f.slice_sao_luma_flag = 1 \/ s13.f.slice_sao_chroma_flag = 1
            \/ s13.f.slice_deblocking_filter_disabled_flag = 0)
     THEN s13 ++ u("slice_loop_filter_across_slices_enabled_flag", 1) ELSE s13

InForce(sps, pps) ==
  [num_short_term_ref_pic_sets |-> sps.num_short_term_ref_pic_sets,
   long_term_ref_pics_present_flag |-> sps.long_term_ref_pics_present_flag,
   num_long_term_ref_pics_sps |-> sps.num_long_term_ref_pics_sps,
   sps_temporal_mvp_enabled_flag |-> sps.sps_temporal_mvp_enabled_flag,
   sample_adaptive_offset_enabled_flag |-> sps.sample_adaptive_offset_enabled_flag,
   motion_vector_resolution_control_idc |->
      IF sps.sps_scc_extension_flag = 1 /\ sps.sps_scc_extension # <<>>
      THEN sps.sps_scc_extension[1].motion_vector_resolution_control_idc ELSE 0,
   cabac_init_present_flag |-> pps.cabac_init_present_flag,
   weighted_pred_flag |-> pps.weighted_pred_flag,
   weighted_bipred_flag |-> pps.weighted_bipred_flag,
   pps_slice_chroma_qp_offsets_present_flag |-> pps.pps_slice_chroma_qp_offsets_present_flag,
   pps_slice_act_qp_offsets_present_flag |->
      IF pps.pps_scc_extension_flag = 1 /\ pps.pps_scc_extension # <<>>
      THEN pps.pps_scc_extension[1].pps_slice_act_qp_offsets_present_flag ELSE 0,
   deblocking_filter_override_enabled_flag |-> pps.deblocking_filter_override_enabled_flag,
   pps_loop_filter_across_slices_enabled_flag |-> pps.pps_loop_filter_across_slices_enabled_flag,
   tiles_enabled_flag |-> pps.tiles_enabled_flag,
   entropy_coding_sync_enabled_flag |-> pps.entropy_coding_sync_enabled_flag,
   slice_segment_header_extension_present_flag |-> pps.slice_segment_header_extension_present_flag]
(* ppss, spss: functions from ids to parsed sets                               *)
(* ids: PPS ids the generator may name (those in force)                        *)
SliceG(s0, nut, ppss, spss) ==
  LET s1 == Set(s0, "nal_unit_type", nut) ++ u("first_slice_segment_in_pic_flag", 1)
      s2 == IF IsIrap(nut) THEN s1 ++ u("no_output_of_prior_pics_flag", 1) ELSE s1
      s3 == s2 ++ uep("slice_pic_parameter_set_id", 0, MaxU, SetToSeq(DOMAIN ppss))
      pid == s3.f.slice_pic_parameter_set_id
  IN IF ~s3.ok THEN s3
     ELSE IF pid \notin DOMAIN ppss THEN Fail(s3)
     ELSE IF ppss[pid].pps_seq_parameter_set_id \notin DOMAIN spss THEN Fail(s3)
     ELSE LET pps == ppss[pid]
              sps == spss[pps.pps_seq_parameter_set_id]
              alen == CeilLog2(PicSizeInCtbsY(sps))
              s3u == Set(s3, "use", << InForce(sps, pps) >>)
              s4 == IF s3.f.first_slice_segment_in_pic_flag = 0
                    THEN LET t == IF pps.dependent_slice_segments_enabled_flag = 1
                                  THEN s3u ++ u("dependent_slice_segment_flag", 1) ELSE s3u
                         IN IF t.ok /\ alen = 0 THEN Fail(t)
                            ELSE t ++ u("slice_segment_address", alen)
                    ELSE s3u
              s5 == IF s4.f.dependent_slice_segment_flag = 0
                    THEN SliceIndependentG(s4, nut, pps, sps) ELSE s4
              mx == MaxEntryPoints(sps, pps)
              s6 == IF pps.tiles_enabled_flag = 1 \/ pps.entropy_coding_sync_enabled_flag = 1
                    THEN LET t == s5 ++ uec("num_entry_point_offsets", mx,
                                            IF mx >= 0 THEN Min2(mx, 4) ELSE 4)
                         IN IF t.f.num_entry_point_offsets # 0
                            THEN LET v == t ++ uer("offset_len_minus1", 0, 31)
                                 IN Row(v, "entry_point_offset_minus1",
                                        v.f.num_entry_point_offsets, v.f.offset_len_minus1 + 1)
                            ELSE t
                    ELSE s5
          IN IF pps.slice_segment_header_extension_present_flag = 1
             THEN LET t == s6 ++ uec("slice_segment_header_extension_length", MaxU, 5)
                  IN Row(t, "slice_segment_header_extension_data_byte",
                         t.f.slice_segment_header_extension_length, 8)
             ELSE s6

(* ------------------------------------------------ 7.3.5 / annex D SEI ----- *)
SeiT35D == [kind |-> "t35", itu_t_t35_country_code |-> 0,
            itu_t_t35_country_code_extension_byte |-> 0, payload |-> <<>>]
SeiT35G(s0, size) ==
  LET s1 == Require(s0, size # 0) ++ up("itu_t_t35_country_code", 8, <<0, 181, 254, 255>>)
      ext == s1.f.itu_t_t35_country_code = 255
      s2 == IF ext THEN Require(s1, size # 1) ++ u("itu_t_t35_country_code_extension_byte", 8) ELSE s1
  IN IF s2.ok THEN Row(s2, "payload", WAdd(size, IF ext THEN -2 ELSE -1), 8) ELSE s2
SeiUnregD == [kind |-> "unregistered", uuid_iso_iec_11578_1 |-> <<0, 0>>,
              uuid_iso_iec_11578_2 |-> <<0, 0>>, payload |-> <<>>]
SeiUnregG(s0, size) ==
  LET s1 == Require(s0, ULE(16, size)) ++ uw("uuid_iso_iec_11578_1", 64) ++ uw("uuid_iso_iec_11578_2", 64)
  IN IF s1.ok THEN Row(s1, "payload", WAdd(size, -16), 8) ELSE s1
SeiAlphaD == [kind |-> "alpha", alpha_channel_cancel_flag |-> 0, alpha_channel_use_idc |-> 0,
   alpha_channel_bit_depth_minus8 |-> 0, alpha_transparent_value |-> 0,
   alpha_opaque_value |-> 0, alpha_channel_incr_flag |-> 0,
   alpha_channel_clip_flag |-> 0, alpha_channel_clip_type_flag |-> 0]
SeiAlphaG(s0, size) ==
  LET s1 == s0 ++ u("alpha_channel_cancel_flag", 1)
  IN IF s1.f.alpha_channel_cancel_flag = 1 THEN s1
     ELSE LET s2 == s1 ++ u("alpha_channel_use_idc", 3) ++ u("alpha_channel_bit_depth_minus8", 3)
              w  == s2.f.alpha_channel_bit_depth_minus8 + 9
              s3 == s2 ++ u("alpha_transparent_value", w) ++ u("alpha_opaque_value", w)
                       ++ u("alpha_channel_incr_flag", 1) ++ u("alpha_channel_clip_flag", 1)
          IN IF s3.f.alpha_channel_clip_flag = 1 THEN s3 ++ u("alpha_channel_clip_type_flag", 1) ELSE s3
SeiMdcvD == [kind |-> "mdcv", display_primaries_x |-> <<>>, display_primaries_y |-> <<>>,
   white_point_x |-> 0, white_point_y |-> 0, max_display_mastering_luminance |-> 0,
   min_display_mastering_luminance |-> 0]
SeiMdcvG(s0, size) ==
  Rep(s0, 3, LAMBDA t, i : t ++ ul("display_primaries_x", 16) ++ ul("display_primaries_y", 16))
    ++ u("white_point_x", 16) ++ u("white_point_y", 16)
    ++ u("max_display_mastering_luminance", 32) ++ u("min_display_mastering_luminance", 32)
SeiClliD == [kind |-> "clli", max_content_light_level |-> 0, max_pic_average_light_level |-> 0]
SeiClliG(s0, size) == s0 ++ u("max_content_light_level", 16) ++ u("max_pic_average_light_level", 16)
SeiKneeD == [kind |-> "knee", knee_function_id |-> 0, knee_function_cancel_flag |-> 0,
   knee_function_persistence_flag |-> 0, input_d_range |-> 0, input_disp_luminance |-> 0,
   output_d_range |-> 0, output_disp_luminance |-> 0, num_knee_points_minus1 |-> 0,
   input_knee_point |-> <<>>, output_knee_point |-> <<>>]
SeiKneeG(s0, size) ==
  LET s1 == s0 ++ ue("knee_function_id") ++ u("knee_function_cancel_flag", 1)
  IN IF s1.f.knee_function_cancel_flag = 1 THEN s1
     ELSE LET s2 == s1 ++ u("knee_function_persistence_flag", 1) ++ u("input_d_range", 32)
                       ++ u("input_disp_luminance", 32) ++ u("output_d_range", 32)
                       ++ u("output_disp_luminance", 32) ++ uec("num_knee_points_minus1", MaxU, 5)
          IN Rep(s2, WAdd(s2.f.num_knee_points_minus1, 1), LAMBDA t, i :
               t ++ ul("input_knee_point", 10) ++ ul("output_knee_point", 10))
SeiRemapD == [kind |-> "remap", colour_remap_id |-> 0, colour_remap_cancel_flag |-> 0,
   colour_remap_persistence_flag |-> 0, colour_remap_video_signal_info_present_flag |-> 0,
   colour_remap_full_range_flag |-> 0, colour_remap_primaries |-> 0,
   colour_remap_transfer_function |-> 0, colour_remap_matrix_coefficients |-> 0,
   colour_remap_input_bit_depth |-> 0, colour_remap_output_bit_depth |-> 0,
   pre_lut_num_val_minus1 |-> <<0, 0, 0>>, pre_lut_coded_value |-> <<>>,
   pre_lut_target_value |-> <<>>, colour_remap_matrix_present_flag |-> 0,
   log2_matrix_denom |-> 0, colour_remap_coeffs |-> <<>>,
   post_lut_num_val_minus1 |-> <<0, 0, 0>>, post_lut_coded_value |-> <<>>,
   post_lut_target_value |-> <<>>]
Evens(q) == [i \in 1..(Len(q) \div 2) |-> q[2 * i]]
Odds(q)  == [i \in 1..((Len(q) + 1) \div 2) |-> q[2 * i - 1]]
(* three look-up tables; w: bits of an entry *)
LutG(s0, nnum, ncoded, ntarget, w) ==
  FoldLeft(LAMBDA t, c :
     LET t1 == t ++ up("", 8, <<0, 1, 2, 3>>)
         n  == t1.x
         t2 == IF t1.ok THEN [t1 EXCEPT !.f = [@ EXCEPT ![nnum] = [@ EXCEPT ![c] = n]]] ELSE t1
     IN IF ~t2.ok THEN t2
        ELSE LET r == IF n > 0 THEN RowRaw(t2, 2 * (n + 1), w) ELSE << t2, <<>> >>
             IN Push(Push(r[1], ncoded, Odds(r[2])), ntarget, Evens(r[2])),
     s0, <<1, 2, 3>>)
SeiRemapG(s0, size) ==
  LET s1 == s0 ++ ue("colour_remap_id") ++ u("colour_remap_cancel_flag", 1)
  IN IF s1.f.colour_remap_cancel_flag = 1 THEN s1
     ELSE LET s2 == s1 ++ u("colour_remap_persistence_flag", 1)
                       ++ u("colour_remap_video_signal_info_present_flag", 1)
              s3 == IF s2.f.colour_remap_video_signal_info_present_flag = 1
                    THEN s2 ++ u("colour_remap_full_range_flag", 1) ++ u("colour_remap_primaries", 8)
                            ++ u("colour_remap_transfer_function", 8)
                            ++ u("colour_remap_matrix_coefficients", 8)
                    ELSE s2
              s4 == s3 ++ up("colour_remap_input_bit_depth", 8, <<1, 8, 9, 10, 16, 17, 24, 32, 33>>)
                       ++ up("colour_remap_output_bit_depth", 8, <<1, 8, 9, 10, 16, 17, 24, 32, 33>>)
              s5 == Require(s4, s4.f.colour_remap_input_bit_depth # 0
                                /\ s4.f.colour_remap_output_bit_depth # 0)
              wid(b) == ((b + 7) \div 8) * 8
              s6 == LutG(s5, "pre_lut_num_val_minus1", "pre_lut_coded_value",
                         "pre_lut_target_value", wid(s5.f.colour_remap_input_bit_depth))
                       ++ u("colour_remap_matrix_present_flag", 1)
              s7 == IF s6.f.colour_remap_matrix_present_flag = 1
                    THEN Rep(s6 ++ u("log2_matrix_denom", 4), 3, LAMBDA t, c :
                           LET a == t ++ se("remap_coeff")
                               b == a ++ se("remap_coeff")
                               d == b ++ se("remap_coeff")
                           IN Push(d, "colour_remap_coeffs", << a.x, b.x, d.x >>))
                    ELSE s6
          IN LutG(s7, "post_lut_num_val_minus1", "post_lut_coded_value",
                  "post_lut_target_value", wid(s7.f.colour_remap_output_bit_depth))
SeiCcvD == [kind |-> "ccv", ccv_cancel_flag |-> 0, ccv_persistence_flag |-> 0,
   ccv_primaries_present_flag |-> 0, ccv_min_luminance_value_present_flag |-> 0,
   ccv_max_luminance_value_present_flag |-> 0, ccv_avg_luminance_value_present_flag |-> 0,
   ccv_reserved_zero_2bits |-> 0, ccv_primaries_x |-> <<0, 0, 0>>,
   ccv_primaries_y |-> <<0, 0, 0>>, ccv_min_luminance_value |-> 0,
   ccv_max_luminance_value |-> 0, ccv_avg_luminance_value |-> 0]
SeiCcvG(s0, size) ==
  LET s1 == s0 ++ u("ccv_cancel_flag", 1)
  IN IF s1.f.ccv_cancel_flag = 1 THEN s1
     ELSE LET s2 == s1 ++ u("ccv_persistence_flag", 1) ++ u("ccv_primaries_present_flag", 1)
                       ++ u("ccv_min_luminance_value_present_flag", 1)
                       ++ u("ccv_max_luminance_value_present_flag", 1)
                       ++ u("ccv_avg_luminance_value_present_flag", 1)
                       ++ u("ccv_reserved_zero_2bits", 2)
              s3 == IF s2.ok /\ s2.f.ccv_primaries_present_flag = 1
                    THEN LET r == RowRaw(s2, 6, 32) IN
                         Set(Set(r[1], "ccv_primaries_x", Odds(r[2])), "ccv_primaries_y", Evens(r[2]))
                    ELSE s2
              s4 == IF s3.f.ccv_min_luminance_value_present_flag = 1 THEN s3 ++ u("ccv_min_luminance_value", 32) ELSE s3
              s5 == IF s4.f.ccv_max_luminance_value_present_flag = 1 THEN s4 ++ u("ccv_max_luminance_value", 32) ELSE s4
          IN IF s5.f.ccv_avg_luminance_value_present_flag = 1 THEN s5 ++ u("ccv_avg_luminance_value", 32) ELSE s5
SeiAtcD == [kind |-> "atc", preferred_transfer_characteristics |-> 0]
SeiAtcG(s0, size) == s0 ++ u("preferred_transfer_characteristics", 8)
SeiAveD == [kind |-> "ave", ambient_illuminance |-> 0, ambient_light_x |-> 0, ambient_light_y |-> 0]
SeiAveG(s0, size) == s0 ++ u("ambient_illuminance", 32) ++ u("ambient_light_x", 16) ++ u("ambient_light_y", 16)
SeiUnknownD == [kind |-> "unknown", payload |-> <<>>]
SeiUnknownG(s0, size) ==
  LET s1 == Require(s0, size # 0) IN IF s1.ok THEN Row(s1, "payload", size, 8) ELSE s1

SeiPayloadD(type) ==
  CASE type = 4 -> SeiT35D [] type = 5 -> SeiUnregD [] type = 137 -> SeiMdcvD
    [] type = 141 -> SeiKneeD [] type = 142 -> SeiRemapD [] type = 144 -> SeiClliD
    [] type = 147 -> SeiAtcD [] type = 148 -> SeiAveD [] type = 149 -> SeiCcvD
    [] type = 165 -> SeiAlphaD [] OTHER -> SeiUnknownD
SeiPayloadG(s, type, size) ==
  CASE type = 4 -> SeiT35G(s, size) [] type = 5 -> SeiUnregG(s, size)
    [] type = 137 -> SeiMdcvG(s, size) [] type = 141 -> SeiKneeG(s, size)
    [] type = 142 -> SeiRemapG(s, size) [] type = 144 -> SeiClliG(s, size)
    [] type = 147 -> SeiAtcG(s, size) [] type = 148 -> SeiAveG(s, size)
    [] type = 149 -> SeiCcvG(s, size) [] type = 165 -> SeiAlphaG(s, size)
    [] OTHER -> SeiUnknownG(s, size)

SeiD == [payload_type |-> 0, payload_size |-> 0, payload_state |-> <<>>]
(* sum of bytes up to and including the first that is not 0xFF                 *)
RECURSIVE FFSum(_, _)
FFSum(s, acc) ==
  IF ~s.ok THEN s
  ELSE LET t == s ++ u("", 8)
       IN IF ~t.ok THEN t
          ELSE IF t.x = 255 THEN FFSum(t, acc + 255) ELSE [t EXCEPT !.x = acc + t.x]
(* parse mode only.  A payload that does not parse leaves the message.         *)
SeiParse(s0) ==
  LET s1 == FFSum(s0, 0)
      s2 == Set(s1, "payload_type", s1.x)
      s3 == FFSum(s2, 0)
      s4 == Set(s3, "payload_size", s3.x)
  IN IF ~s4.ok THEN s4
     ELSE LET type == s4.f.payload_type
              size == s4.f.payload_size
              t == SeiPayloadG([s4 EXCEPT !.f = SeiPayloadD(type)], type, size)
          IN IF t.ok THEN [s4 EXCEPT !.p = t.p, !.f = [@ EXCEPT !.payload_state = << t.f >>]]
             ELSE s4
=============================================================================
