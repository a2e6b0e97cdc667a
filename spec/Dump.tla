---------------------------------- MODULE Dump ----------------------------------
(* What is printed: names, the text of dumps as a sequence of words, and the   *)
(* output of the command-line tool.                                            *)
EXTENDS Nal

ProfileName(v) ==
  CASE v = 0 -> "Unspecified" [] v = 1 -> "Main" [] v = 2 -> "Main 10" [] v = 3 -> "Main Still Picture"
    [] v = 4 -> "FRExt" [] v = 5 -> "High Throughput" [] v = 6 -> "Multiview Main" [] v = 7 -> "Scalable" [] v = 8 -> "3D-Main"
    [] v = 9 -> "Screen-Extended" [] v = 10 -> "Multilayer (Annex F)"
    [] v = 11 -> "Screen-Extended High-Throughput" [] v = 12 -> "Multiview Extended"
    [] v = 13 -> "Multiview Extended 10" [] v = 100 -> "Main 10 Still Picture"
    [] v = 101 -> "Monochrome (8-bit)" [] v = 102 -> "Monochrome (10-bit)"
    [] v = 103 -> "Monochrome (12-bit)" [] v = 104 -> "Monochrome (16-bit)"
    [] v = 105 -> "Main 12" [] v = 106 -> "Main 4:2:2 10" [] v = 107 -> "Main 4:2:2 12"
    [] v = 108 -> "Main 4:4:4" [] v = 109 -> "Main 4:4:4 10" [] v = 110 -> "Main 4:4:4 12"
    [] v = 111 -> "Main Intra" [] v = 112 -> "Main 10 Intra" [] v = 113 -> "Main 12 Intra"
    [] v = 114 -> "Main 4:2:2 10 Intra" [] v = 115 -> "Main 4:2:2 12 Intra"
    [] v = 116 -> "Main 4:4:4 Intra" [] v = 117 -> "Main 4:4:4 10 Intra"
    [] v = 118 -> "Main 4:4:4 12 Intra" [] v = 119 -> "Main 4:4:4 16 Intra"
    [] v = 120 -> "Main 4:4:4 Still Picture" [] v = 121 -> "Main 4:4:4 16 Still Picture"
    [] v = 122 -> "High Throughput 4:4:4" [] v = 123 -> "High Throughput 4:4:4 10"
    [] v = 124 -> "High Throughput 4:4:4 14" [] v = 125 -> "High Throughput 4:4:4 16 Intra"
    [] v = 126 -> "Scalable Main" [] v = 127 -> "Scalable Main 10"
    [] v = 128 -> "Screen-Extended Main" [] v = 129 -> "Screen-Extended Main 10"
    [] v = 130 -> "Screen-Extended Main 4:4:4" [] v = 131 -> "Screen-Extended Main 4:4:4 10"
    [] v = 132 -> "Screen-Extended High Throughput 4:4:4"
    [] v = 133 -> "Screen-Extended High Throughput 4:4:4 10"
    [] v = 134 -> "Screen-Extended High Throughput 4:4:4 14"
    [] v = 150 -> "Monochrome (8-bit) Still Picture"
    [] v = 151 -> "Monochrome (10-bit) Still Picture"
    [] v = 152 -> "Main (8-bit) 4:4:4 Still Picture"
    [] OTHER -> "Unknown"

(* ------------------------------------------------------------------ numbers *)
RECURSIVE UStr(_), WideStr(_, _, _), Pad(_, _)
Digit(k) == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>[k + 1]
(* the halves of a word                                                        *)
TokHi(v) == IF v >= 0 THEN v \div 65536 ELSE 65536 + (v \div 65536)
TokLo(v) == v % 65536
(* a word, as an unsigned number: 2^32 = 10 * 429496729 + 6                     *)
UStr(v) == IF v >= 0 THEN ToString(v)
           ELSE UStr(429496729 + ((v + 6) \div 10)) \o Digit((((v % 10) + 6) % 10))
SStr(v) == ToString(v)
Pad(t, n) == IF Len(t) >= n THEN t ELSE Pad("0" \o t, n)
(* << high, low >> words as one decimal number, in limbs of 16 bits            *)
Limbs(v) == << TokHi(v[1]), TokLo(v[1]), TokHi(v[2]), TokLo(v[2]) >>
Div10(l) == \* << quotient, remainder >>
  LET a == l[1] \div 10  ra == l[1] % 10
      b == (ra * 65536 + l[2]) \div 10  rb == (ra * 65536 + l[2]) % 10
      c == (rb * 65536 + l[3]) \div 10  rc == (rb * 65536 + l[3]) % 10
      d == (rc * 65536 + l[4]) \div 10  rd == (rc * 65536 + l[4]) % 10
  IN << << a, b, c, d >>, rd >>
WideStr(l, n, acc) ==
  LET q == Div10(l) t == Digit(q[2]) \o acc
  IN IF q[1] = << 0, 0, 0, 0 >> THEN t ELSE WideStr(q[1], n, t)
WStr(v) == WideStr(Limbs(v), 0, "")
(* v / 10^k, with all k decimals                                                *)
FixStr(t, k) == LET p == Pad(t, k + 1) IN SubSeq(p, 1, Len(p) - k) \o "." \o SubSeq(p, Len(p) - k + 1, Len(p))
HexW(v) == Hex4(TokHi(v)) \o Hex4(TokLo(v))

(* ------------------------------------------------------------------- phrases *)
U(r, names) == Flatten([k \in 1..Len(names) |-> << names[k] \o ":", UStr(r[names[k]]) >>])
I(r, names) == Flatten([k \in 1..Len(names) |-> << names[k] \o ":", SStr(r[names[k]]) >>])
UL(r, names) == Flatten([k \in 1..Len(names) |->
   << names[k], "{" >> \o [j \in 1..Len(r[names[k]]) |-> UStr(r[names[k]][j])] \o << "}" >>])
IL(r, names) == Flatten([k \in 1..Len(names) |->
   << names[k], "{" >> \o [j \in 1..Len(r[names[k]]) |-> SStr(r[names[k]][j])] \o << "}" >>])
Braced(q) == << "{" >> \o q \o << "}" >>
Words(q) == [j \in 1..Len(q) |-> UStr(q[j])]
SWords(q) == [j \in 1..Len(q) |-> SStr(q[j])]
ULL(r, nm) == << nm >> \o Braced(Flatten([k \in 1..Len(r[nm]) |-> Braced(Words(r[nm][k]))]))
ILL(r, nm) == << nm >> \o Braced(Flatten([k \in 1..Len(r[nm]) |-> Braced(SWords(r[nm][k]))]))
When(c, q) == IF c THEN q ELSE <<>>
Blk(nm, q) == << nm, "{" >> \o q \o << "}" >>
Each(q, D(_)) == Flatten([k \in 1..Len(q) |-> D(q[k])])

(* ---------------------------------------------------------------- structures *)
HdrW(r) == Blk("nal_unit_header", U(r, << "forbidden_zero_bit", "nal_unit_type", "nuh_layer_id", "nuh_temporal_id_plus1" >>))
AudW(r) == Blk("aud", U(r, << "pic_type" >>))
RECURSIVE SplitW(_, _, _)
\* a name printed as several words
SplitW(t, i, acc) == IF i > Len(t) THEN << acc >>
  ELSE IF SubSeq(t, i, i) = " " THEN << acc >> \o SplitW(t, i + 1, "") ELSE SplitW(t, i + 1, acc \o SubSeq(t, i, i))
ProfW(r) ==
  U(r, << "profile_space", "tier_flag", "profile_idc" >>) \o UL(r, << "profile_compatibility_flag" >>)
  \o << "profile:" >> \o SplitW(ProfileName(r.profile_type), 1, "")
  \o U(r, << "progressive_source_flag", "interlaced_source_flag", "non_packed_constraint_flag",
     "frame_only_constraint_flag", "max_12bit_constraint_flag", "max_10bit_constraint_flag", "max_8bit_constraint_flag",
     "max_422chroma_constraint_flag", "max_420chroma_constraint_flag", "max_monochrome_constraint_flag",
     "intra_constraint_flag", "one_picture_only_constraint_flag", "lower_bit_rate_constraint_flag",
     "max_14bit_constraint_flag" >>)
  \o << "reserved_zero_33bits:", WStr(r.reserved_zero_33bits), "reserved_zero_34bits:", WStr(r.reserved_zero_34bits),
        "reserved_zero_7bits:", UStr(r.reserved_zero_7bits), "reserved_zero_35bits:", WStr(r.reserved_zero_35bits),
        "reserved_zero_43bits:", WStr(r.reserved_zero_43bits) >>
  \o U(r, << "inbld_flag", "reserved_zero_bit" >>)
PtlW(r) == Blk("profile_tier_level",
  When(r.profilePresentFlag # 0, Each(r.general, LAMBDA x : Blk("general", ProfW(x))))
  \o U(r, << "general_level_idc" >>) \o UL(r, << "sub_layer_profile_present_flag", "sub_layer_level_present_flag" >>)
  \o When(r.maxNumSubLayersMinus1 # 0,
       UL(r, << "reserved_zero_2bits" >>) \o Each(r.sub_layer, LAMBDA x : Blk("sub_layer", ProfW(x)))
       \o UL(r, << "sub_layer_level_idc" >>)))
SubLayerHrdW(r) == Blk("sub_layer_hrd_parameters", UL(r, << "bit_rate_value_minus1", "cpb_size_value_minus1",
  "cpb_size_du_value_minus1", "bit_rate_du_value_minus1", "cbr_flag" >>))
HrdW(r) == Blk("hrd_parameters",
  When(r.commonInfPresentFlag # 0,
    U(r, << "nal_hrd_parameters_present_flag", "vcl_hrd_parameters_present_flag" >>)
    \o When(r.nal_hrd_parameters_present_flag # 0 \/ r.vcl_hrd_parameters_present_flag # 0,
         U(r, << "sub_pic_hrd_params_present_flag" >>)
         \o When(r.sub_pic_hrd_params_present_flag # 0, U(r, << "tick_divisor_minus2",
              "du_cpb_removal_delay_increment_length_minus1", "sub_pic_cpb_params_in_pic_timing_sei_flag",
              "dpb_output_delay_du_length_minus1" >>))
         \o U(r, << "bit_rate_scale", "cpb_size_scale" >>)
         \o When(r.sub_pic_hrd_params_present_flag # 0, U(r, << "cpb_size_du_scale" >>))
         \o U(r, << "initial_cpb_removal_delay_length_minus1", "au_cpb_removal_delay_length_minus1",
                    "dpb_output_delay_length_minus1" >>)))
  \o UL(r, << "fixed_pic_rate_general_flag", "fixed_pic_rate_within_cvs_flag", "elemental_duration_in_tc_minus1",
              "low_delay_hrd_flag", "cpb_cnt_minus1" >>)
  \o When(r.nal_hrd_parameters_present_flag # 0 \/ r.vcl_hrd_parameters_present_flag # 0,
       Blk("sub_layer_hrd_parameters_vector", Each(r.sub_layer_hrd_parameters_vector, SubLayerHrdW))))
VpsW(r) == Blk("vps",
  U(r, << "vps_video_parameter_set_id", "vps_base_layer_internal_flag", "vps_base_layer_available_flag",
     "vps_max_layers_minus1", "vps_max_sub_layers_minus1", "vps_temporal_id_nesting_flag" >>)
  \o << "vps_reserved_0xffff_16bits:", "0x" \o Hex4(r.vps_reserved_0xffff_16bits) >>
  \o Each(r.profile_tier_level, PtlW)
  \o U(r, << "vps_sub_layer_ordering_info_present_flag" >>)
  \o UL(r, << "vps_max_dec_pic_buffering_minus1", "vps_max_num_reorder_pics", "vps_max_latency_increase_plus1" >>)
  \o U(r, << "vps_max_layer_id", "vps_num_layer_sets_minus1" >>) \o ULL(r, "layer_id_included_flag")
  \o U(r, << "vps_timing_info_present_flag", "vps_num_units_in_tick", "vps_time_scale",
     "vps_poc_proportional_to_timing_flag", "vps_num_ticks_poc_diff_one_minus1", "vps_num_hrd_parameters" >>)
  \o When(r.vps_num_hrd_parameters # 0,
       UL(r, << "hrd_layer_set_idx", "cprms_present_flag" >>) \o Each(r.hrd_parameters, HrdW))
  \o U(r, << "vps_extension_flag", "vps_extension_data_flag" >>))
VuiW(r) == Blk("vui_parameters",
  U(r, << "aspect_ratio_info_present_flag" >>)
  \o When(r.aspect_ratio_info_present_flag # 0, U(r, << "aspect_ratio_idc" >>)
       \o When(r.aspect_ratio_idc = 255, U(r, << "sar_width", "sar_height" >>)))
  \o U(r, << "overscan_info_present_flag" >>)
  \o When(r.overscan_info_present_flag # 0, U(r, << "overscan_appropriate_flag" >>))
  \o U(r, << "video_signal_type_present_flag" >>)
  \o When(r.video_signal_type_present_flag # 0,
       U(r, << "video_format", "video_full_range_flag", "colour_description_present_flag" >>)
       \o When(r.colour_description_present_flag # 0,
            U(r, << "colour_primaries", "transfer_characteristics", "matrix_coeffs" >>)))
  \o U(r, << "chroma_loc_info_present_flag" >>)
  \o When(r.chroma_loc_info_present_flag # 0,
       U(r, << "chroma_sample_loc_type_top_field", "chroma_sample_loc_type_bottom_field" >>))
  \o U(r, << "neutral_chroma_indication_flag", "field_seq_flag", "frame_field_info_present_flag",
             "default_display_window_flag" >>)
  \o When(r.default_display_window_flag # 0, U(r, << "def_disp_win_left_offset", "def_disp_win_right_offset",
             "def_disp_win_top_offset", "def_disp_win_bottom_offset" >>))
  \o U(r, << "vui_timing_info_present_flag" >>)
  \o When(r.vui_timing_info_present_flag # 0,
       U(r, << "vui_num_units_in_tick", "vui_time_scale", "vui_poc_proportional_to_timing_flag" >>)
       \o When(r.vui_poc_proportional_to_timing_flag # 0, U(r, << "vui_num_ticks_poc_diff_one_minus1" >>))
       \o U(r, << "vui_hrd_parameters_present_flag" >>)
       \o When(r.vui_hrd_parameters_present_flag # 0, Each(r.hrd_parameters, HrdW)))
  \o U(r, << "bitstream_restriction_flag" >>)
  \o When(r.bitstream_restriction_flag # 0, U(r, << "tiles_fixed_structure_flag",
       "motion_vectors_over_pic_boundaries_flag", "restricted_ref_pic_lists_flag", "min_spatial_segmentation_idc",
       "max_bytes_per_pic_denom", "max_bits_per_min_cu_denom", "log2_max_mv_length_horizontal",
       "log2_max_mv_length_vertical" >>)))
ScalingW(r) == Blk("scaling_list_data",
  ULL(r, "scaling_list_pred_mode_flag") \o ULL(r, "scaling_list_pred_matrix_id_delta")
  \o ILL(r, "scaling_list_dc_coef_minus8")
  \o << "ScalingList" >> \o Braced(Flatten([z \in 1..Len(r.ScalingList) |->
       Braced(Flatten([m \in 1..Len(r.ScalingList[z]) |-> Braced(Words(r.ScalingList[z][m]))]))])))
StRpsW(r) == Blk("st_ref_pic_set",
  When(r.stRpsIdx # 0, U(r, << "inter_ref_pic_set_prediction_flag" >>))
  \o (IF r.inter_ref_pic_set_prediction_flag # 0
      THEN When(r.stRpsIdx = r.num_short_term_ref_pic_sets, U(r, << "delta_idx_minus1" >>))
           \o U(r, << "delta_rps_sign", "abs_delta_rps_minus1" >>) \o UL(r, << "used_by_curr_pic_flag", "use_delta_flag" >>)
      ELSE U(r, << "num_negative_pics", "num_positive_pics" >>)
           \o UL(r, << "delta_poc_s0_minus1", "used_by_curr_pic_s0_flag", "delta_poc_s1_minus1", "used_by_curr_pic_s1_flag" >>)))
SpsRangeW(r) == Blk("sps_range_extension", U(r, << "transform_skip_rotation_enabled_flag",
  "transform_skip_context_enabled_flag", "implicit_rdpcm_enabled_flag", "explicit_rdpcm_enabled_flag",
  "extended_precision_processing_flag", "intra_smoothing_disabled_flag", "high_precision_offsets_enabled_flag",
  "persistent_rice_adaptation_enabled_flag", "cabac_bypass_alignment_enabled_flag" >>))
SpsMlW(r) == Blk("sps_multilayer_extension", U(r, << "inter_view_mv_vert_constraint_flag" >>))
Sps3dW(r) == Blk("sps_3d_extension", UL(r, << "iv_di_mc_enabled_flag", "iv_mv_scal_enabled_flag" >>)
  \o U(r, << "log2_ivmc_sub_pb_size_minus3", "iv_res_pred_enabled_flag", "depth_ref_enabled_flag", "vsp_mc_enabled_flag",
     "dbbp_enabled_flag", "tex_mc_enabled_flag", "log2_texmc_sub_pb_size_minus3", "intra_contour_enabled_flag",
     "intra_dc_only_wedge_enabled_flag", "cqt_cu_part_pred_enabled_flag", "inter_dc_only_enabled_flag",
     "skip_intra_enabled_flag" >>))
SpsSccW(r) == Blk("sps_scc_extension", U(r, << "sps_curr_pic_ref_enabled_flag", "palette_mode_enabled_flag" >>)
  \o When(r.palette_mode_enabled_flag # 0,
       U(r, << "palette_max_size", "delta_palette_max_predictor_size", "sps_palette_predictor_initializers_present_flag" >>)
       \o When(r.sps_palette_predictor_initializers_present_flag # 0,
            U(r, << "sps_num_palette_predictor_initializers_minus1" >>) \o ULL(r, "sps_palette_predictor_initializers")))
  \o U(r, << "motion_vector_resolution_control_idc", "intra_boundary_filtering_disabled_flag" >>))
SpsW(r, reso) == Blk("sps",
  U(r, << "sps_video_parameter_set_id", "sps_max_sub_layers_minus1", "sps_temporal_id_nesting_flag" >>)
  \o Each(r.profile_tier_level, PtlW)
  \o U(r, << "sps_seq_parameter_set_id", "chroma_format_idc" >>)
  \o When(r.chroma_format_idc = 3, U(r, << "separate_colour_plane_flag" >>))
  \o U(r, << "pic_width_in_luma_samples", "pic_height_in_luma_samples", "conformance_window_flag" >>)
  \o When(r.conformance_window_flag # 0, U(r, << "conf_win_left_offset", "conf_win_right_offset",
       "conf_win_top_offset", "conf_win_bottom_offset" >>))
  \o U(r, << "bit_depth_luma_minus8", "bit_depth_chroma_minus8", "log2_max_pic_order_cnt_lsb_minus4",
       "sps_sub_layer_ordering_info_present_flag" >>)
  \o UL(r, << "sps_max_dec_pic_buffering_minus1", "sps_max_num_reorder_pics", "sps_max_latency_increase_plus1" >>)
  \o U(r, << "log2_min_luma_coding_block_size_minus3", "log2_diff_max_min_luma_coding_block_size",
       "log2_min_luma_transform_block_size_minus2", "log2_diff_max_min_luma_transform_block_size",
       "max_transform_hierarchy_depth_inter", "max_transform_hierarchy_depth_intra", "scaling_list_enabled_flag" >>)
  \o When(r.scaling_list_enabled_flag # 0, U(r, << "sps_scaling_list_data_present_flag" >>)
       \o When(r.sps_scaling_list_data_present_flag # 0, Each(r.scaling_list_data, ScalingW)))
  \o U(r, << "amp_enabled_flag", "sample_adaptive_offset_enabled_flag", "pcm_enabled_flag" >>)
  \o When(r.pcm_enabled_flag # 0, U(r, << "pcm_sample_bit_depth_luma_minus1", "pcm_sample_bit_depth_chroma_minus1",
       "log2_min_pcm_luma_coding_block_size_minus3", "log2_diff_max_min_pcm_luma_coding_block_size",
       "pcm_loop_filter_disabled_flag" >>))
  \o U(r, << "num_short_term_ref_pic_sets" >>) \o Each(r.st_ref_pic_set, StRpsW)
  \o U(r, << "long_term_ref_pics_present_flag" >>)
  \o When(r.long_term_ref_pics_present_flag # 0, U(r, << "num_long_term_ref_pics_sps" >>)
       \o UL(r, << "lt_ref_pic_poc_lsb_sps", "used_by_curr_pic_lt_sps_flag" >>))
  \o U(r, << "sps_temporal_mvp_enabled_flag", "strong_intra_smoothing_enabled_flag", "vui_parameters_present_flag" >>)
  \o When(r.vui_parameters_present_flag # 0, Each(r.vui_parameters, VuiW))
  \o U(r, << "sps_extension_present_flag" >>)
  \o When(r.sps_extension_present_flag # 0, U(r, << "sps_range_extension_flag", "sps_multilayer_extension_flag",
       "sps_3d_extension_flag", "sps_scc_extension_flag", "sps_extension_4bits" >>))
  \o When(r.sps_range_extension_flag # 0, Each(r.sps_range_extension, SpsRangeW))
  \o When(r.sps_multilayer_extension_flag # 0, Each(r.sps_multilayer_extension, SpsMlW))
  \o When(r.sps_3d_extension_flag # 0, Each(r.sps_3d_extension, Sps3dW))
  \o When(r.sps_scc_extension_flag # 0, Each(r.sps_scc_extension, SpsSccW))
  \o When(reso, LET v == SpsDerived(r) IN << "width:", SStr(v.width), "height:", SStr(v.height) >>))
PpsMlW(r) == Blk("pps_multilayer_extension",
  U(r, << "poc_reset_info_present_flag", "pps_infer_scaling_list_flag" >>)
  \o When(r.pps_infer_scaling_list_flag # 0, U(r, << "pps_scaling_list_ref_layer_id" >>))
  \o U(r, << "num_ref_loc_offsets" >>)
  \o When(r.num_ref_loc_offsets # 0,
       UL(r, << "ref_loc_offset_layer_id", "scaled_ref_layer_offset_present_flag" >>)
       \o IL(r, << "scaled_ref_layer_left_offset", "scaled_ref_layer_top_offset", "scaled_ref_layer_right_offset",
                   "scaled_ref_layer_bottom_offset" >>)
       \o UL(r, << "ref_region_offset_present_flag" >>)
       \o IL(r, << "ref_region_left_offset", "ref_region_top_offset", "ref_region_right_offset", "ref_region_bottom_offset" >>)
       \o UL(r, << "resample_phase_set_present_flag" >>)
       \o IL(r, << "phase_hor_luma", "phase_ver_luma", "phase_hor_chroma_plus8", "phase_ver_chroma_plus8" >>))
  \o U(r, << "colour_mapping_enabled_flag" >>))
PpsSccW(r) == Blk("pps_scc_extension",
  U(r, << "pps_curr_pic_ref_enabled_flag", "residual_adaptive_colour_transform_enabled_flag" >>)
  \o When(r.residual_adaptive_colour_transform_enabled_flag # 0,
       U(r, << "pps_slice_act_qp_offsets_present_flag" >>)
       \o I(r, << "pps_act_y_qp_offset_plus5", "pps_act_cb_qp_offset_plus5", "pps_act_cr_qp_offset_plus3" >>))
  \o U(r, << "pps_palette_predictor_initializer_present_flag" >>)
  \o When(r.pps_palette_predictor_initializer_present_flag # 0,
       U(r, << "pps_num_palette_predictor_initializer" >>)
       \o When(r.pps_num_palette_predictor_initializer # 0,
            U(r, << "monochrome_palette_flag", "luma_bit_depth_entry_minus8" >>)
            \o When(r.monochrome_palette_flag = 0, U(r, << "chroma_bit_depth_entry_minus8" >>))
            \o ULL(r, "pps_palette_predictor_initializers"))))
PpsW(r) == Blk("pps",
  U(r, << "pps_pic_parameter_set_id", "pps_seq_parameter_set_id", "dependent_slice_segments_enabled_flag",
     "output_flag_present_flag", "num_extra_slice_header_bits", "sign_data_hiding_enabled_flag", "cabac_init_present_flag",
     "num_ref_idx_l0_default_active_minus1", "num_ref_idx_l1_default_active_minus1" >>)
  \o I(r, << "init_qp_minus26" >>)
  \o U(r, << "constrained_intra_pred_flag", "transform_skip_enabled_flag", "cu_qp_delta_enabled_flag" >>)
  \o When(r.cu_qp_delta_enabled_flag # 0, U(r, << "diff_cu_qp_delta_depth" >>))
  \o I(r, << "pps_cb_qp_offset", "pps_cr_qp_offset" >>)
  \o U(r, << "pps_slice_chroma_qp_offsets_present_flag", "weighted_pred_flag", "weighted_bipred_flag",
     "transquant_bypass_enabled_flag", "tiles_enabled_flag", "entropy_coding_sync_enabled_flag" >>)
  \o When(r.tiles_enabled_flag # 0,
       U(r, << "num_tile_columns_minus1", "num_tile_rows_minus1", "uniform_spacing_flag" >>)
       \o When(r.uniform_spacing_flag = 0, UL(r, << "column_width_minus1", "row_height_minus1" >>))
       \o U(r, << "loop_filter_across_tiles_enabled_flag" >>))
  \o U(r, << "pps_loop_filter_across_slices_enabled_flag", "deblocking_filter_control_present_flag" >>)
  \o When(r.deblocking_filter_control_present_flag # 0,
       U(r, << "deblocking_filter_override_enabled_flag", "pps_deblocking_filter_disabled_flag" >>)
       \o When(r.pps_deblocking_filter_disabled_flag = 0, I(r, << "pps_beta_offset_div2", "pps_tc_offset_div2" >>)))
  \o U(r, << "pps_scaling_list_data_present_flag" >>)
  \o When(r.pps_scaling_list_data_present_flag # 0, Each(r.scaling_list_data, ScalingW))
  \o U(r, << "lists_modification_present_flag", "log2_parallel_merge_level_minus2",
     "slice_segment_header_extension_present_flag", "pps_extension_present_flag" >>)
  \o When(r.pps_extension_present_flag # 0, U(r, << "pps_range_extension_flag", "pps_multilayer_extension_flag",
     "pps_3d_extension_flag", "pps_scc_extension_flag", "pps_extension_4bits" >>))
  \o When(r.pps_multilayer_extension_flag # 0, Each(r.pps_multilayer_extension, PpsMlW))
  \o When(r.pps_scc_extension_flag # 0, Each(r.pps_scc_extension, PpsSccW)))
PwtW(r) == Blk("pred_weight_table",
  U(r, << "luma_log2_weight_denom" >>)
  \o When(r.ChromaArrayType # 0, I(r, << "delta_chroma_log2_weight_denom" >>))
  \o UL(r, << "luma_weight_l0_flag" >>)
  \o When(r.ChromaArrayType # 0, UL(r, << "chroma_weight_l0_flag" >>))
  \o IL(r, << "delta_luma_weight_l0", "luma_offset_l0" >>)
  \o When(r.ChromaArrayType # 0, ILL(r, "delta_chroma_weight_l0") \o ILL(r, "delta_chroma_offset_l0")))
IsP(r) == r.slice_type = 1
IsB(r) == r.slice_type = 0
SliceHeadW(r) == LET u0 == r.use[1] IN Blk("slice_segment_header",
  U(r, << "first_slice_segment_in_pic_flag", "no_output_of_prior_pics_flag", "slice_pic_parameter_set_id",
     "dependent_slice_segment_flag", "slice_segment_address" >>)
  \o When(r.dependent_slice_segment_flag = 0,
    UL(r, << "slice_reserved_flag" >>) \o U(r, << "slice_type", "pic_output_flag", "colour_plane_id" >>)
    \o When(r.nal_unit_type \notin {19, 20},
         U(r, << "slice_pic_order_cnt_lsb", "short_term_ref_pic_set_sps_flag" >>)
         \o (IF r.short_term_ref_pic_set_sps_flag = 0 THEN Each(r.st_ref_pic_set, StRpsW)
             ELSE When(u0.num_short_term_ref_pic_sets > 1, U(r, << "short_term_ref_pic_set_idx" >>)))
         \o When(u0.long_term_ref_pics_present_flag # 0,
              When(u0.num_long_term_ref_pics_sps # 0, U(r, << "num_long_term_sps" >>))
              \o U(r, << "num_long_term_pics" >>)
              \o When(r.num_long_term_sps # 0 /\ u0.num_long_term_ref_pics_sps > 1, UL(r, << "lt_idx_sps" >>))
              \o When(r.num_long_term_pics # 0, UL(r, << "poc_lsb_lt", "used_by_curr_pic_lt_flag" >>))
              \o When(r.num_long_term_sps # 0 \/ r.num_long_term_pics # 0,
                   UL(r, << "delta_poc_msb_present_flag", "delta_poc_msb_cycle_lt" >>)))
         \o When(u0.sps_temporal_mvp_enabled_flag # 0, U(r, << "slice_temporal_mvp_enabled_flag" >>)))
    \o When(u0.sample_adaptive_offset_enabled_flag # 0, U(r, << "slice_sao_luma_flag" >>)
         \o When(r.ChromaArrayType # 0, U(r, << "slice_sao_chroma_flag" >>)))
    \o When(IsP(r) \/ IsB(r),
         U(r, << "num_ref_idx_active_override_flag" >>)
         \o When(r.num_ref_idx_active_override_flag # 0, U(r, << "num_ref_idx_l0_active_minus1" >>)
              \o When(IsB(r), U(r, << "num_ref_idx_l1_active_minus1" >>)))
         \o When(IsB(r), U(r, << "mvd_l1_zero_flag" >>))
         \o When(u0.cabac_init_present_flag # 0, U(r, << "cabac_init_flag" >>))
         \o When(r.slice_temporal_mvp_enabled_flag # 0,
              When(IsB(r), U(r, << "collocated_from_l0_flag" >>))
              \o When((r.collocated_from_l0_flag # 0 /\ r.num_ref_idx_l0_active_minus1 # 0)
                      \/ (r.collocated_from_l0_flag = 0 /\ r.num_ref_idx_l1_active_minus1 # 0),
                   U(r, << "collocated_ref_idx" >>)))
         \o When((u0.weighted_pred_flag # 0 /\ IsP(r)) \/ (u0.weighted_bipred_flag # 0 /\ IsB(r)),
              Each(r.pred_weight_table, PwtW))
         \o U(r, << "five_minus_max_num_merge_cand" >>)
         \o When(u0.motion_vector_resolution_control_idc = 2, U(r, << "use_integer_mv_flag" >>)))
    \o I(r, << "slice_qp_delta" >>)
    \o When(u0.pps_slice_chroma_qp_offsets_present_flag # 0, I(r, << "slice_cb_qp_offset", "slice_cr_qp_offset" >>))
    \o When(u0.pps_slice_act_qp_offsets_present_flag # 0,
         I(r, << "slice_act_y_qp_offset", "slice_act_cb_qp_offset", "slice_act_cr_qp_offset" >>))
    \o When(u0.deblocking_filter_override_enabled_flag # 0, U(r, << "deblocking_filter_override_flag" >>))
    \o When(r.deblocking_filter_override_flag # 0, U(r, << "slice_deblocking_filter_disabled_flag" >>)
         \o When(r.slice_deblocking_filter_disabled_flag = 0, I(r, << "slice_beta_offset_div2", "slice_tc_offset_div2" >>)))
    \o When(u0.pps_loop_filter_across_slices_enabled_flag # 0
            /\ (r.slice_sao_luma_flag # 0 \/ r.slice_sao_chroma_flag # 0 \/ r.slice_deblocking_filter_disabled_flag = 0),
         U(r, << "slice_loop_filter_across_slices_enabled_flag" >>)))
  \o When(u0.tiles_enabled_flag # 0 \/ u0.entropy_coding_sync_enabled_flag # 0,
       U(r, << "num_entry_point_offsets" >>)
       \o When(r.num_entry_point_offsets # 0, U(r, << "offset_len_minus1" >>) \o UL(r, << "entry_point_offset_minus1" >>)))
  \o When(u0.slice_segment_header_extension_present_flag # 0,
       U(r, << "slice_segment_header_extension_length" >>) \o UL(r, << "slice_segment_header_extension_data_byte" >>)))
SliceLayerW(r) == Blk("slice_segment_layer", SliceHeadW(r))

SizedW(nm, r, q) == Blk(nm, q \o << "payload_size:", ToString(Len(r.payload)) >> \o UL(r, << "payload" >>))
LutW(r, nnum, ncoded, ntarget) ==
  Flatten([c \in 1..3 |->
    LET k == "[" \o ToString(c - 1) \o "]:" IN
    << nnum \o k, UStr(r[nnum][c]) >>
    \o When(r[nnum][c] > 0 /\ c <= Len(r[ncoded]),
         << ncoded \o k >> \o Braced(Words(r[ncoded][c])) \o << ntarget \o k >> \o Braced(Words(r[ntarget][c])))])
SeiPayloadW(r) ==
  CASE r.kind = "t35" -> SizedW("user_data_registered_itu_t_t35", r,
         U(r, << "itu_t_t35_country_code", "itu_t_t35_country_code_extension_byte" >>))
    [] r.kind = "unregistered" ->
         LET a == r.uuid_iso_iec_11578_1 b == r.uuid_iso_iec_11578_2 IN
         SizedW("user_data_unregistered", r,
           << "uuid_iso_iec_11578:", HexW(a[1]) \o "-" \o Hex4(TokHi(a[2])) \o "-" \o Hex4(TokLo(a[2])) \o "-"
              \o Hex4(TokHi(b[1])) \o "-" \o Hex4(TokLo(b[1])) \o HexW(b[2]) >>)
    [] r.kind = "alpha" -> Blk("alpha_channel_info", U(r, << "alpha_channel_cancel_flag" >>)
         \o When(r.alpha_channel_cancel_flag = 0, U(r, << "alpha_channel_use_idc", "alpha_channel_bit_depth_minus8",
              "alpha_transparent_value", "alpha_opaque_value", "alpha_channel_incr_flag", "alpha_channel_clip_flag" >>)
              \o When(r.alpha_channel_clip_flag # 0, U(r, << "alpha_channel_clip_type_flag" >>))))
    [] r.kind = "mdcv" ->
         LET Frac5(v) == "(" \o FixStr(UStr(v * 2), 5) \o ")"
             Frac4(v) == "(" \o FixStr(UStr(v), 4)
         IN Blk("mastering_display_colour_volume",
              Flatten([c \in 1..3 |->
                << "display_primaries[" \o ToString(c - 1) \o "]_x:", UStr(r.display_primaries_x[c]), Frac5(r.display_primaries_x[c]),
                   "display_primaries[" \o ToString(c - 1) \o "]_y:", UStr(r.display_primaries_y[c]), Frac5(r.display_primaries_y[c]) >>])
              \o << "white_point_x:", UStr(r.white_point_x), Frac5(r.white_point_x),
                    "white_point_y:", UStr(r.white_point_y), Frac5(r.white_point_y),
                    "max_display_mastering_luminance:", UStr(r.max_display_mastering_luminance),
                    Frac4(r.max_display_mastering_luminance), "cd/m^2)",
                    "min_display_mastering_luminance:", UStr(r.min_display_mastering_luminance),
                    Frac4(r.min_display_mastering_luminance), "cd/m^2)" >>)
    [] r.kind = "clli" -> Blk("content_light_level_info",
         << "max_content_light_level:", UStr(r.max_content_light_level), "cd/m^2",
            "max_pic_average_light_level:", UStr(r.max_pic_average_light_level), "cd/m^2" >>)
    [] r.kind = "knee" -> Blk("knee_function_info", U(r, << "knee_function_id", "knee_function_cancel_flag" >>)
         \o When(r.knee_function_cancel_flag = 0,
              U(r, << "knee_function_persistence_flag", "input_d_range", "input_disp_luminance", "output_d_range",
                      "output_disp_luminance", "num_knee_points_minus1" >>)
              \o When(r.input_knee_point # <<>>,
                   << "input_knee_point:" >> \o Braced(Words(r.input_knee_point))
                   \o << "output_knee_point:" >> \o Braced(Words(r.output_knee_point)))))
    [] r.kind = "remap" -> Blk("colour_remapping_info", U(r, << "colour_remap_id", "colour_remap_cancel_flag" >>)
         \o When(r.colour_remap_cancel_flag = 0,
              U(r, << "colour_remap_persistence_flag", "colour_remap_video_signal_info_present_flag" >>)
              \o When(r.colour_remap_video_signal_info_present_flag # 0,
                   U(r, << "colour_remap_full_range_flag", "colour_remap_primaries", "colour_remap_transfer_function",
                           "colour_remap_matrix_coefficients" >>))
              \o U(r, << "colour_remap_input_bit_depth", "colour_remap_output_bit_depth" >>)
              \o LutW(r, "pre_lut_num_val_minus1", "pre_lut_coded_value", "pre_lut_target_value")
              \o U(r, << "colour_remap_matrix_present_flag" >>)
              \o When(r.colour_remap_matrix_present_flag # 0, U(r, << "log2_matrix_denom" >>)
                   \o Flatten([c \in 1..Min2(3, Len(r.colour_remap_coeffs)) |->
                        << "colour_remap_coeffs[" \o ToString(c - 1) \o "]:" >> \o Braced(SWords(r.colour_remap_coeffs[c]))]))
              \o LutW(r, "post_lut_num_val_minus1", "post_lut_coded_value", "post_lut_target_value")))
    [] r.kind = "ccv" -> Blk("content_colour_volume", U(r, << "ccv_cancel_flag" >>)
         \o When(r.ccv_cancel_flag = 0,
              U(r, << "ccv_persistence_flag", "ccv_primaries_present_flag", "ccv_min_luminance_value_present_flag",
                      "ccv_max_luminance_value_present_flag", "ccv_avg_luminance_value_present_flag", "ccv_reserved_zero_2bits" >>)
              \o When(r.ccv_primaries_present_flag # 0, Flatten([c \in 1..3 |->
                   << "ccv_primaries_x[" \o ToString(c - 1) \o "]:", SStr(r.ccv_primaries_x[c]),
                      "ccv_primaries_y[" \o ToString(c - 1) \o "]:", SStr(r.ccv_primaries_y[c]) >>]))
              \o When(r.ccv_min_luminance_value_present_flag # 0, U(r, << "ccv_min_luminance_value" >>))
              \o When(r.ccv_max_luminance_value_present_flag # 0, U(r, << "ccv_max_luminance_value" >>))
              \o When(r.ccv_avg_luminance_value_present_flag # 0, U(r, << "ccv_avg_luminance_value" >>))))
    [] r.kind = "atc" -> Blk("alternative_transfer_characteristics", U(r, << "preferred_transfer_characteristics" >>))
    [] r.kind = "ave" -> Blk("ambient_viewing_environment", U(r, << "ambient_illuminance", "ambient_light_x", "ambient_light_y" >>))
    [] r.kind = "unknown" -> SizedW("unimplemented", r, <<>>)
SeiW(r) == << "sei", "message", "{", "payload_type:", SStr(r.payload_type), "payload_size:", UStr(r.payload_size) >>
           \o Each(r.payload_state, SeiPayloadW) \o << "}" >>

(* ------------------------------------------------- units and their containers *)
\* o: the options, a set of names
PayW(p, t, o) == Blk("nal_unit_payload",
  Each(p.vps, VpsW) \o Each(p.sps, LAMBDA r : SpsW(r, "resolution" \in o)) \o Each(p.pps, PpsW)
  \o Each(p.aud, AudW) \o Each(p.sei, SeiW) \o Each(p.slice, SliceLayerW))
RECURSIVE HexStr(_)
HexStr(v) == IF v < 16 THEN HexDigits[v + 1] ELSE HexStr(v \div 16) \o HexDigits[(v % 16) + 1]
\* pl: bytes parsed, "*" where that is left open
UnitW(n, pl, o) == Blk("nal_unit",
  When("offset" \in o, << "offset:", "0x" \o Pad(HexStr(n.offset), 8) >>)
  \o When("length" \in o, << "length:", ToString(n.length) >>)
  \o When("parsed_length" \in o, << "parsed_length:", IF pl < 0 THEN "*" ELSE ToString(pl) >>)
  \o When("checksum" \in o, << "checksum:", "0x" \o n.checksum >>)
  \o HdrW(n.hdr) \o PayW(n.pay, n.hdr.nal_unit_type, o))
UnitsW(us, pl, o) == Flatten([k \in 1..Len(us) |-> UnitW(us[k], pl[k], o)])
BoxW(r, o) == Blk("configuration_box",
  U(r, << "configurationVersion", "general_profile_space", "general_tier_flag", "general_profile_idc" >>)
  \o UL(r, << "general_profile_compatibility_flags" >>)
  \o << "general_constraint_indicator_flags:", WStr(r.general_constraint_indicator_flags) >>
  \o U(r, << "general_level_idc", "reserved1", "min_spatial_segmentation_idc", "reserved2", "parallelismType", "reserved3",
     "chroma_format_idc", "reserved4", "bit_depth_luma_minus8", "reserved5", "bit_depth_chroma_minus8", "avgFrameRate",
     "constantFrameRate", "numTemporalLayers", "temporalIdNested", "lengthSizeMinusOne", "numOfArrays" >>)
  \o Flatten([j \in 1..r.numOfArrays |->
       LET k == "[" \o ToString(j - 1) \o "]"
           At(nm) == << nm \o k \o ":", UStr(r[nm][j]) >>
       IN At("array_completeness") \o At("reserved6") \o At("NAL_unit_type") \o At("numNalus")
          \o Flatten([i \in 1..r.numNalus[j] |->
               << "nalUnitLength" \o k \o "[" \o ToString(i - 1) \o "]:", UStr(r.nalUnitLength[j][i]) >>
               \o Each(r.nalUnit[j][i], LAMBDA n : UnitW(n, -1, o))])]))
SingleW(r, o) == Blk("rtp_single", HdrW(r.hdr) \o PayW(r.pay, r.hdr.nal_unit_type, o))
ApW(r, o) == Blk("rtp_ap", HdrW(r.hdr) \o Each(r.units, LAMBDA x :
  << "nal_unit_size:", ToString(x.size) >> \o HdrW(x.hdr) \o PayW(x.pay, x.hdr.nal_unit_type, o)))
FuW(r, o) == Blk("rtp_fu", HdrW(r.hdr) \o U(r, << "s_bit", "e_bit", "fu_type" >>)
  \o When(r.s_bit = 1, Each(r.pay, LAMBDA p : PayW(p, r.fu_type, o))))
RtpW(r, o) == Blk("rtp", HdrW(r.hdr[1]) \o Each(r.single, LAMBDA x : SingleW(x, o))
  \o Each(r.ap, LAMBDA x : ApW(x, o)) \o Each(r.fu, LAMBDA x : FuW(x, o)))
OptSet(b) == (IF b % 2 = 1 THEN {"offset"} ELSE {}) \union (IF (b \div 2) % 2 = 1 THEN {"length"} ELSE {})
  \union (IF (b \div 4) % 2 = 1 THEN {"parsed_length"} ELSE {}) \union (IF (b \div 8) % 2 = 1 THEN {"checksum"} ELSE {})
  \union (IF (b \div 16) % 2 = 1 THEN {"resolution"} ELSE {})
================================================================================
