// The members of each parsed structure, in the form the specification uses.
inline void emit(J& j, const H265ProfileInfoParser::ProfileInfoState& x) {
  j.open('{');
  F(profile_space);
  F(tier_flag);
  F(profile_idc);
  F(profile_compatibility_flag);
  F(progressive_source_flag);
  F(interlaced_source_flag);
  F(non_packed_constraint_flag);
  F(frame_only_constraint_flag);
  F(max_12bit_constraint_flag);
  F(max_10bit_constraint_flag);
  F(max_8bit_constraint_flag);
  F(max_422chroma_constraint_flag);
  F(max_420chroma_constraint_flag);
  F(max_monochrome_constraint_flag);
  F(intra_constraint_flag);
  F(one_picture_only_constraint_flag);
  F(lower_bit_rate_constraint_flag);
  F(max_14bit_constraint_flag);
  F(reserved_zero_33bits);
  F(reserved_zero_34bits);
  F(reserved_zero_7bits);
  F(reserved_zero_35bits);
  F(reserved_zero_43bits);
  F(inbld_flag);
  F(reserved_zero_bit);
  F(profile_type);
  j.close('}');
}
inline void emit(J& j, const H265ProfileTierLevelParser::ProfileTierLevelState& x) {
  j.open('{');
  F(profilePresentFlag);
  F(maxNumSubLayersMinus1);
  F(general);
  F(general_level_idc);
  F(sub_layer_profile_present_flag);
  F(sub_layer_level_present_flag);
  F(reserved_zero_2bits);
  F(sub_layer);
  F(sub_layer_level_idc);
  j.close('}');
}
inline void emit(J& j, const H265SubLayerHrdParametersParser::SubLayerHrdParametersState& x) {
  j.open('{');
  F(subLayerId);
  F(CpbCnt);
  F(sub_pic_hrd_params_present_flag);
  F(bit_rate_value_minus1);
  F(cpb_size_value_minus1);
  F(cpb_size_du_value_minus1);
  F(bit_rate_du_value_minus1);
  F(cbr_flag);
  j.close('}');
}
inline void emit(J& j, const H265HrdParametersParser::HrdParametersState& x) {
  j.open('{');
  F(commonInfPresentFlag);
  F(maxNumSubLayersMinus1);
  F(nal_hrd_parameters_present_flag);
  F(vcl_hrd_parameters_present_flag);
  F(sub_pic_hrd_params_present_flag);
  F(tick_divisor_minus2);
  F(du_cpb_removal_delay_increment_length_minus1);
  F(sub_pic_cpb_params_in_pic_timing_sei_flag);
  F(dpb_output_delay_du_length_minus1);
  F(bit_rate_scale);
  F(cpb_size_scale);
  F(cpb_size_du_scale);
  F(initial_cpb_removal_delay_length_minus1);
  F(au_cpb_removal_delay_length_minus1);
  F(dpb_output_delay_length_minus1);
  F(fixed_pic_rate_general_flag);
  F(fixed_pic_rate_within_cvs_flag);
  F(elemental_duration_in_tc_minus1);
  F(low_delay_hrd_flag);
  F(cpb_cnt_minus1);
  F(sub_layer_hrd_parameters_vector);
  j.close('}');
}
inline void emit(J& j, const H265VuiParametersParser::VuiParametersState& x) {
  j.open('{');
  F(sps_max_sub_layers_minus1);
  F(aspect_ratio_info_present_flag);
  F(aspect_ratio_idc);
  F(sar_width);
  F(sar_height);
  F(overscan_info_present_flag);
  F(overscan_appropriate_flag);
  F(video_signal_type_present_flag);
  F(video_format);
  F(video_full_range_flag);
  F(colour_description_present_flag);
  F(colour_primaries);
  F(transfer_characteristics);
  F(matrix_coeffs);
  F(chroma_loc_info_present_flag);
  F(chroma_sample_loc_type_top_field);
  F(chroma_sample_loc_type_bottom_field);
  F(neutral_chroma_indication_flag);
  F(field_seq_flag);
  F(frame_field_info_present_flag);
  F(default_display_window_flag);
  F(def_disp_win_left_offset);
  F(def_disp_win_right_offset);
  F(def_disp_win_top_offset);
  F(def_disp_win_bottom_offset);
  F(vui_timing_info_present_flag);
  F(vui_num_units_in_tick);
  F(vui_time_scale);
  F(vui_poc_proportional_to_timing_flag);
  F(vui_num_ticks_poc_diff_one_minus1);
  F(vui_hrd_parameters_present_flag);
  F(hrd_parameters);
  F(bitstream_restriction_flag);
  F(tiles_fixed_structure_flag);
  F(motion_vectors_over_pic_boundaries_flag);
  F(restricted_ref_pic_lists_flag);
  F(min_spatial_segmentation_idc);
  F(max_bytes_per_pic_denom);
  F(max_bits_per_min_cu_denom);
  F(log2_max_mv_length_horizontal);
  F(log2_max_mv_length_vertical);
  j.close('}');
}
inline void emit(J& j, const H265VpsParser::VpsState& x) {
  j.open('{');
  F(vps_video_parameter_set_id);
  F(vps_base_layer_internal_flag);
  F(vps_base_layer_available_flag);
  F(vps_max_layers_minus1);
  F(vps_max_sub_layers_minus1);
  F(vps_temporal_id_nesting_flag);
  F(vps_reserved_0xffff_16bits);
  F(profile_tier_level);
  F(vps_sub_layer_ordering_info_present_flag);
  F(vps_max_dec_pic_buffering_minus1);
  F(vps_max_num_reorder_pics);
  F(vps_max_latency_increase_plus1);
  F(vps_max_layer_id);
  F(vps_num_layer_sets_minus1);
  F(layer_id_included_flag);
  F(vps_timing_info_present_flag);
  F(vps_num_units_in_tick);
  F(vps_time_scale);
  F(vps_poc_proportional_to_timing_flag);
  F(vps_num_ticks_poc_diff_one_minus1);
  F(vps_num_hrd_parameters);
  F(hrd_parameters);
  F(hrd_layer_set_idx);
  F(cprms_present_flag);
  F(vps_extension_flag);
  F(vps_extension_data_flag);
  j.close('}');
}
inline void emit(J& j, const H265ScalingListDataParser::ScalingListDataState& x) {
  j.open('{');
  F(scaling_list_pred_mode_flag);
  F(scaling_list_pred_matrix_id_delta);
  F(scaling_list_dc_coef_minus8);
  F(ScalingList);
  j.close('}');
}
inline void emit(J& j, const H265StRefPicSetParser::StRefPicSetState& x) {
  j.open('{');
  F(stRpsIdx);
  F(num_short_term_ref_pic_sets);
  F(inter_ref_pic_set_prediction_flag);
  F(delta_idx_minus1);
  F(delta_rps_sign);
  F(abs_delta_rps_minus1);
  F(used_by_curr_pic_flag);
  F(use_delta_flag);
  F(num_negative_pics);
  F(num_positive_pics);
  F(delta_poc_s0_minus1);
  F(used_by_curr_pic_s0_flag);
  F(delta_poc_s1_minus1);
  F(used_by_curr_pic_s1_flag);
  j.close('}');
}
inline void emit(J& j, const H265SpsRangeExtensionParser::SpsRangeExtensionState& x) {
  j.open('{');
  F(transform_skip_rotation_enabled_flag);
  F(transform_skip_context_enabled_flag);
  F(implicit_rdpcm_enabled_flag);
  F(explicit_rdpcm_enabled_flag);
  F(extended_precision_processing_flag);
  F(intra_smoothing_disabled_flag);
  F(high_precision_offsets_enabled_flag);
  F(persistent_rice_adaptation_enabled_flag);
  F(cabac_bypass_alignment_enabled_flag);
  j.close('}');
}
inline void emit(J& j, const H265SpsMultilayerExtensionParser::SpsMultilayerExtensionState& x) {
  j.open('{');
  F(inter_view_mv_vert_constraint_flag);
  j.close('}');
}
inline void emit(J& j, const H265Sps3dExtensionParser::Sps3dExtensionState& x) {
  j.open('{');
  F(iv_di_mc_enabled_flag);
  F(iv_mv_scal_enabled_flag);
  F(log2_ivmc_sub_pb_size_minus3);
  F(iv_res_pred_enabled_flag);
  F(depth_ref_enabled_flag);
  F(vsp_mc_enabled_flag);
  F(dbbp_enabled_flag);
  F(tex_mc_enabled_flag);
  F(log2_texmc_sub_pb_size_minus3);
  F(intra_contour_enabled_flag);
  F(intra_dc_only_wedge_enabled_flag);
  F(cqt_cu_part_pred_enabled_flag);
  F(inter_dc_only_enabled_flag);
  F(skip_intra_enabled_flag);
  j.close('}');
}
inline void emit(J& j, const H265SpsSccExtensionParser::SpsSccExtensionState& x) {
  j.open('{');
  F(sps_curr_pic_ref_enabled_flag);
  F(palette_mode_enabled_flag);
  F(palette_max_size);
  F(delta_palette_max_predictor_size);
  F(sps_palette_predictor_initializers_present_flag);
  F(sps_num_palette_predictor_initializers_minus1);
  F(sps_palette_predictor_initializers);
  F(motion_vector_resolution_control_idc);
  F(intra_boundary_filtering_disabled_flag);
  j.close('}');
}
inline void emit(J& j, const H265SpsParser::SpsState& x) {
  j.open('{');
  F(sps_video_parameter_set_id);
  F(sps_max_sub_layers_minus1);
  F(sps_temporal_id_nesting_flag);
  F(profile_tier_level);
  F(sps_seq_parameter_set_id);
  F(chroma_format_idc);
  F(separate_colour_plane_flag);
  F(pic_width_in_luma_samples);
  F(pic_height_in_luma_samples);
  F(conformance_window_flag);
  F(conf_win_left_offset);
  F(conf_win_right_offset);
  F(conf_win_top_offset);
  F(conf_win_bottom_offset);
  F(bit_depth_luma_minus8);
  F(bit_depth_chroma_minus8);
  F(log2_max_pic_order_cnt_lsb_minus4);
  F(sps_sub_layer_ordering_info_present_flag);
  F(sps_max_dec_pic_buffering_minus1);
  F(sps_max_num_reorder_pics);
  F(sps_max_latency_increase_plus1);
  F(log2_min_luma_coding_block_size_minus3);
  F(log2_diff_max_min_luma_coding_block_size);
  F(log2_min_luma_transform_block_size_minus2);
  F(log2_diff_max_min_luma_transform_block_size);
  F(max_transform_hierarchy_depth_inter);
  F(max_transform_hierarchy_depth_intra);
  F(scaling_list_enabled_flag);
  F(sps_scaling_list_data_present_flag);
  F(scaling_list_data);
  F(amp_enabled_flag);
  F(sample_adaptive_offset_enabled_flag);
  F(pcm_enabled_flag);
  F(pcm_sample_bit_depth_luma_minus1);
  F(pcm_sample_bit_depth_chroma_minus1);
  F(log2_min_pcm_luma_coding_block_size_minus3);
  F(log2_diff_max_min_pcm_luma_coding_block_size);
  F(pcm_loop_filter_disabled_flag);
  F(num_short_term_ref_pic_sets);
  F(st_ref_pic_set);
  F(long_term_ref_pics_present_flag);
  F(num_long_term_ref_pics_sps);
  F(lt_ref_pic_poc_lsb_sps);
  F(used_by_curr_pic_lt_sps_flag);
  F(sps_temporal_mvp_enabled_flag);
  F(strong_intra_smoothing_enabled_flag);
  F(vui_parameters_present_flag);
  F(vui_parameters);
  F(sps_extension_present_flag);
  F(sps_range_extension_flag);
  F(sps_multilayer_extension_flag);
  F(sps_3d_extension_flag);
  F(sps_scc_extension_flag);
  F(sps_extension_4bits);
  F(sps_range_extension);
  F(sps_multilayer_extension);
  F(sps_3d_extension);
  F(sps_scc_extension);
  F(sps_extension_data_flag);
  j.close('}');
}
inline void emit(J& j, const H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState& x) {
  j.open('{');
  F(poc_reset_info_present_flag);
  F(pps_infer_scaling_list_flag);
  F(pps_scaling_list_ref_layer_id);
  F(num_ref_loc_offsets);
  F(ref_loc_offset_layer_id);
  F(scaled_ref_layer_offset_present_flag);
  F(scaled_ref_layer_left_offset);
  F(scaled_ref_layer_top_offset);
  F(scaled_ref_layer_right_offset);
  F(scaled_ref_layer_bottom_offset);
  F(ref_region_offset_present_flag);
  F(ref_region_left_offset);
  F(ref_region_top_offset);
  F(ref_region_right_offset);
  F(ref_region_bottom_offset);
  F(resample_phase_set_present_flag);
  F(phase_hor_luma);
  F(phase_ver_luma);
  F(phase_hor_chroma_plus8);
  F(phase_ver_chroma_plus8);
  F(colour_mapping_enabled_flag);
  j.close('}');
}
inline void emit(J& j, const H265PpsSccExtensionParser::PpsSccExtensionState& x) {
  j.open('{');
  F(pps_curr_pic_ref_enabled_flag);
  F(residual_adaptive_colour_transform_enabled_flag);
  F(pps_slice_act_qp_offsets_present_flag);
  F(pps_act_y_qp_offset_plus5);
  F(pps_act_cb_qp_offset_plus5);
  F(pps_act_cr_qp_offset_plus3);
  F(pps_palette_predictor_initializer_present_flag);
  F(pps_num_palette_predictor_initializer);
  F(monochrome_palette_flag);
  F(luma_bit_depth_entry_minus8);
  F(chroma_bit_depth_entry_minus8);
  F(pps_palette_predictor_initializers);
  j.close('}');
}
inline void emit(J& j, const H265PpsParser::PpsState& x) {
  j.open('{');
  F(pps_pic_parameter_set_id);
  F(pps_seq_parameter_set_id);
  F(dependent_slice_segments_enabled_flag);
  F(output_flag_present_flag);
  F(num_extra_slice_header_bits);
  F(sign_data_hiding_enabled_flag);
  F(cabac_init_present_flag);
  F(num_ref_idx_l0_default_active_minus1);
  F(num_ref_idx_l1_default_active_minus1);
  F(init_qp_minus26);
  F(constrained_intra_pred_flag);
  F(transform_skip_enabled_flag);
  F(cu_qp_delta_enabled_flag);
  F(diff_cu_qp_delta_depth);
  F(pps_cb_qp_offset);
  F(pps_cr_qp_offset);
  F(pps_slice_chroma_qp_offsets_present_flag);
  F(weighted_pred_flag);
  F(weighted_bipred_flag);
  F(transquant_bypass_enabled_flag);
  F(tiles_enabled_flag);
  F(entropy_coding_sync_enabled_flag);
  F(num_tile_columns_minus1);
  F(num_tile_rows_minus1);
  F(uniform_spacing_flag);
  F(column_width_minus1);
  F(row_height_minus1);
  F(loop_filter_across_tiles_enabled_flag);
  F(pps_loop_filter_across_slices_enabled_flag);
  F(deblocking_filter_control_present_flag);
  F(deblocking_filter_override_enabled_flag);
  F(pps_deblocking_filter_disabled_flag);
  F(pps_beta_offset_div2);
  F(pps_tc_offset_div2);
  F(pps_scaling_list_data_present_flag);
  F(scaling_list_data);
  F(lists_modification_present_flag);
  F(log2_parallel_merge_level_minus2);
  F(slice_segment_header_extension_present_flag);
  F(pps_extension_present_flag);
  F(pps_range_extension_flag);
  F(pps_multilayer_extension_flag);
  F(pps_3d_extension_flag);
  F(pps_scc_extension_flag);
  F(pps_extension_4bits);
  F(pps_scc_extension);
  F(pps_multilayer_extension);
  F(pps_extension_data_flag);
  j.close('}');
}
inline void emit(J& j, const H265AudParser::AudState& x) {
  j.open('{');
  F(pic_type);
  j.close('}');
}
inline void emit(J& j, const H265PredWeightTableParser::PredWeightTableState& x) {
  j.open('{');
  F(ChromaArrayType);
  F(num_ref_idx_l0_active_minus1);
  F(luma_log2_weight_denom);
  F(delta_chroma_log2_weight_denom);
  F(luma_weight_l0_flag);
  F(chroma_weight_l0_flag);
  F(delta_luma_weight_l0);
  F(luma_offset_l0);
  F(delta_chroma_weight_l0);
  F(delta_chroma_offset_l0);
  F(luma_weight_l1_flag);
  F(chroma_weight_l1_flag);
  F(delta_luma_weight_l1);
  F(luma_offset_l1);
  F(delta_chroma_weight_l1);
  F(delta_chroma_offset_l1);
  j.close('}');
}
inline void emit(J& j, const H265SliceSegmentHeaderParser::SliceSegmentHeaderState& x) {
  j.open('{');
  F(nal_unit_type);
  F(ChromaArrayType);
  F(first_slice_segment_in_pic_flag);
  F(no_output_of_prior_pics_flag);
  F(slice_pic_parameter_set_id);
  F(dependent_slice_segment_flag);
  F(slice_segment_address);
  F(slice_reserved_flag);
  F(slice_type);
  F(pic_output_flag);
  F(colour_plane_id);
  F(slice_pic_order_cnt_lsb);
  F(short_term_ref_pic_set_sps_flag);
  F(st_ref_pic_set);
  F(short_term_ref_pic_set_idx);
  F(num_long_term_sps);
  F(num_long_term_pics);
  F(lt_idx_sps);
  F(poc_lsb_lt);
  F(used_by_curr_pic_lt_flag);
  F(delta_poc_msb_present_flag);
  F(delta_poc_msb_cycle_lt);
  F(slice_temporal_mvp_enabled_flag);
  F(slice_sao_luma_flag);
  F(slice_sao_chroma_flag);
  F(num_ref_idx_active_override_flag);
  F(num_ref_idx_l0_active_minus1);
  F(num_ref_idx_l1_active_minus1);
  F(mvd_l1_zero_flag);
  F(cabac_init_flag);
  F(collocated_from_l0_flag);
  F(collocated_ref_idx);
  F(pred_weight_table);
  F(five_minus_max_num_merge_cand);
  F(use_integer_mv_flag);
  F(slice_qp_delta);
  F(slice_cb_qp_offset);
  F(slice_cr_qp_offset);
  F(slice_act_y_qp_offset);
  F(slice_act_cb_qp_offset);
  F(slice_act_cr_qp_offset);
  F(cu_chroma_qp_offset_enabled_flag);
  F(deblocking_filter_override_flag);
  F(slice_deblocking_filter_disabled_flag);
  F(slice_beta_offset_div2);
  F(slice_tc_offset_div2);
  F(slice_loop_filter_across_slices_enabled_flag);
  F(num_entry_point_offsets);
  F(offset_len_minus1);
  F(entry_point_offset_minus1);
  F(slice_segment_header_extension_length);
  F(slice_segment_header_extension_data_byte);
  j.close('}');
}
inline void emit(J& j, const H265NalUnitHeaderParser::NalUnitHeaderState& x) {
  j.open('{');
  F(forbidden_zero_bit);
  F(nal_unit_type);
  F(nuh_layer_id);
  F(nuh_temporal_id_plus1);
  j.close('}');
}
