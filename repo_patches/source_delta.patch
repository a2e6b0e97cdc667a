From b54d9b444dc5c31161c6655fafc9ec176bb9dfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 01/37] fix: length-prefixed parsing: report each NAL unit's
 own length and do not let a huge length prefix wrap the bounds check

---
 src/h265_bitstream_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 7cea4b2..ef34cb7 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -216,7 +216,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
         break;
       }
       i += nalu_length_bytes;
-      if (nalu_length == 0 || i + nalu_length > length) {
+      if (nalu_length == 0 || nalu_length > length - i) {
         break;
       }
     } else {
@@ -237,7 +237,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
     }
     // store the offset
     nal_unit->offset = i;
-    nal_unit->length = nalu_length_bytes;
+    nal_unit->length = nalu_length;
 
     bitstream->nal_units.push_back(std::move(nal_unit));
 
-- 
2.43.0


From 886467eb802172a51dd41eaca538b218eb564b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 02/37] fix: VPS cprms_present_flag is u(1), and inferred to be
 1 for the first HRD

---
 src/h265_vps_parser.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index b1700a6..7ab8ece 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -225,12 +225,13 @@ std::shared_ptr<H265VpsParser::VpsState> H265VpsParser::ParseVps(
 
       if (i > 0) {
         // cprms_present_flag[i]  u(1)
-        if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
+        if (!bit_buffer->ReadBits(1, bits_tmp)) {
           return nullptr;
         }
-        vps->cprms_present_flag.push_back(golomb_tmp);
+        vps->cprms_present_flag.push_back(bits_tmp);
       } else {
-        vps->cprms_present_flag.push_back(0);
+        // Section 7.4.3.1: cprms_present_flag[0] is inferred to be equal to 1
+        vps->cprms_present_flag.push_back(1);
       }
 
       // hrd_parameters(cprms_present_flag[i], vps_max_sub_layers_minus1)
-- 
2.43.0


From c96c3a0a980b132f68a82086c9a081be2c1d48be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 03/37] fix: HRD fixed_pic_rate_within_cvs_flag is inferred to
 be 1 when fixed_pic_rate_general_flag is 1

---
 src/h265_hrd_parameters_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 53c9bc5..74e2023 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -144,7 +144,9 @@ H265HrdParametersParser::ParseHrdParameters(
       }
       hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(bits_tmp);
     } else {
-      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(0);
+      // Section E.3.2: inferred to be equal to 1 when
+      // fixed_pic_rate_general_flag[i] is equal to 1
+      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(1);
     }
 
     if (hrd_parameters->fixed_pic_rate_within_cvs_flag[i]) {
-- 
2.43.0


From d94af6a3db110ca5b54532c5214f2e452a34ebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 04/37] fix: sub_layer_level_idc is present when
 sub_layer_level_present_flag is set

---
 src/h265_profile_tier_level_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_profile_tier_level_parser.cc b/src/h265_profile_tier_level_parser.cc
index 1333480..9b9e6ea 100644
--- a/src/h265_profile_tier_level_parser.cc
+++ b/src/h265_profile_tier_level_parser.cc
@@ -92,7 +92,7 @@ H265ProfileTierLevelParser::ParseProfileTierLevel(
       }
     }
 
-    if (profile_tier_level->sub_layer_profile_present_flag[i]) {
+    if (profile_tier_level->sub_layer_level_present_flag[i]) {
       // sub_layer_level_idc  u(8)
       if (!bit_buffer->ReadBits(8, bits_tmp)) {
         return nullptr;
-- 
2.43.0


From 47ecec552bff42db4cb819fe8aebc3689205f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 05/37] fix: VPS HRD parameters without common information take
 it from the previous HRD

---
 include/h265_hrd_parameters_parser.h |  3 ++-
 src/h265_hrd_parameters_parser.cc    | 29 +++++++++++++++++++++++++++-
 src/h265_vps_parser.cc               |  2 +-
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/h265_hrd_parameters_parser.h b/include/h265_hrd_parameters_parser.h
index 13f61e5..a1fabc8 100644
--- a/include/h265_hrd_parameters_parser.h
+++ b/include/h265_hrd_parameters_parser.h
@@ -66,7 +66,8 @@ class H265HrdParametersParser {
       uint32_t maxNumSubLayersMinus1) noexcept;
   static std::unique_ptr<HrdParametersState> ParseHrdParameters(
       BitBuffer* bit_buffer, uint32_t commonInfPresentFlag,
-      uint32_t maxNumSubLayersMinus1) noexcept;
+      uint32_t maxNumSubLayersMinus1,
+      const HrdParametersState* previous = nullptr) noexcept;
 };
 
 }  // namespace h265nal
diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 74e2023..b7fe23b 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -33,7 +33,8 @@ H265HrdParametersParser::ParseHrdParameters(
 std::unique_ptr<H265HrdParametersParser::HrdParametersState>
 H265HrdParametersParser::ParseHrdParameters(
     BitBuffer* bit_buffer, uint32_t commonInfPresentFlag,
-    uint32_t maxNumSubLayersMinus1) noexcept {
+    uint32_t maxNumSubLayersMinus1,
+    const HrdParametersState* previous) noexcept {
   uint32_t bits_tmp;
   uint32_t golomb_tmp;
 
@@ -128,6 +129,32 @@ H265HrdParametersParser::ParseHrdParameters(
         return nullptr;
       }
     }
+  } else if (previous != nullptr) {
+    // Section 7.4.3.1: "cprms_present_flag[i] equal to 0 specifies that the
+    // HRD parameters that are common for all sub-layers [...] are derived to
+    // be the same as the (i - 1)-th hrd_parameters() syntax structure"
+    hrd_parameters->nal_hrd_parameters_present_flag =
+        previous->nal_hrd_parameters_present_flag;
+    hrd_parameters->vcl_hrd_parameters_present_flag =
+        previous->vcl_hrd_parameters_present_flag;
+    hrd_parameters->sub_pic_hrd_params_present_flag =
+        previous->sub_pic_hrd_params_present_flag;
+    hrd_parameters->tick_divisor_minus2 = previous->tick_divisor_minus2;
+    hrd_parameters->du_cpb_removal_delay_increment_length_minus1 =
+        previous->du_cpb_removal_delay_increment_length_minus1;
+    hrd_parameters->sub_pic_cpb_params_in_pic_timing_sei_flag =
+        previous->sub_pic_cpb_params_in_pic_timing_sei_flag;
+    hrd_parameters->dpb_output_delay_du_length_minus1 =
+        previous->dpb_output_delay_du_length_minus1;
+    hrd_parameters->bit_rate_scale = previous->bit_rate_scale;
+    hrd_parameters->cpb_size_scale = previous->cpb_size_scale;
+    hrd_parameters->cpb_size_du_scale = previous->cpb_size_du_scale;
+    hrd_parameters->initial_cpb_removal_delay_length_minus1 =
+        previous->initial_cpb_removal_delay_length_minus1;
+    hrd_parameters->au_cpb_removal_delay_length_minus1 =
+        previous->au_cpb_removal_delay_length_minus1;
+    hrd_parameters->dpb_output_delay_length_minus1 =
+        previous->dpb_output_delay_length_minus1;
   }
 
   for (uint32_t i = 0; i <= maxNumSubLayersMinus1; i++) {
diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index 7ab8ece..77bb6b1 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -237,7 +237,7 @@ std::shared_ptr<H265VpsParser::VpsState> H265VpsParser::ParseVps(
       // hrd_parameters(cprms_present_flag[i], vps_max_sub_layers_minus1)
       vps->hrd_parameters = H265HrdParametersParser::ParseHrdParameters(
           bit_buffer, vps->cprms_present_flag[i],
-          vps->vps_max_sub_layers_minus1);
+          vps->vps_max_sub_layers_minus1, vps->hrd_parameters.get());
       if (vps->hrd_parameters == nullptr) {
         return nullptr;
       }
-- 
2.43.0


From b3c0e67b4da466bc496795517d4789206f1b6d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 06/37] fix: SPS picture size must be a multiple of the
 MinCbSizeY actually coded

---
 src/h265_sps_parser.cc | 52 ++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index abe707d..cdf8ec7 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -123,19 +123,6 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  // Rec. ITU-T H.265 v5 (02/2018) Page 78
-  // "pic_width_in_luma_samples shall not be equal to 0 and shall be an
-  // integer multiple of MinCbSizeY."
-  uint32_t MinCbSizeY = sps->getMinCbSizeY();
-  if ((sps->pic_width_in_luma_samples == 0) ||
-      ((MinCbSizeY * (sps->pic_width_in_luma_samples / MinCbSizeY)) !=
-       sps->pic_width_in_luma_samples)) {
-#ifdef FPRINT_ERRORS
-    fprintf(stderr, "error: invalid sps->pic_width_in_luma_samples: %i\n",
-            sps->pic_width_in_luma_samples);
-#endif  // FPRINT_ERRORS
-    return nullptr;
-  }
 
   // pic_height_in_luma_samples  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(sps->pic_height_in_luma_samples)) {
@@ -153,18 +140,6 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  // Rec. ITU-T H.265 v5 (02/2018) Page 78
-  // "pic_height_in_luma_samples shall not be equal to 0 and shall be an
-  // integer multiple of MinCbSizeY."
-  if ((sps->pic_height_in_luma_samples == 0) ||
-      ((MinCbSizeY * (sps->pic_height_in_luma_samples / MinCbSizeY)) !=
-       sps->pic_height_in_luma_samples)) {
-#ifdef FPRINT_ERRORS
-    fprintf(stderr, "error: invalid sps->pic_height_in_luma_samples: %i\n",
-            sps->pic_height_in_luma_samples);
-#endif  // FPRINT_ERRORS
-    return nullptr;
-  }
 
   // conformance_window_flag  u(1)
   if (!bit_buffer->ReadBits(1, sps->conformance_window_flag)) {
@@ -323,6 +298,33 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
     return nullptr;
   }
 
+  // Rec. ITU-T H.265 v5 (02/2018) Page 78
+  // "pic_width_in_luma_samples shall not be equal to 0 and shall be an
+  // integer multiple of MinCbSizeY."
+  uint32_t MinCbSizeY = sps->getMinCbSizeY();
+  if ((sps->pic_width_in_luma_samples == 0) ||
+      ((MinCbSizeY * (sps->pic_width_in_luma_samples / MinCbSizeY)) !=
+       sps->pic_width_in_luma_samples)) {
+#ifdef FPRINT_ERRORS
+    fprintf(stderr, "error: invalid sps->pic_width_in_luma_samples: %i\n",
+            sps->pic_width_in_luma_samples);
+#endif  // FPRINT_ERRORS
+    return nullptr;
+  }
+
+  // Rec. ITU-T H.265 v5 (02/2018) Page 78
+  // "pic_height_in_luma_samples shall not be equal to 0 and shall be an
+  // integer multiple of MinCbSizeY."
+  if ((sps->pic_height_in_luma_samples == 0) ||
+      ((MinCbSizeY * (sps->pic_height_in_luma_samples / MinCbSizeY)) !=
+       sps->pic_height_in_luma_samples)) {
+#ifdef FPRINT_ERRORS
+    fprintf(stderr, "error: invalid sps->pic_height_in_luma_samples: %i\n",
+            sps->pic_height_in_luma_samples);
+#endif  // FPRINT_ERRORS
+    return nullptr;
+  }
+
   // log2_diff_max_min_luma_coding_block_size  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(
           sps->log2_diff_max_min_luma_coding_block_size)) {
-- 
2.43.0


From 43248b9421f7c5f3914ed90e88070f77b3d74fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 07/37] fix: signed exp-Golomb codes above 2^30 decode to the
 wrong value

---
 src/rtc_common.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 970852c..181568b 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -273,7 +273,7 @@ bool BitBuffer::ReadSignedExponentialGolomb(int32_t& val) {
   if ((unsigned_val & 1) == 0) {
     val = -static_cast<int32_t>(unsigned_val / 2);
   } else {
-    val = (static_cast<int32_t>(unsigned_val) + 1) / 2;
+    val = static_cast<int32_t>(unsigned_val / 2 + 1);
   }
   return true;
 }
-- 
2.43.0


From 33299d073b3bc8e1569fee786f30da4df01f4b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 08/37] fix: slice active reference counts are inferred from
 the PPS when not overridden

---
 src/h265_slice_parser.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 2d28f89..bbca1ad 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -391,6 +391,15 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         return nullptr;
       }
 
+      // Section 7.4.7.1: when not present, the values are inferred from the
+      // PPS default values
+      slice_segment_header->num_ref_idx_l0_active_minus1 =
+          pps->num_ref_idx_l0_default_active_minus1;
+      if (slice_segment_header->slice_type == SliceType_B) {
+        slice_segment_header->num_ref_idx_l1_active_minus1 =
+            pps->num_ref_idx_l1_default_active_minus1;
+      }
+
       if (slice_segment_header->num_ref_idx_active_override_flag) {
         // num_ref_idx_l0_active_minus1  ue(v)
         if (!bit_buffer->ReadExponentialGolomb(
-- 
2.43.0


From 52ca5bd5f568061e433bcd7b2b047b8c080603e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 09/37] fix: slice_deblocking_filter_disabled_flag is inferred
 from the PPS when not present

---
 src/h265_slice_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index bbca1ad..53e04bf 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -573,6 +573,10 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // Section 7.4.7.1: when not present, the value is inferred to be equal to
+    // pps_deblocking_filter_disabled_flag
+    slice_segment_header->slice_deblocking_filter_disabled_flag =
+        pps->pps_deblocking_filter_disabled_flag;
     if (slice_segment_header->deblocking_filter_override_flag) {
       // slice_deblocking_filter_disabled_flag  u(1)
       if (!bit_buffer->ReadBits(
-- 
2.43.0


From dcdfc7a33c017b245b72939a167e881999e52131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 10/37] fix: entry point limit with tiles and wavefronts is
 columns * PicHeightInCtbsY - 1

---
 src/h265_slice_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 53e04bf..07fe5dc 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -715,7 +715,7 @@ bool H265SliceSegmentHeaderParser::SliceSegmentHeaderState::
   // ( num_tile_columns_minus1 + 1 ) * PicHeightInCtbsY - 1, inclusive.
   if (tiles_enabled_flag == 1 && entropy_coding_sync_enabled_flag == 1) {
     uint32_t max_num_entry_point_offsets =
-        ((pps->num_tile_columns_minus1 + 1) * (sps->getPicHeightInCtbsY() - 1));
+        ((pps->num_tile_columns_minus1 + 1) * sps->getPicHeightInCtbsY() - 1);
     return (num_entry_point_offsets_value <= max_num_entry_point_offsets);
   }
 
-- 
2.43.0


From 923e5bec35f3e661e73befe808a695a0a243e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 11/37] fix: slice ChromaArrayType must not depend on SAO being
 enabled

---
 src/h265_slice_parser.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 07fe5dc..0349377 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -353,6 +353,19 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // Depending on the value of separate_colour_plane_flag, the value of
+    // the variable ChromaArrayType is assigned as follows:
+    // - If separate_colour_plane_flag is equal to 0, ChromaArrayType is
+    //   set equal to chroma_format_idc.
+    // - Otherwise (separate_colour_plane_flag is equal to 1),
+    //   ChromaArrayType is set equal to 0.
+    uint32_t chroma_format_idc = sps->chroma_format_idc;
+    if (slice_segment_header->separate_colour_plane_flag == 0) {
+      slice_segment_header->ChromaArrayType = chroma_format_idc;
+    } else {
+      slice_segment_header->ChromaArrayType = 0;
+    }
+
     slice_segment_header->sample_adaptive_offset_enabled_flag =
         sps->sample_adaptive_offset_enabled_flag;
     if (slice_segment_header->sample_adaptive_offset_enabled_flag) {
@@ -361,19 +374,6 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         return nullptr;
       }
 
-      // Depending on the value of separate_colour_plane_flag, the value of
-      // the variable ChromaArrayType is assigned as follows:
-      // - If separate_colour_plane_flag is equal to 0, ChromaArrayType is
-      //   set equal to chroma_format_idc.
-      // - Otherwise (separate_colour_plane_flag is equal to 1),
-      //   ChromaArrayType is set equal to 0.
-      uint32_t chroma_format_idc = sps->chroma_format_idc;
-      if (slice_segment_header->separate_colour_plane_flag == 0) {
-        slice_segment_header->ChromaArrayType = chroma_format_idc;
-      } else {
-        slice_segment_header->ChromaArrayType = 0;
-      }
-
       if (slice_segment_header->ChromaArrayType != 0) {
         // slice_sao_chroma_flag  u(1)
         if (!bit_buffer->ReadBits(
-- 
2.43.0


From 3cb2ed6ca1a4fc828cf0565d7b5d1985c55bd08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 12/37] fix: a PPS whose multilayer extension does not parse is
 rejected

---
 src/h265_pps_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index d33eb84..6ab8815 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -303,6 +303,9 @@ std::shared_ptr<H265PpsParser::PpsState> H265PpsParser::ParsePps(
     pps->pps_multilayer_extension =
         H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
             bit_buffer);
+    if (pps->pps_multilayer_extension == nullptr) {
+      return nullptr;
+    }
   }
 
   if (pps->pps_3d_extension_flag) {
-- 
2.43.0


From 39f109bf64963887d2211b49a00027c227a7d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 13/37] fix: PPS SCC chroma_bit_depth_entry_minus8 is present
 when the palette is not monochrome

---
 src/h265_pps_scc_extension_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_scc_extension_parser.cc b/src/h265_pps_scc_extension_parser.cc
index 9fcb347..e5819ac 100644
--- a/src/h265_pps_scc_extension_parser.cc
+++ b/src/h265_pps_scc_extension_parser.cc
@@ -104,7 +104,7 @@ H265PpsSccExtensionParser::ParsePpsSccExtension(
         return nullptr;
       }
 
-      if (pps_scc_extension->monochrome_palette_flag) {
+      if (!pps_scc_extension->monochrome_palette_flag) {
         // chroma_bit_depth_entry_minus8  ue(v)
         if (!bit_buffer->ReadExponentialGolomb(
                 pps_scc_extension->chroma_bit_depth_entry_minus8)) {
-- 
2.43.0


From ec9d1697edd0b1cb1b4c6ab32fa23d7502b4ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 14/37] fix: short-term reference picture set
 delta_poc_sX_minus1 above 2^15-1 is rejected

---
 include/h265_st_ref_pic_set_parser.h |  3 +++
 src/h265_st_ref_pic_set_parser.cc    | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/h265_st_ref_pic_set_parser.h b/include/h265_st_ref_pic_set_parser.h
index 9622390..f89faea 100644
--- a/include/h265_st_ref_pic_set_parser.h
+++ b/include/h265_st_ref_pic_set_parser.h
@@ -35,6 +35,9 @@ class H265StRefPicSetParser {
   // sps_max_dec_pic_buffering_minus1[sps_max_sub_layers_minus1] -
   // num_negative_pics, inclusive."
   const static uint32_t kNumPositivePicsMin = 0;
+  // Section 7.4.8: "The value of delta_poc_s0_minus1[ i ] shall be in the
+  // range of 0 to 2^15 - 1, inclusive." (the same for delta_poc_s1_minus1)
+  const static uint32_t kDeltaPocSxMinus1Max = 32767;
 
   // The parsed state of the StRefPicSet.
   struct StRefPicSetState {
diff --git a/src/h265_st_ref_pic_set_parser.cc b/src/h265_st_ref_pic_set_parser.cc
index f530776..d036fec 100644
--- a/src/h265_st_ref_pic_set_parser.cc
+++ b/src/h265_st_ref_pic_set_parser.cc
@@ -317,6 +317,15 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocSxMinus1Max) {
+#ifdef FPRINT_ERRORS
+        fprintf(stderr,
+                "invalid delta_poc_s0_minus1[%u]: %" PRIu32
+                " not in range [0, %" PRIu32 "]\n",
+                i, golomb_tmp, kDeltaPocSxMinus1Max);
+#endif  // FPRINT_ERRORS
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s0_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s0_flag[i] u(1)
@@ -331,6 +340,15 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocSxMinus1Max) {
+#ifdef FPRINT_ERRORS
+        fprintf(stderr,
+                "invalid delta_poc_s1_minus1[%u]: %" PRIu32
+                " not in range [0, %" PRIu32 "]\n",
+                i, golomb_tmp, kDeltaPocSxMinus1Max);
+#endif  // FPRINT_ERRORS
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s1_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s1_flag[i] u(1)
-- 
2.43.0


From 6be725a350c305230cb18714c72dacac3d874e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 15/37] fix: RTP aggregation packets are split by the coded NAL
 unit sizes

---
 include/h265_rtp_ap_parser.h |  2 ++
 src/h265_rtp_ap_parser.cc    | 17 +++++++++++++----
 src/h265_rtp_parser.cc       |  8 ++++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/h265_rtp_ap_parser.h b/include/h265_rtp_ap_parser.h
index b49fdc0..274e7c2 100644
--- a/include/h265_rtp_ap_parser.h
+++ b/include/h265_rtp_ap_parser.h
@@ -50,6 +50,8 @@ class H265RtpApParser {
   static std::unique_ptr<RtpApState> ParseRtpAp(
       const uint8_t* data, size_t length,
       struct H265BitstreamParserState* bitstream_parser_state) noexcept;
+  // The buffer must contain the packet as received: NALUs are unescaped one
+  // by one, as the AP NALU sizes count escaped bytes.
   static std::unique_ptr<RtpApState> ParseRtpAp(
       BitBuffer* bit_buffer,
       struct H265BitstreamParserState* bitstream_parser_state) noexcept;
diff --git a/src/h265_rtp_ap_parser.cc b/src/h265_rtp_ap_parser.cc
index b16af27..dde79af 100644
--- a/src/h265_rtp_ap_parser.cc
+++ b/src/h265_rtp_ap_parser.cc
@@ -25,8 +25,9 @@ namespace h265nal {
 std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     const uint8_t* data, size_t length,
     struct H265BitstreamParserState* bitstream_parser_state) noexcept {
-  std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
-  BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
+  // the NALU sizes in an AP count escaped bytes: each NALU is unescaped on
+  // its own when parsed
+  BitBuffer bit_buffer(data, length);
   return ParseRtpAp(&bit_buffer, bitstream_parser_state);
 }
 
@@ -57,9 +58,17 @@ std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     }
     rtp_ap->nal_unit_sizes.push_back(nalu_size);
 
+    // get the NALU (exactly nalu_size bytes), and unescape it
+    std::vector<uint8_t> nalu(nalu_size);
+    if (nalu_size > 0 && !bit_buffer->ReadBytes(nalu_size, nalu.data())) {
+      return nullptr;
+    }
+    std::vector<uint8_t> unpacked_nalu = UnescapeRbsp(nalu.data(), nalu.size());
+    BitBuffer nalu_bit_buffer(unpacked_nalu.data(), unpacked_nalu.size());
+
     // NALU header
     rtp_ap->nal_unit_headers.push_back(
-        H265NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer));
+        H265NalUnitHeaderParser::ParseNalUnitHeader(&nalu_bit_buffer));
     if (rtp_ap->nal_unit_headers.back() == nullptr) {
 #ifdef FPRINT_ERRORS
       fprintf(stderr, "error: cannot ParseNalUnitHeader in rtp ap\n");
@@ -70,7 +79,7 @@ std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     // NALU payload
     rtp_ap->nal_unit_payloads.push_back(
         H265NalUnitPayloadParser::ParseNalUnitPayload(
-            bit_buffer, rtp_ap->nal_unit_headers.back()->nal_unit_type,
+            &nalu_bit_buffer, rtp_ap->nal_unit_headers.back()->nal_unit_type,
             bitstream_parser_state));
     if (rtp_ap->nal_unit_payloads.back() == nullptr) {
       return nullptr;
diff --git a/src/h265_rtp_parser.cc b/src/h265_rtp_parser.cc
index 4f923af..11d8690 100644
--- a/src/h265_rtp_parser.cc
+++ b/src/h265_rtp_parser.cc
@@ -23,6 +23,14 @@ namespace h265nal {
 std::unique_ptr<H265RtpParser::RtpState> H265RtpParser::ParseRtp(
     const uint8_t* data, size_t length,
     struct H265BitstreamParserState* bitstream_parser_state) noexcept {
+  // aggregation packets are unescaped NALU by NALU
+  BitBuffer raw_bit_buffer(data, length);
+  auto header = H265NalUnitHeaderParser::ParseNalUnitHeader(&raw_bit_buffer);
+  if (header != nullptr && header->nal_unit_type == AP) {
+    raw_bit_buffer.Seek(0, 0);
+    return ParseRtp(&raw_bit_buffer, bitstream_parser_state);
+  }
+
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParseRtp(&bit_buffer, bitstream_parser_state);
-- 
2.43.0


From e3f453bf65ff6d5a924af180ca56b963a5af93d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 16/37] fix: GetSliceQpY uses the PPS in force at each slice

---
 src/h265_utils.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index cf67820..e556910 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -15,6 +15,7 @@
 #include "h265_bitstream_parser.h"
 #include "h265_bitstream_parser_state.h"
 #include "h265_common.h"
+#include "h265_nal_unit_parser.h"
 #ifdef RTP_DEFINE
 #include "h265_rtp_parser.h"
 #endif  // RTP_DEFINE
@@ -117,10 +118,17 @@ std::vector<int32_t> H265Utils::GetSliceQpY(
   // parse the incoming bitstream
   ParsingOptions parsing_options;
   parsing_options.add_checksum = false;
-  auto bitstream_state = h265nal::H265BitstreamParser::ParseBitstream(
-      data, length, bitstream_parser_state, parsing_options);
-  // get all possible QP values
-  for (auto& nal_unit : bitstream_state->nal_units) {
+  // get all possible QP values. The QP of a slice depends on the PPS in force
+  // when the slice is parsed, so get it before parsing the next NAL unit.
+  for (const auto& nalu_index :
+       H265BitstreamParser::FindNaluIndices(data, length)) {
+    auto nal_unit = H265NalUnitParser::ParseNalUnit(
+        &data[nalu_index.payload_start_offset], nalu_index.payload_size,
+        bitstream_parser_state, parsing_options);
+    if (nal_unit == nullptr) {
+      // cannot parse the NalUnit
+      continue;
+    }
     uint32_t nal_unit_type = nal_unit->nal_unit_header->nal_unit_type;
     auto& payload = nal_unit->nal_unit_payload;
     // get the slice QP_Y value
-- 
2.43.0


From 053076ad70206a686af1032d2e89aa93f6cf2847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 17/37] fix: GetSliceQpY of an aggregation packet without NAL
 units returns nothing

---
 src/h265_utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index e556910..c84e14c 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -90,6 +90,10 @@ std::unique_ptr<int32_t> H265Utils::GetSliceQpY(
     payload = &rtp->rtp_single->nal_unit_payload;
   } else if (rtp->nal_unit_header->nal_unit_type == AP) {
     // use the latest NAL unit in the AP
+    if (rtp->rtp_ap->nal_unit_headers.empty()) {
+      // no NAL units in the AP
+      return nullptr;
+    }
     size_t index = rtp->rtp_ap->nal_unit_headers.size() - 1;
     auto& header = rtp->rtp_ap->nal_unit_headers[index];
     nal_unit_type = header->nal_unit_type;
-- 
2.43.0


From 0116d9a19a6aec4b9e2209cfeb5b4a6f43bc3a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 18/37] fix: GetSliceQpY does not overflow on extreme QP
 elements

---
 src/h265_utils.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index c84e14c..895db67 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -9,6 +9,7 @@
 #include <cstdint>
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -70,9 +71,14 @@ std::unique_ptr<int32_t> GetSliceQpYInternal(
   const auto init_qp_minus26 = pps->init_qp_minus26;
 
   // Equation 7-54, Section 7.4.7.1
-  int32_t slice_qpy = 26 + init_qp_minus26 + slice_qp_delta;
+  int64_t slice_qpy =
+      26 + static_cast<int64_t>(init_qp_minus26) + slice_qp_delta;
+  if (slice_qpy < std::numeric_limits<int32_t>::min() ||
+      slice_qpy > std::numeric_limits<int32_t>::max()) {
+    return nullptr;
+  }
 
-  return std::make_unique<int32_t>(slice_qpy);
+  return std::make_unique<int32_t>(static_cast<int32_t>(slice_qpy));
 }
 }  // namespace
 
-- 
2.43.0


From 926821af3fb76d67167dfbd39cf81f9558bdedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 19/37] fix: dump of an access unit delimiter without payload
 does not crash

---
 src/h265_nal_unit_payload_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_nal_unit_payload_parser.cc b/src/h265_nal_unit_payload_parser.cc
index ff5189f..e1b7a73 100644
--- a/src/h265_nal_unit_payload_parser.cc
+++ b/src/h265_nal_unit_payload_parser.cc
@@ -232,7 +232,9 @@ void H265NalUnitPayloadParser::NalUnitPayloadState::fdump(
       }
       break;
     case AUD_NUT:
-      aud->fdump(outfp, indent_level);
+      if (aud) {
+        aud->fdump(outfp, indent_level);
+      }
       break;
     case EOS_NUT:
       // end_of_seq_rbsp()
-- 
2.43.0


From 8d53722d300ea9fbbb5c263e522435542eab5d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 20/37] fix: dump of an hvcC box with an unparseable NAL unit
 does not crash

---
 src/h265_configuration_box_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h265_configuration_box_parser.cc b/src/h265_configuration_box_parser.cc
index 2031427..56c09fc 100644
--- a/src/h265_configuration_box_parser.cc
+++ b/src/h265_configuration_box_parser.cc
@@ -359,6 +359,10 @@ void H265ConfigurationBoxParser::ConfigurationBoxState::fdump(
       fdump_indent_level(outfp, indent_level);
       fprintf(outfp, "nalUnitLength[%i][%i]: %i", j, i, nalUnitLength[j][i]);
 
+      if (nalUnit[j][i] == nullptr) {
+        // not a valid NAL unit
+        continue;
+      }
       fdump_indent_level(outfp, indent_level);
       nalUnit[j][i]->fdump(outfp, indent_level, parsing_options);
     }
-- 
2.43.0


From d4dddf3f8084d5b1e66084ca07a9f31583c4ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 21/37] fix: dump with checksum of a NAL unit parsed without it
 does not crash

---
 src/h265_nal_unit_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_nal_unit_parser.cc b/src/h265_nal_unit_parser.cc
index c6f35bf..15b2530 100644
--- a/src/h265_nal_unit_parser.cc
+++ b/src/h265_nal_unit_parser.cc
@@ -108,7 +108,7 @@ void H265NalUnitParser::NalUnitState::fdump(
   }
 
   // nal unit checksum
-  if (parsing_options.add_checksum) {
+  if (parsing_options.add_checksum && checksum != nullptr) {
     fdump_indent_level(outfp, indent_level);
     char checksum_printable[64] = {};
     checksum->fdump(checksum_printable, 64);
-- 
2.43.0


From 76ead2b4400e1c8d21fc0fdad5e191292ab10b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 22/37] fix: NAL unit offset and length are defined when the
 unit is parsed on its own

---
 include/h265_nal_unit_parser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/h265_nal_unit_parser.h b/include/h265_nal_unit_parser.h
index ef14840..bab4026 100644
--- a/include/h265_nal_unit_parser.h
+++ b/include/h265_nal_unit_parser.h
@@ -35,11 +35,11 @@ class H265NalUnitParser {
 #endif  // FDUMP_DEFINE
 
     // NAL Unit offset in the full blob
-    size_t offset;
+    size_t offset = 0;
     // NAL Unit length
-    size_t length;
+    size_t length = 0;
     // NAL Unit parsed length
-    size_t parsed_length;
+    size_t parsed_length = 0;
     // NAL Unit checksum
     std::shared_ptr<NaluChecksum> checksum;
 
-- 
2.43.0


From 5f3ed51e5fc955aa0e80fbec28348cf0e02d4fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 23/37] fix: h265nal --dump-length does not crash on slices
 without a parsed header

---
 tools/h265nal.cc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index d88a4ab..d907a05 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -505,16 +505,22 @@ int main(int argc, char** argv) {
         uint32_t slice_segment_address = 0;
         uint32_t slice_pic_order_cnt_lsb = 0;
         bool is_slice_segment = h265nal::IsSliceSegment(nal_unit_type);
+        // slice segments whose header cannot be parsed have no header values
+        const auto& slice_segment_layer =
+            nal_unit->nal_unit_payload->slice_segment_layer;
+        bool has_slice_header =
+            is_slice_segment && slice_segment_layer != nullptr &&
+            slice_segment_layer->slice_segment_header != nullptr;
         if (is_slice_segment) {
-          first_slice_segment_in_pic_flag =
-              nal_unit->nal_unit_payload->slice_segment_layer
-                  ->slice_segment_header->first_slice_segment_in_pic_flag;
-          slice_segment_address =
-              nal_unit->nal_unit_payload->slice_segment_layer
-                  ->slice_segment_header->slice_segment_address;
-          slice_pic_order_cnt_lsb =
-              nal_unit->nal_unit_payload->slice_segment_layer
-                  ->slice_segment_header->slice_pic_order_cnt_lsb;
+          if (has_slice_header) {
+            const auto& slice_segment_header =
+                slice_segment_layer->slice_segment_header;
+            first_slice_segment_in_pic_flag =
+                slice_segment_header->first_slice_segment_in_pic_flag;
+            slice_segment_address = slice_segment_header->slice_segment_address;
+            slice_pic_order_cnt_lsb =
+                slice_segment_header->slice_pic_order_cnt_lsb;
+          }
           if (first_slice_segment_in_pic_flag == 1 && total_bytes > 0) {
             // dump last frame info
             bitrate_bps = total_bytes * 8 *
@@ -531,12 +537,12 @@ int main(int argc, char** argv) {
             outfp, "%zu,%zu,%u,%s,%zu,,%s,%s,%s\n", nal_num, frame_num,
             nal_unit_type, nal_unit_type_str.c_str(), nal_length_bytes,
             opt_value(static_cast<int>(first_slice_segment_in_pic_flag),
-                      is_slice_segment)
+                      has_slice_header)
                 .c_str(),
-            opt_value(static_cast<int>(slice_segment_address), is_slice_segment)
+            opt_value(static_cast<int>(slice_segment_address), has_slice_header)
                 .c_str(),
             opt_value(static_cast<int>(slice_pic_order_cnt_lsb),
-                      is_slice_segment)
+                      has_slice_header)
                 .c_str());
         nal_num += 1;
       }
-- 
2.43.0


From cb97cfbccd22bc68227f99324b5b5cdd45eae92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 24/37] fix: h265nal accepts the documented --nalu-length-bytes
 -1

---
 tools/h265nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index d907a05..113137d 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -299,7 +299,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
         char* end;
         errno = 0;
         long val = strtol(optarg, &end, 10);
-        if (errno != 0 || *end != '\0' || val < 0 || val > INT_MAX) {
+        if (errno != 0 || *end != '\0' || val < -1 || val > INT_MAX) {
           fprintf(stderr, "error: invalid nalu_length_bytes: %s\n", optarg);
           return -1;
         }
-- 
2.43.0


From 28becf8c1fb5537a42abc0c0bb5193f9cb5d105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 25/37] fix: scaling list coefficients out of range are
 rejected instead of overflowing

---
 src/h265_scaling_list_data_parser.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/h265_scaling_list_data_parser.cc b/src/h265_scaling_list_data_parser.cc
index e03a3ec..fe79fc6 100644
--- a/src/h265_scaling_list_data_parser.cc
+++ b/src/h265_scaling_list_data_parser.cc
@@ -82,6 +82,21 @@ H265ScalingListDataParser::ParseScalingListData(
                       ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId])) {
             return nullptr;
           }
+          if (scaling_list_data
+                      ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] <
+                  -7 ||
+              scaling_list_data
+                      ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] >
+                  247) {
+#ifdef FPRINT_ERRORS
+            fprintf(stderr,
+                    "invalid scaling_list_dc_coef_minus8: %" PRIi32
+                    " not in range [-7, 247]\n",
+                    scaling_list_data
+                        ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId]);
+#endif  // FPRINT_ERRORS
+            return nullptr;
+          }
           nextCoef = static_cast<uint32_t>(
               scaling_list_data
                   ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] +
@@ -94,6 +109,15 @@ H265ScalingListDataParser::ParseScalingListData(
                   scaling_list_delta_coef)) {
             return nullptr;
           }
+          if (scaling_list_delta_coef < -128 || scaling_list_delta_coef > 127) {
+#ifdef FPRINT_ERRORS
+            fprintf(stderr,
+                    "invalid scaling_list_delta_coef: %" PRIi32
+                    " not in range [-128, 127]\n",
+                    scaling_list_delta_coef);
+#endif  // FPRINT_ERRORS
+            return nullptr;
+          }
           nextCoef = static_cast<uint32_t>(static_cast<int32_t>(nextCoef) +
                                            scaling_list_delta_coef + 256) %
                      256;
-- 
2.43.0


From a926e03f589ac99257de07636441fbdbb96e154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 26/37] fix: non-symmetric code with a single value takes no
 bits instead of asserting

---
 src/rtc_common.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 181568b..74fd5d0 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -216,6 +216,11 @@ bool BitBuffer::ConsumeBits(size_t bit_count) {
 bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
   RTC_DCHECK_GT(num_values, 0);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
+  if (num_values == 1) {
+    // a single value (0) is coded with no bits at all.
+    val = 0;
+    return true;
+  }
   size_t count_bits = CountBits(num_values);
   uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
 
@@ -359,6 +364,10 @@ bool BitBufferWriter::WriteBits(uint64_t val, size_t bit_count) {
 bool BitBufferWriter::WriteNonSymmetric(uint32_t val, uint32_t num_values) {
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
+  if (num_values == 1) {
+    // a single value (0) is coded with no bits at all.
+    return true;
+  }
   size_t count_bits = CountBits(num_values);
   uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
 
-- 
2.43.0


From 7f2793646abcd22ec3e86a6c3cc558a4dddf085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 27/37] fix: BitBuffer::ReadBytes leaves the position unchanged
 when it fails

---
 src/rtc_common.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 74fd5d0..1562819 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -186,6 +186,10 @@ bool BitBuffer::ReadBits(size_t bit_count, uint64_t& val) {
 }
 
 bool BitBuffer::ReadBytes(size_t byte_count, uint8_t* buffer) {
+  // Do not move the position if there are not enough bytes left.
+  if (byte_count > RemainingBitCount() / 8) {
+    return false;
+  }
   // There is probably a more efficient way to read a buffer than
   // byte-by-byte.
   for (size_t i = 0; i < byte_count; ++i) {
-- 
2.43.0


From f5eece397e815db8d4d9c0653be8942d4e7638b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 28/37] fix: non-symmetric coding of 2^31 values no longer
 shifts by the word size

---
 src/rtc_common.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 1562819..cefc5df 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -226,7 +226,8 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
     return true;
   }
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   if (!ReadBits(count_bits - 1, val)) {
     return false;
@@ -373,7 +374,8 @@ bool BitBufferWriter::WriteNonSymmetric(uint32_t val, uint32_t num_values) {
     return true;
   }
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values
              ? WriteBits(val, count_bits - 1)
@@ -385,7 +387,8 @@ size_t BitBufferWriter::SizeNonSymmetricBits(uint32_t val,
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values ? (count_bits - 1) : count_bits;
 }
-- 
2.43.0


From 843fdbdc77d76792a57c7a017eb49771b8948ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 29/37] fix: profileTypeToString knows the High Throughput
 profile

---
 src/h265_common.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 2a2a3e4..3301d57 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -311,6 +311,10 @@ void profileTypeToString(enum ProfileType profile, std::string& str) {
       str = "FRExt";
       break;
 
+    case HIGH_THROUGHPUT:
+      str = "High Throughput";
+      break;
+
     case MULTIVIEW_MAIN:
       str = "Multiview Main";
       break;
-- 
2.43.0


From 0e7ff7c7e94dac3968533b492deaeb307aa6c8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 30/37] fix: dump the long-term picture lists of a slice header
 once

They were printed in full for every long-term picture, so the size of the dump grew with the square of the slice header.
---
 src/h265_slice_parser.cc | 45 ++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 0349377..461add4 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -795,33 +795,32 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
         fdump_indent_level(outfp, indent_level);
         fprintf(outfp, "num_long_term_pics: %i", num_long_term_pics);
 
-        for (uint32_t i = 0; i < num_long_term_sps + num_long_term_pics; i++) {
-          if (i < num_long_term_sps) {
-            if (num_long_term_ref_pics_sps > 1) {
-              fdump_indent_level(outfp, indent_level);
-              fprintf(outfp, "lt_idx_sps {");
-              for (const uint32_t& v : lt_idx_sps) {
-                fprintf(outfp, " %i", v);
-              }
-              fprintf(outfp, " }");
-            }
+        if (num_long_term_sps > 0 && num_long_term_ref_pics_sps > 1) {
+          fdump_indent_level(outfp, indent_level);
+          fprintf(outfp, "lt_idx_sps {");
+          for (const uint32_t& v : lt_idx_sps) {
+            fprintf(outfp, " %i", v);
+          }
+          fprintf(outfp, " }");
+        }
 
-          } else {
-            fdump_indent_level(outfp, indent_level);
-            fprintf(outfp, "poc_lsb_lt {");
-            for (const uint32_t& v : poc_lsb_lt) {
-              fprintf(outfp, " %i", v);
-            }
-            fprintf(outfp, " }");
+        if (num_long_term_pics > 0) {
+          fdump_indent_level(outfp, indent_level);
+          fprintf(outfp, "poc_lsb_lt {");
+          for (const uint32_t& v : poc_lsb_lt) {
+            fprintf(outfp, " %i", v);
+          }
+          fprintf(outfp, " }");
 
-            fdump_indent_level(outfp, indent_level);
-            fprintf(outfp, "used_by_curr_pic_lt_flag {");
-            for (const uint32_t& v : used_by_curr_pic_lt_flag) {
-              fprintf(outfp, " %i", v);
-            }
-            fprintf(outfp, " }");
+          fdump_indent_level(outfp, indent_level);
+          fprintf(outfp, "used_by_curr_pic_lt_flag {");
+          for (const uint32_t& v : used_by_curr_pic_lt_flag) {
+            fprintf(outfp, " %i", v);
           }
+          fprintf(outfp, " }");
+        }
 
+        if (num_long_term_sps > 0 || num_long_term_pics > 0) {
           fdump_indent_level(outfp, indent_level);
           fprintf(outfp, "delta_poc_msb_present_flag {");
           for (const uint32_t& v : delta_poc_msb_present_flag) {
-- 
2.43.0


From a46ab6a6644fed0830723e494579425596070988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 31/37] fix: dump the sub-layer HRD parameters once

With both NAL and VCL HRD parameters present, the vector that holds them was printed twice.
---
 src/h265_hrd_parameters_parser.cc | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index b7fe23b..49f6a52 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -336,21 +336,7 @@ void H265HrdParametersParser::HrdParametersState::fdump(
   }
   fprintf(outfp, " }");
 
-  if (nal_hrd_parameters_present_flag) {
-    // sublayer_hrd_parameters()
-    fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "sub_layer_hrd_parameters_vector {");
-    indent_level = indent_level_incr(indent_level);
-    for (auto& v : sub_layer_hrd_parameters_vector) {
-      fdump_indent_level(outfp, indent_level);
-      v->fdump(outfp, indent_level);
-    }
-    indent_level = indent_level_decr(indent_level);
-    fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "}");
-  }
-
-  if (vcl_hrd_parameters_present_flag) {
+  if (nal_hrd_parameters_present_flag || vcl_hrd_parameters_present_flag) {
     // sublayer_hrd_parameters()
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "sub_layer_hrd_parameters_vector {");
-- 
2.43.0


From 82e5d9dbdb2bd08327998025b217e41ee1a11332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 32/37] fix: dump diff_cu_qp_delta_depth of a PPS

cu_qp_delta_enabled_flag was printed a second time in its place.
---
 src/h265_pps_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index 6ab8815..e6f7fc9 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -393,7 +393,7 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
 
   if (cu_qp_delta_enabled_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "cu_qp_delta_enabled_flag: %i", cu_qp_delta_enabled_flag);
+    fprintf(outfp, "diff_cu_qp_delta_depth: %u", diff_cu_qp_delta_depth);
   }
 
   fdump_indent_level(outfp, indent_level);
-- 
2.43.0


From 14aeea377cca9515675dc7d18c9a899c7166b4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 33/37] fix: dump unsigned elements as unsigned

Elements coded as ue(v) or u(32) were printed with %i: values from 2^31 on came out negative.
---
 src/h265_hrd_parameters_parser.cc           |  2 +-
 src/h265_pps_parser.cc                      |  6 +++---
 src/h265_pred_weight_table_parser.cc        |  2 +-
 src/h265_slice_parser.cc                    |  8 ++++----
 src/h265_sps_3d_extension_parser.cc         |  4 ++--
 src/h265_sps_parser.cc                      | 16 ++++++++--------
 src/h265_sub_layer_hrd_parameters_parser.cc |  8 ++++----
 src/h265_vps_parser.cc                      | 12 ++++++------
 8 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 49f6a52..7f6e026 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -318,7 +318,7 @@ void H265HrdParametersParser::HrdParametersState::fdump(
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "elemental_duration_in_tc_minus1 {");
   for (const uint32_t& v : elemental_duration_in_tc_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index e6f7fc9..6a41b5c 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -437,14 +437,14 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
       fdump_indent_level(outfp, indent_level);
       fprintf(outfp, "column_width_minus1 {");
       for (const uint32_t& v : column_width_minus1) {
-        fprintf(outfp, " %i", v);
+        fprintf(outfp, " %u", v);
       }
       fprintf(outfp, " }");
 
       fdump_indent_level(outfp, indent_level);
       fprintf(outfp, "row_height_minus1 {");
       for (const uint32_t& v : row_height_minus1) {
-        fprintf(outfp, " %i", v);
+        fprintf(outfp, " %u", v);
       }
       fprintf(outfp, " }");
     }
@@ -494,7 +494,7 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
           lists_modification_present_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "log2_parallel_merge_level_minus2: %i",
+  fprintf(outfp, "log2_parallel_merge_level_minus2: %u",
           log2_parallel_merge_level_minus2);
 
   fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_pred_weight_table_parser.cc b/src/h265_pred_weight_table_parser.cc
index bff9207..ad918b5 100644
--- a/src/h265_pred_weight_table_parser.cc
+++ b/src/h265_pred_weight_table_parser.cc
@@ -131,7 +131,7 @@ void H265PredWeightTableParser::PredWeightTableState::fdump(
   indent_level = indent_level_incr(indent_level);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "luma_log2_weight_denom: %i", luma_log2_weight_denom);
+  fprintf(outfp, "luma_log2_weight_denom: %u", luma_log2_weight_denom);
 
   if (ChromaArrayType != 0) {
     fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 461add4..fe37c4e 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -831,7 +831,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
           fdump_indent_level(outfp, indent_level);
           fprintf(outfp, "delta_poc_msb_cycle_lt {");
           for (const uint32_t& v : delta_poc_msb_cycle_lt) {
-            fprintf(outfp, " %i", v);
+            fprintf(outfp, " %u", v);
           }
           fprintf(outfp, " }");
         }
@@ -895,7 +895,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
         if ((collocated_from_l0_flag && num_ref_idx_l0_active_minus1 > 0) ||
             (!collocated_from_l0_flag && num_ref_idx_l1_active_minus1 > 0)) {
           fdump_indent_level(outfp, indent_level);
-          fprintf(outfp, "collocated_ref_idx: %i", collocated_ref_idx);
+          fprintf(outfp, "collocated_ref_idx: %u", collocated_ref_idx);
         }
       }
 
@@ -906,7 +906,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
       }
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "five_minus_max_num_merge_cand: %i",
+      fprintf(outfp, "five_minus_max_num_merge_cand: %u",
               five_minus_max_num_merge_cand);
 
       if (motion_vector_resolution_control_idc == 2) {
@@ -983,7 +983,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
       fdump_indent_level(outfp, indent_level);
       fprintf(outfp, "entry_point_offset_minus1 {");
       for (const uint32_t& v : entry_point_offset_minus1) {
-        fprintf(outfp, " %i", v);
+        fprintf(outfp, " %u", v);
       }
       fprintf(outfp, " }");
     }
diff --git a/src/h265_sps_3d_extension_parser.cc b/src/h265_sps_3d_extension_parser.cc
index 1aa216b..5c63432 100644
--- a/src/h265_sps_3d_extension_parser.cc
+++ b/src/h265_sps_3d_extension_parser.cc
@@ -146,7 +146,7 @@ void H265Sps3dExtensionParser::Sps3dExtensionState::fdump(
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "log2_ivmc_sub_pb_size_minus3: %i",
+  fprintf(outfp, "log2_ivmc_sub_pb_size_minus3: %u",
           log2_ivmc_sub_pb_size_minus3);
 
   fdump_indent_level(outfp, indent_level);
@@ -165,7 +165,7 @@ void H265Sps3dExtensionParser::Sps3dExtensionState::fdump(
   fprintf(outfp, "tex_mc_enabled_flag: %i", tex_mc_enabled_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "log2_texmc_sub_pb_size_minus3: %i",
+  fprintf(outfp, "log2_texmc_sub_pb_size_minus3: %u",
           log2_texmc_sub_pb_size_minus3);
 
   fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index cdf8ec7..14c268c 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -669,14 +669,14 @@ void H265SpsParser::SpsState::fdump(FILE* outfp, int indent_level,
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "sps_max_num_reorder_pics {");
   for (const uint32_t& v : sps_max_num_reorder_pics) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "sps_max_latency_increase_plus1 {");
   for (const uint32_t& v : sps_max_latency_increase_plus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
@@ -689,19 +689,19 @@ void H265SpsParser::SpsState::fdump(FILE* outfp, int indent_level,
           log2_diff_max_min_luma_coding_block_size);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "log2_min_luma_transform_block_size_minus2: %i",
+  fprintf(outfp, "log2_min_luma_transform_block_size_minus2: %u",
           log2_min_luma_transform_block_size_minus2);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "log2_diff_max_min_luma_transform_block_size: %i",
+  fprintf(outfp, "log2_diff_max_min_luma_transform_block_size: %u",
           log2_diff_max_min_luma_transform_block_size);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "max_transform_hierarchy_depth_inter: %i",
+  fprintf(outfp, "max_transform_hierarchy_depth_inter: %u",
           max_transform_hierarchy_depth_inter);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "max_transform_hierarchy_depth_intra: %i",
+  fprintf(outfp, "max_transform_hierarchy_depth_intra: %u",
           max_transform_hierarchy_depth_intra);
 
   fdump_indent_level(outfp, indent_level);
@@ -738,11 +738,11 @@ void H265SpsParser::SpsState::fdump(FILE* outfp, int indent_level,
             pcm_sample_bit_depth_chroma_minus1);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "log2_min_pcm_luma_coding_block_size_minus3: %i",
+    fprintf(outfp, "log2_min_pcm_luma_coding_block_size_minus3: %u",
             log2_min_pcm_luma_coding_block_size_minus3);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "log2_diff_max_min_pcm_luma_coding_block_size: %i",
+    fprintf(outfp, "log2_diff_max_min_pcm_luma_coding_block_size: %u",
             log2_diff_max_min_pcm_luma_coding_block_size);
 
     fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_sub_layer_hrd_parameters_parser.cc b/src/h265_sub_layer_hrd_parameters_parser.cc
index bd87f85..c004a7b 100644
--- a/src/h265_sub_layer_hrd_parameters_parser.cc
+++ b/src/h265_sub_layer_hrd_parameters_parser.cc
@@ -98,28 +98,28 @@ void H265SubLayerHrdParametersParser::SubLayerHrdParametersState::fdump(
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_value_minus1 {");
   for (const uint32_t& v : bit_rate_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "cpb_size_value_minus1 {");
   for (const uint32_t& v : cpb_size_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "cpb_size_du_value_minus1 {");
   for (const uint32_t& v : cpb_size_du_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_du_value_minus1 {");
   for (const uint32_t& v : bit_rate_du_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index 77bb6b1..644e10a 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -302,21 +302,21 @@ void H265VpsParser::VpsState::fdump(FILE* outfp, int indent_level) const {
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_max_dec_pic_buffering_minus1 {");
   for (const uint32_t& v : vps_max_dec_pic_buffering_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_max_num_reorder_pics {");
   for (const uint32_t& v : vps_max_num_reorder_pics) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_max_latency_increase_plus1 {");
   for (const uint32_t& v : vps_max_latency_increase_plus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
@@ -342,10 +342,10 @@ void H265VpsParser::VpsState::fdump(FILE* outfp, int indent_level) const {
           vps_timing_info_present_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_num_units_in_tick: %i", vps_num_units_in_tick);
+  fprintf(outfp, "vps_num_units_in_tick: %u", vps_num_units_in_tick);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_time_scale: %i", vps_time_scale);
+  fprintf(outfp, "vps_time_scale: %u", vps_time_scale);
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_poc_proportional_to_timing_flag: %i",
@@ -362,7 +362,7 @@ void H265VpsParser::VpsState::fdump(FILE* outfp, int indent_level) const {
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "hrd_layer_set_idx {");
     for (const uint32_t& v : hrd_layer_set_idx) {
-      fprintf(outfp, " %i", v);
+      fprintf(outfp, " %u", v);
     }
     fprintf(outfp, " }");
 
-- 
2.43.0


From 7cebc5ebdbde33c64d8f40a75908702457892c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 34/37] fix: dump the remaining unsigned elements as unsigned

More elements coded as ue(v), u(32) or wider were printed with %i: values from 2^31 on came out negative.
---
 src/h265_pps_parser.cc               | 12 ++++++------
 src/h265_pps_scc_extension_parser.cc |  2 +-
 src/h265_scaling_list_data_parser.cc |  2 +-
 src/h265_slice_parser.cc             |  8 ++++----
 src/h265_vps_parser.cc               |  2 +-
 src/h265_vui_parameters_parser.cc    |  6 +++---
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index 6a41b5c..cb7d5d8 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -346,10 +346,10 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
   indent_level = indent_level_incr(indent_level);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "pps_pic_parameter_set_id: %i", pps_pic_parameter_set_id);
+  fprintf(outfp, "pps_pic_parameter_set_id: %u", pps_pic_parameter_set_id);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "pps_seq_parameter_set_id: %i", pps_seq_parameter_set_id);
+  fprintf(outfp, "pps_seq_parameter_set_id: %u", pps_seq_parameter_set_id);
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "dependent_slice_segments_enabled_flag: %i",
@@ -370,11 +370,11 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
   fprintf(outfp, "cabac_init_present_flag: %i", cabac_init_present_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "num_ref_idx_l0_default_active_minus1: %i",
+  fprintf(outfp, "num_ref_idx_l0_default_active_minus1: %u",
           num_ref_idx_l0_default_active_minus1);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "num_ref_idx_l1_default_active_minus1: %i",
+  fprintf(outfp, "num_ref_idx_l1_default_active_minus1: %u",
           num_ref_idx_l1_default_active_minus1);
 
   fdump_indent_level(outfp, indent_level);
@@ -425,10 +425,10 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
 
   if (tiles_enabled_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "num_tile_columns_minus1: %i", num_tile_columns_minus1);
+    fprintf(outfp, "num_tile_columns_minus1: %u", num_tile_columns_minus1);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "num_tile_rows_minus1: %i", num_tile_rows_minus1);
+    fprintf(outfp, "num_tile_rows_minus1: %u", num_tile_rows_minus1);
 
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "uniform_spacing_flag: %i", uniform_spacing_flag);
diff --git a/src/h265_pps_scc_extension_parser.cc b/src/h265_pps_scc_extension_parser.cc
index e5819ac..7cdff5c 100644
--- a/src/h265_pps_scc_extension_parser.cc
+++ b/src/h265_pps_scc_extension_parser.cc
@@ -214,7 +214,7 @@ void H265PpsSccExtensionParser::PpsSccExtensionState::fdump(
            pps_palette_predictor_initializers) {
         fprintf(outfp, " {");
         for (const uint32_t& v : vv) {
-          fprintf(outfp, " %i", v);
+          fprintf(outfp, " %u", v);
         }
         fprintf(outfp, " }");
       }
diff --git a/src/h265_scaling_list_data_parser.cc b/src/h265_scaling_list_data_parser.cc
index fe79fc6..4e7ca42 100644
--- a/src/h265_scaling_list_data_parser.cc
+++ b/src/h265_scaling_list_data_parser.cc
@@ -152,7 +152,7 @@ void H265ScalingListDataParser::ScalingListDataState::fdump(
   for (const std::vector<uint32_t>& vv : scaling_list_pred_matrix_id_delta) {
     fprintf(outfp, " {");
     for (const uint32_t& v : vv) {
-      fprintf(outfp, " %i", v);
+      fprintf(outfp, " %u", v);
     }
     fprintf(outfp, " }");
   }
diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index fe37c4e..62140d0 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -740,7 +740,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
           no_output_of_prior_pics_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "slice_pic_parameter_set_id: %i", slice_pic_parameter_set_id);
+  fprintf(outfp, "slice_pic_parameter_set_id: %u", slice_pic_parameter_set_id);
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "dependent_slice_segment_flag: %i",
@@ -758,7 +758,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
     fprintf(outfp, " }");
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "slice_type: %i", slice_type);
+    fprintf(outfp, "slice_type: %u", slice_type);
 
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "pic_output_flag: %i", pic_output_flag);
@@ -861,12 +861,12 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
 
       if (num_ref_idx_active_override_flag) {
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "num_ref_idx_l0_active_minus1: %i",
+        fprintf(outfp, "num_ref_idx_l0_active_minus1: %u",
                 num_ref_idx_l0_active_minus1);
 
         if (slice_type == SliceType_B) {
           fdump_indent_level(outfp, indent_level);
-          fprintf(outfp, "num_ref_idx_l1_active_minus1: %i",
+          fprintf(outfp, "num_ref_idx_l1_active_minus1: %u",
                   num_ref_idx_l1_active_minus1);
         }
       }
diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index 644e10a..118f4ff 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -352,7 +352,7 @@ void H265VpsParser::VpsState::fdump(FILE* outfp, int indent_level) const {
           vps_poc_proportional_to_timing_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_num_ticks_poc_diff_one_minus1: %i",
+  fprintf(outfp, "vps_num_ticks_poc_diff_one_minus1: %u",
           vps_num_ticks_poc_diff_one_minus1);
 
   fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_vui_parameters_parser.cc b/src/h265_vui_parameters_parser.cc
index 031bf46..9070d04 100644
--- a/src/h265_vui_parameters_parser.cc
+++ b/src/h265_vui_parameters_parser.cc
@@ -517,10 +517,10 @@ void H265VuiParametersParser::VuiParametersState::fdump(
 
   if (vui_timing_info_present_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "vui_num_units_in_tick: %i", vui_num_units_in_tick);
+    fprintf(outfp, "vui_num_units_in_tick: %u", vui_num_units_in_tick);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "vui_time_scale: %i", vui_time_scale);
+    fprintf(outfp, "vui_time_scale: %u", vui_time_scale);
 
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "vui_poc_proportional_to_timing_flag: %i",
@@ -528,7 +528,7 @@ void H265VuiParametersParser::VuiParametersState::fdump(
 
     if (vui_poc_proportional_to_timing_flag) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "vui_num_ticks_poc_diff_one_minus1: %i",
+      fprintf(outfp, "vui_num_ticks_poc_diff_one_minus1: %u",
               vui_num_ticks_poc_diff_one_minus1);
     }
 
-- 
2.43.0


From 2c80a1fb2c221b5ec708dd1fa1f5794f7230ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 35/37] fix: a bitstream parsed with a caller's state lost its
 parsing options

ParseBitstream and ParseBitstreamNALULength recorded the parsing options only in the overloads that own their state, so BitstreamState::fdump printed with default options.
---
 src/h265_bitstream_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index ef34cb7..7865f9d 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -130,6 +130,7 @@ H265BitstreamParser::ParseBitstream(
     H265BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   // (1) split the input string into a vector of NAL units
   std::vector<NaluIndex> nalu_indices = FindNaluIndices(data, length);
@@ -179,7 +180,6 @@ H265BitstreamParser::ParseBitstream(const uint8_t* data, size_t length,
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  bitstream->parsing_options_ = parsing_options;
   return bitstream;
 }
 
@@ -195,6 +195,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
     H265BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   size_t i = 0;
 
@@ -266,7 +267,6 @@ H265BitstreamParser::ParseBitstreamNALULength(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  bitstream->parsing_options_ = parsing_options;
   return bitstream;
 }
 
-- 
2.43.0


From 1a874498a6deffb076523a04c17616518b0f083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 36/37] fix: dump the bit depths of PPS palette entries as
 unsigned

---
 src/h265_pps_scc_extension_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h265_pps_scc_extension_parser.cc b/src/h265_pps_scc_extension_parser.cc
index 7cdff5c..69be066 100644
--- a/src/h265_pps_scc_extension_parser.cc
+++ b/src/h265_pps_scc_extension_parser.cc
@@ -199,12 +199,12 @@ void H265PpsSccExtensionParser::PpsSccExtensionState::fdump(
       fprintf(outfp, "monochrome_palette_flag: %i", monochrome_palette_flag);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "luma_bit_depth_entry_minus8: %i",
+      fprintf(outfp, "luma_bit_depth_entry_minus8: %u",
               luma_bit_depth_entry_minus8);
 
       if (!monochrome_palette_flag) {
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "chroma_bit_depth_entry_minus8: %i",
+        fprintf(outfp, "chroma_bit_depth_entry_minus8: %u",
                 chroma_bit_depth_entry_minus8);
       }
 
-- 
2.43.0


From c6cd2bb33bc1d9357a3c01d6942c6abc79337fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:04 +0000
Subject: [PATCH 37/37] fix: always terminate a checksum dumped into a short
 buffer

---
 src/h265_common.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 3301d57..99940e7 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -725,10 +725,13 @@ std::shared_ptr<NaluChecksum> NaluChecksum::GetNaluChecksum(
 void NaluChecksum::fdump(char* output, int output_len) const {
   int i = 0;
   int oi = 0;
+  if (output_len <= 0) {
+    return;
+  }
+  output[0] = '\0';
   while (i < length) {
     // make sure there is space in the output buffer
     if (oi + 2 >= output_len) {
-      output[output_len - 1] = '\0';
       break;
     }
     oi += snprintf(output + oi, static_cast<size_t>(output_len - oi), "%02x",
-- 
2.43.0

