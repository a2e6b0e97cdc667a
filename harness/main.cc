// Conformance harness: runs sessions of calls against the library and prints,
// for every call, what the caller observes.
//
//   S <sid>                          two fresh parser states
//   O <op> <st> <hex|-> <args|->     one call (args: comma separated integers)
//   E                                end of session
//
// Every line is answered by one line of JSON.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>

#include <array>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include "h265_aud_parser.h"
#include "h265_bitstream_parser.h"
#include "h265_bitstream_parser_state.h"
#include "h265_common.h"
#include "h265_configuration_box_parser.h"
#include "h265_hrd_parameters_parser.h"
#include "h265_nal_unit_header_parser.h"
#include "h265_nal_unit_parser.h"
#include "h265_nal_unit_payload_parser.h"
#include "h265_pps_multilayer_extension_parser.h"
#include "h265_pps_parser.h"
#include "h265_pps_scc_extension_parser.h"
#include "h265_pred_weight_table_parser.h"
#include "h265_profile_tier_level_parser.h"
#include "h265_rtp_parser.h"
#include "h265_scaling_list_data_parser.h"
#include "h265_sei_parser.h"
#include "h265_slice_parser.h"
#include "h265_sps_3d_extension_parser.h"
#include "h265_sps_multilayer_extension_parser.h"
#include "h265_sps_parser.h"
#include "h265_sps_range_extension_parser.h"
#include "h265_sps_scc_extension_parser.h"
#include "h265_st_ref_pic_set_parser.h"
#include "h265_sub_layer_hrd_parameters_parser.h"
#include "h265_utils.h"
#include "h265_vps_parser.h"
#include "h265_vui_parameters_parser.h"
#include "rtc_common.h"
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>

using namespace h265nal;

// ------------------------------------------------------------ JSON output
struct J {
  std::string s;
  void sep() {
    if (!s.empty()) {
      char c = s.back();
      if (c != '[' && c != '{' && c != ':') s += ',';
    }
  }
  void open(char c) { sep(); s += c; }
  void close(char c) { s += c; }
  void key(const char* k) { sep(); s += '"'; s += k; s += "\":"; }
  void num(long long v) { sep(); s += std::to_string(v); }
  void str(const std::string& v) {
    sep();
    s += '"';
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { s += '\\'; s += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); s += b; }
      else s += c;
    }
    s += '"';
  }
};

template <typename T>
typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type
emit(J& j, const T& v) {
  if constexpr (std::is_same<T, bool>::value) j.num(v ? 1 : 0);
  else if constexpr (std::is_enum<T>::value) j.num(static_cast<int32_t>(v));
  else if constexpr (sizeof(T) == 8) {
    uint64_t w = static_cast<uint64_t>(v);
    j.open('[');
    j.num(static_cast<int32_t>(w >> 32));
    j.num(static_cast<int32_t>(w & 0xffffffffu));
    j.close(']');
  } else if constexpr (sizeof(T) == 4) j.num(static_cast<int32_t>(v));
  else j.num(v);
}
template <typename T> void emit(J& j, const std::vector<T>& v);
template <typename T, size_t N> void emit(J& j, const std::array<T, N>& v);
template <typename T, size_t N> void emit(J& j, const T (&v)[N]);
template <typename T> void emit(J& j, const std::unique_ptr<T>& p);
template <typename T> void emit(J& j, const std::shared_ptr<T>& p);
#define F(m) do { j.key(#m); emit(j, x.m); } while (0)
#include "emit.inc"
void emit(J& j, const H265SeiPayloadParser::H265SeiPayloadState& p);
void emit(J& j, const H265SeiMessageParser::SeiMessageState& x) {
  j.open('{'); F(payload_type); F(payload_size); F(payload_state); j.close('}');
}
void emit(J& j, const H265NalUnitPayloadParser::NalUnitPayloadState& x);
void emit(J& j, const H265NalUnitParser::NalUnitState& x);
template <typename T> void emit_element(J& j, const T& r) { emit(j, r); }
template <typename T> void emit_element(J& j, const std::unique_ptr<T>& r) { if (r) emit(j, *r); else j.str("null"); }
template <typename T> void emit_element(J& j, const std::shared_ptr<T>& r) { if (r) emit(j, *r); else j.str("null"); }
template <typename T> void emit(J& j, const std::vector<T>& v) {
  j.open('['); for (const auto& e : v) { const T& r = e; emit_element(j, r); } j.close(']');
}
template <typename T, size_t N> void emit(J& j, const std::array<T, N>& v) {
  j.open('['); for (const auto& e : v) emit(j, e); j.close(']');
}
template <typename T, size_t N> void emit(J& j, const T (&v)[N]) {
  j.open('['); for (const auto& e : v) emit(j, e); j.close(']');
}
template <typename T> void emit(J& j, const std::unique_ptr<T>& p) {
  j.open('['); if (p) emit(j, *p); j.close(']');
}
template <typename T> void emit(J& j, const std::shared_ptr<T>& p) {
  j.open('['); if (p) emit(j, *p); j.close(']');
}
void emit(J& j, const H265SeiPayloadParser::H265SeiPayloadState& p) {
  j.open('{');
#define KIND(T, name) \
  if (auto* q = dynamic_cast<const T*>(&p)) { const auto& x = *q; j.key("kind"); j.str(name);
#define END }
  KIND(H265SeiUserDataRegisteredItuTT35Parser::H265SeiUserDataRegisteredItuTT35State, "t35")
    F(itu_t_t35_country_code); F(itu_t_t35_country_code_extension_byte); F(payload); END
  KIND(H265SeiUserDataUnregisteredParser::H265SeiUserDataUnregisteredState, "unregistered")
    F(uuid_iso_iec_11578_1); F(uuid_iso_iec_11578_2); F(payload); END
  KIND(H265SeiAlphaChannelInfoParser::H265SeiAlphaChannelInfoState, "alpha")
    F(alpha_channel_cancel_flag); F(alpha_channel_use_idc); F(alpha_channel_bit_depth_minus8);
    F(alpha_transparent_value); F(alpha_opaque_value); F(alpha_channel_incr_flag);
    F(alpha_channel_clip_flag); F(alpha_channel_clip_type_flag); END
  KIND(H265SeiMasteringDisplayColourVolumeParser::H265SeiMasteringDisplayColourVolumeState, "mdcv")
    F(display_primaries_x); F(display_primaries_y); F(white_point_x); F(white_point_y);
    F(max_display_mastering_luminance); F(min_display_mastering_luminance); END
  KIND(H265SeiContentLightLevelInfoParser::H265SeiContentLightLevelInfoState, "clli")
    F(max_content_light_level); F(max_pic_average_light_level); END
  KIND(H265SeiKneeFunctionInfoParser::H265SeiKneeFunctionInfoState, "knee")
    F(knee_function_id); F(knee_function_cancel_flag); F(knee_function_persistence_flag);
    F(input_d_range); F(input_disp_luminance); F(output_d_range); F(output_disp_luminance);
    F(num_knee_points_minus1); F(input_knee_point); F(output_knee_point); END
  KIND(H265SeiColourRemappingInfoParser::H265SeiColourRemappingInfoState, "remap")
    F(colour_remap_id); F(colour_remap_cancel_flag); F(colour_remap_persistence_flag);
    F(colour_remap_video_signal_info_present_flag); F(colour_remap_full_range_flag);
    F(colour_remap_primaries); F(colour_remap_transfer_function);
    F(colour_remap_matrix_coefficients); F(colour_remap_input_bit_depth);
    F(colour_remap_output_bit_depth); F(pre_lut_num_val_minus1); F(pre_lut_coded_value);
    F(pre_lut_target_value); F(colour_remap_matrix_present_flag); F(log2_matrix_denom);
    F(colour_remap_coeffs); F(post_lut_num_val_minus1); F(post_lut_coded_value);
    F(post_lut_target_value); END
  KIND(H265SeiContentColourVolumeParser::H265SeiContentColourVolumeState, "ccv")
    F(ccv_cancel_flag); F(ccv_persistence_flag); F(ccv_primaries_present_flag);
    F(ccv_min_luminance_value_present_flag); F(ccv_max_luminance_value_present_flag);
    F(ccv_avg_luminance_value_present_flag); F(ccv_reserved_zero_2bits); F(ccv_primaries_x);
    F(ccv_primaries_y); F(ccv_min_luminance_value); F(ccv_max_luminance_value);
    F(ccv_avg_luminance_value); END
  KIND(H265SeiAlternativeTransferCharacteristicsParser::H265SeiAlternativeTransferCharacteristicsState, "atc")
    F(preferred_transfer_characteristics); END
  KIND(H265SeiAmbientViewingEnvironmentParser::H265SeiAmbientViewingEnvironmentState, "ave")
    F(ambient_illuminance); F(ambient_light_x); F(ambient_light_y); END
  KIND(H265SeiUnknownParser::H265SeiUnknownState, "unknown") F(payload); END
  j.close('}');
}
// values derived from an SPS
void emit_derived(J& j, H265SpsParser::SpsState& s) {
  j.open('{');
#define G(n) j.key(#n); j.num(static_cast<int32_t>(s.get##n()))
  G(MinCbLog2SizeY); G(CtbLog2SizeY); G(MinCbSizeY); G(CtbSizeY);
  G(PicWidthInMinCbsY); G(PicWidthInCtbsY); G(PicHeightInMinCbsY); G(PicHeightInCtbsY);
  G(PicSizeInMinCbsY); G(PicSizeInCtbsY); G(PicSizeInSamplesY); G(SubWidthC); G(SubHeightC);
#undef G
  uint32_t m = 0;
  bool ok = s.getMaxNumNegativePics(&m);
  j.key("MaxNumNegativePics"); j.num(ok ? static_cast<int32_t>(m) : -1);
  int w = -1, h = -1;
  s.getResolution(&w, &h);
  j.key("width"); j.num(w);
  j.key("height"); j.num(h);
  j.close('}');
}
void emit(J& j, const H265NalUnitPayloadParser::NalUnitPayloadState& x) {
  j.open('{');
  F(vps); F(sps);
  j.key("spsd"); j.open('['); if (x.sps) emit_derived(j, *x.sps); j.close(']');
  F(pps); F(aud); F(sei);
  j.key("slice"); j.open('[');
  if (x.slice_segment_layer && x.slice_segment_layer->slice_segment_header)
    emit(j, *x.slice_segment_layer->slice_segment_header);
  j.close(']');
  j.key("odd");
  j.num(x.slice_segment_layer && !x.slice_segment_layer->slice_segment_header ? 1 : 0);
  j.close('}');
}
void emit(J& j, const H265NalUnitParser::NalUnitState& x) {
  j.open('{');
  j.key("offset"); j.num(x.offset);
  j.key("length"); j.num(x.length);
  j.key("checksum");
  if (x.checksum) {
    char buf[NaluChecksum::kMaxLength * 2 + 1];
    memset(buf, 0, sizeof buf);
    x.checksum->fdump(buf, sizeof buf);
    std::string p = x.checksum->GetPrintableChecksum();
    // in less room: as many whole bytes as fit, ended, and nothing outside
    std::string wrong = p == buf ? "" : std::string("/") + buf;
    for (int room = 0; room <= 12 && wrong.empty(); room++) {
      char b[16];
      memset(b, 'x', sizeof b);
      x.checksum->fdump(b + 1, room);
      size_t n = room == 0 ? 0 : std::min<size_t>(p.size(), (room - 1) / 2 * 2);
      bool ok = b[0] == 'x' && (room == 0 || (p.compare(0, n, b + 1, n) == 0 && b[1 + n] == 0));
      for (int k = room + 1; k < 16; k++) ok = ok && b[k] == 'x';
      if (!ok) wrong = "/room " + std::to_string(room);
    }
    j.str(p + wrong);
  } else j.str("");
  j.key("hdr"); if (x.nal_unit_header) emit(j, *x.nal_unit_header); else j.str("null");
  j.key("pay"); if (x.nal_unit_payload) emit(j, *x.nal_unit_payload); else j.str("null");
  j.close('}');
}

// -------------------------------------------------------------- sessions
using Store = H265BitstreamParserState;
struct Session {
  std::unique_ptr<Store> st[2];
  std::map<uint32_t, std::string> seen[2][3];
  // everything handed out so far, with what it looked like then
  std::vector<std::pair<std::string, std::function<std::string()>>> kept;
};
// what belongs to one run of a session (see threads.cc)
#ifdef CONCURRENT
#define OWN thread_local
#else
#define OWN
#endif
OWN Session S;

// input at the end of an allocation of its exact size
// With VF_DECOY set, every input is at the same address (what follows it is
// poisoned, so that reads past its end are seen), and every call comes after a
// decoy: the same call, with another input of the same length or on another
// store, whose results are thrown away.  None of it may make a difference.
const bool g_decoy = getenv("VF_DECOY") != nullptr;
const size_t kArena = 1 << 22;
alignas(4096) uint8_t g_arena[kArena];
struct Input {
  std::shared_ptr<uint8_t[]> p;
  std::vector<uint8_t> copy;
  size_t n;
  explicit Input(const std::vector<uint8_t>& v) : copy(v), n(v.size()) {
    if (g_decoy && n <= kArena) {
      p.reset(g_arena, [](uint8_t*) {});
      mprotect(g_arena, kArena, PROT_READ | PROT_WRITE);
      ASAN_UNPOISON_MEMORY_REGION(g_arena, kArena);
      ASAN_POISON_MEMORY_REGION(g_arena + (n + 7) / 8 * 8, kArena - (n + 7) / 8 * 8);
      if (n % 8) ASAN_POISON_MEMORY_REGION(g_arena + n, 8 - n % 8);
    } else {
      p.reset(new uint8_t[n]);
    }
    if (n) memcpy(p.get(), v.data(), n);
    if (p.get() == g_arena) mprotect(g_arena, kArena, PROT_READ);   // it is not to be written to
  }
  bool same() const { return n == 0 || memcmp(p.get(), copy.data(), n) == 0; }
};

template <typename P> void keep(std::shared_ptr<P> p) {
  auto f = [p]() { J j; emit(j, p); return j.s; };
  S.kept.emplace_back(f(), f);
}
template <typename T> std::string json_of(const T& x) { J j; emit(j, x); return j.s; }

struct Delta { std::vector<std::pair<uint32_t, std::string>> c[3]; std::vector<uint32_t> gone[3]; };
template <typename M> void delta_map(const M& m, std::map<uint32_t, std::string>& seen,
                                     std::vector<std::pair<uint32_t, std::string>>& c,
                                     std::vector<uint32_t>& gone) {
  std::map<uint32_t, std::string> now;
  for (const auto& kv : m) {
    std::string s = kv.second ? json_of(*kv.second) : std::string("\"null\"");
    auto it = seen.find(kv.first);
    if (it == seen.end() || it->second != s) c.emplace_back(kv.first, s);
    now[kv.first] = s;
  }
  for (const auto& kv : seen) if (!now.count(kv.first)) gone.push_back(kv.first);
  seen.swap(now);
}
void emit_delta(J& j, int k) {
  Delta d;
  delta_map(S.st[k]->vps, S.seen[k][0], d.c[0], d.gone[0]);
  delta_map(S.st[k]->sps, S.seen[k][1], d.c[1], d.gone[1]);
  delta_map(S.st[k]->pps, S.seen[k][2], d.c[2], d.gone[2]);
  const char* names[3] = {"vps", "sps", "pps"};
  j.open('{');
  for (int i = 0; i < 3; i++) {
    j.key(names[i]);
    j.open('[');
    for (auto& e : d.c[i]) {
      j.open('['); j.num(static_cast<int32_t>(e.first)); j.sep(); j.s += e.second; j.close(']');
    }
    for (auto g : d.gone[i]) { j.open('['); j.num(static_cast<int32_t>(g)); j.close(']'); }
    j.close(']');
  }
  j.close('}');
}

std::string dumped(const std::function<void(FILE*)>& f) {
  char* p = nullptr;
  size_t n = 0;
  FILE* fp = open_memstream(&p, &n);
  f(fp);
  fclose(fp);
  std::string s(p, n);
  free(p);
  return s;
}

using Args = std::vector<long long>;
OWN std::vector<long long> g_pl;

void emit_units(J& j, const std::vector<std::unique_ptr<H265NalUnitParser::NalUnitState>>& v) {
  emit(j, v);
  for (auto& n : v) g_pl.push_back(n->parsed_length);
}
void emit_pairs(J& j, std::initializer_list<long long> v) {
  j.open('['); for (auto x : v) j.num(x); j.close(']');
}

// a structure parsed on its own: from bytes, or from a bit reader at an offset
template <typename FD, typename FB>
void run_struct(J& j, const Input& in, long long variant, FD fd, FB fb) {
  j.open('{');
  long long pos = -1;
  j.key("f");
  if (variant == 0) {
    auto r = fd(in.p.get(), in.n);
    emit(j, r);
  } else {
    BitBuffer bb(in.p.get(), in.n);
    bool ok = bb.Seek((variant - 1) / 8, (variant - 1) % 8);
    if (!ok) { j.open('['); j.close(']'); }
    else {
      auto r = fb(&bb);
      emit(j, r);
      if (r) pos = static_cast<long long>(in.n) * 8 - static_cast<long long>(bb.RemainingBitCount()) - (variant - 1);
    }
  }
  j.key("pos"); j.num(pos);
  j.close('}');
}

ParsingOptions options(bool sum) { ParsingOptions o; o.add_checksum = sum; return o; }

void emit_rtp(J& j, const H265RtpApParser::RtpApState& x) {
  j.open('{');
  j.key("hdr"); if (x.header) emit(j, *x.header); else j.str("null");
  j.key("units"); j.open('[');
  size_t n = std::max(x.nal_unit_sizes.size(),
                      std::max(x.nal_unit_headers.size(), x.nal_unit_payloads.size()));
  for (size_t i = 0; i < n; i++) {
    j.open('{');
    j.key("size"); if (i < x.nal_unit_sizes.size()) j.num(x.nal_unit_sizes[i]); else j.num(-1);
    j.key("hdr");
    if (i < x.nal_unit_headers.size() && x.nal_unit_headers[i]) emit(j, *x.nal_unit_headers[i]); else j.str("null");
    j.key("pay");
    if (i < x.nal_unit_payloads.size() && x.nal_unit_payloads[i]) emit(j, *x.nal_unit_payloads[i]); else j.str("null");
    j.close('}');
  }
  j.close(']');
  j.close('}');
}
void emit_rtp(J& j, const H265RtpSingleParser::RtpSingleState& x) {
  j.open('{');
  j.key("hdr"); if (x.nal_unit_header) emit(j, *x.nal_unit_header); else j.str("null");
  j.key("pay"); if (x.nal_unit_payload) emit(j, *x.nal_unit_payload); else j.str("null");
  j.close('}');
}
void emit_rtp(J& j, const H265RtpFuParser::RtpFuState& x) {
  j.open('{');
  j.key("hdr"); if (x.header) emit(j, *x.header); else j.str("null");
  F(s_bit); F(e_bit); F(fu_type);
  j.key("pay"); emit(j, x.nal_unit_payload);
  j.close('}');
}
template <typename T> void emit_rtp_list(J& j, const std::unique_ptr<T>& p) {
  j.open('['); if (p) emit_rtp(j, *p); j.close(']');
}
void emit_rtp(J& j, const H265RtpParser::RtpState& x) {
  j.open('{');
  j.key("hdr"); emit(j, x.nal_unit_header);
  j.key("single"); emit_rtp_list(j, x.rtp_single);
  j.key("ap"); emit_rtp_list(j, x.rtp_ap);
  j.key("fu"); emit_rtp_list(j, x.rtp_fu);
  j.close('}');
}
void emit_box(J& j, const H265ConfigurationBoxParser::ConfigurationBoxState& x) {
  j.open('{');
  F(configurationVersion); F(general_profile_space); F(general_tier_flag); F(general_profile_idc);
  F(general_profile_compatibility_flags); F(general_constraint_indicator_flags);
  F(general_level_idc); F(reserved1); F(min_spatial_segmentation_idc); F(reserved2);
  F(parallelismType); F(reserved3); F(chroma_format_idc); F(reserved4); F(bit_depth_luma_minus8);
  F(reserved5); F(bit_depth_chroma_minus8); F(avgFrameRate); F(constantFrameRate);
  F(numTemporalLayers); F(temporalIdNested); F(lengthSizeMinusOne); F(numOfArrays);
  F(array_completeness); F(reserved6); F(NAL_unit_type); F(numNalus); F(nalUnitLength);
  j.key("nalUnit"); j.open('[');
  for (auto& v : x.nalUnit) { j.open('['); for (auto& p : v) { j.open('['); if (p) emit(j, *p); j.close(']'); } j.close(']'); }
  j.close(']');
  j.close('}');
}

// ------------------------------------------------------------------ calls
void read_ops(J& j, const Input& in, const Args& a) {
  BitBuffer bb(in.p.get(), in.n);
  j.open('[');
  for (size_t i = 0; i + 1 < a.size(); i += 2) {
    int c = a[i];
    uint64_t n = static_cast<uint32_t>(a[i + 1]);
    uint32_t v = 0;
    int32_t sv = 0;
    uint64_t w = 0;
    uint8_t v8 = 0;
    uint16_t v16 = 0;
    bool ok = false;
    switch (c) {
      case 1: ok = bb.ReadBits(n, v); w = v; break;
      case 2: ok = bb.ReadBits(n, w); break;
      case 3: ok = bb.ReadExponentialGolomb(v); w = v; break;
      case 4: ok = bb.ReadSignedExponentialGolomb(sv); w = static_cast<uint32_t>(sv); break;
      case 5: ok = bb.ReadNonSymmetric(static_cast<uint32_t>(n), v); w = v; break;
      case 6: ok = bb.PeekBits(n, v); w = v; break;
      case 7: ok = bb.PeekBits(n, w); break;
      case 8: ok = bb.ReadUInt8(v8); w = v8; break;
      case 9: ok = bb.ReadUInt16(v16); w = v16; break;
      case 10: ok = bb.ReadUInt32(v); w = v; break;
      case 11: ok = bb.ConsumeBits(n); break;
      case 12: ok = bb.ConsumeBytes(n); break;
      case 13: ok = bb.Seek(n / 8, n % 8); break;
      case 14: ok = more_rbsp_data(&bb); break;
      case 15: ok = rbsp_trailing_bits(&bb); break;
      case 16: ok = byte_aligned(&bb); break;
      case 17: ok = true; w = get_current_offset(&bb); break;
      case 18: {
        std::vector<uint8_t> buf(n <= in.n ? n : 0);
        if (n <= in.n) ok = bb.ReadBytes(n, buf.data());
        if (ok) for (auto b : buf) w = (w * 31 + b) % 65521;
        break;
      }
      case 19: ok = true; w = bb.RemainingBitCount(); break;
      case 20: ok = bb.Seek(n / 16, n % 16); break;
      // amounts beyond any buffer, whose number of bits does not fit the word
      case 21: ok = bb.ConsumeBytes((SIZE_MAX / 8) + 1 + n); break;
      case 22: ok = bb.ConsumeBits(SIZE_MAX - n); break;
      case 23: ok = bb.ConsumeBytes(SIZE_MAX - n); break;
      case 24: ok = bb.Seek(SIZE_MAX - n, n % 8); break;
      case 25: ok = bb.Seek((SIZE_MAX / 8) + 1 + n, n % 8); break;
      case 26: ok = bb.ReadBytes((SIZE_MAX / 8) + 1 + n, &v8); break;
    }
    if (!ok) w = 0;
    size_t by = 0, bi = 0;
    bb.GetCurrentOffset(&by, &bi);
    bool stop = c == 5 && !ok && static_cast<uint32_t>(n) != 1;
    // a non-symmetric read that failed after its first part leaves the
    // position unspecified
    emit_pairs(j, {ok, static_cast<int32_t>(w >> 32), static_cast<int32_t>(w & 0xffffffffu),
                   static_cast<long long>(by), static_cast<long long>(bi)});
    (void)stop;
  }
  j.close(']');
}
void write_ops(J& j, const Input& in, const Args& a) {
  std::unique_ptr<uint8_t[]> buf(new uint8_t[in.n]);
  if (in.n) memcpy(buf.get(), in.p.get(), in.n);
  BitBufferWriter bw(buf.get(), in.n);
  j.open('[');
  for (size_t i = 0; i + 3 < a.size(); i += 4) {
    int c = a[i];
    uint32_t hi = a[i + 1], lo = a[i + 2];
    uint64_t n = static_cast<uint32_t>(a[i + 3]);
    uint64_t v = 0;
    bool ok = false;
    switch (c) {
      case 1: ok = bw.WriteBits((static_cast<uint64_t>(hi) << 32) | lo, n); break;
      case 2: ok = bw.WriteExponentialGolomb(lo); break;
      case 3: ok = bw.WriteSignedExponentialGolomb(static_cast<int32_t>(lo)); break;
      case 4: ok = bw.WriteNonSymmetric(lo, static_cast<uint32_t>(n)); break;
      case 5: ok = bw.WriteUInt8(static_cast<uint8_t>(lo)); break;
      case 6: ok = bw.WriteUInt16(static_cast<uint16_t>(lo)); break;
      case 7: ok = bw.WriteUInt32(lo); break;
      case 8: ok = bw.Seek(n / 8, n % 8); break;
      case 9: ok = bw.ConsumeBits(n); break;
      case 11: ok = bw.Seek(n / 16, n % 16); break;
      case 12: ok = bw.ConsumeBits(SIZE_MAX - n); break;
      case 13: ok = bw.ConsumeBytes((SIZE_MAX / 8) + 1 + n); break;
      case 10: ok = true; v = BitBufferWriter::SizeNonSymmetricBits(lo, static_cast<uint32_t>(n)); break;
    }
    size_t by = 0, bi = 0;
    bw.GetCurrentOffset(&by, &bi);
    j.open('[');
    j.num(ok); j.num(v); j.num(by); j.num(bi);
    for (size_t k = 0; k < in.n; k++) j.num(buf[k]);
    j.close(']');
  }
  j.close(']');
}

template <typename T> std::shared_ptr<T> share(std::unique_ptr<T> p) { return std::shared_ptr<T>(std::move(p)); }

// tokens of a dump
void emit_tokens(J& j, const std::string& s) {
  // braces are words of their own
  std::string spaced;
  for (char c : s) {
    if (c == '{' || c == '}') { spaced += ' '; spaced += c; spaced += ' '; }
    else spaced += c;
  }
  std::istringstream is(spaced);
  std::string t;
  j.open('[');
  while (is >> t) j.str(t);
  j.close(']');
}
ParsingOptions dump_options(const Args& a, size_t i) {
  ParsingOptions o;
  o.add_offset = a[i] & 1;
  o.add_length = a[i] & 2;
  o.add_parsed_length = a[i] & 4;
  o.add_checksum = a[i] & 8;
  o.add_resolution = a[i] & 16;
  return o;
}

void call(J& j, const std::string& op, int k, const Input& in, const Args& a) {
  Store* st = S.st[k].get();
  const uint8_t* d = in.p.get();
  size_t n = in.n;
  auto A = [&](size_t i) { return i < a.size() ? a[i] : 0; };
  auto U = [&](size_t i) { return static_cast<uint32_t>(A(i)); };

  if (op == "nalu" || op == "naluu" || op == "nalub") {
    std::unique_ptr<H265NalUnitParser::NalUnitState> r;
    if (op == "nalu") {
      // without a checksum, through the short form every other time
      if (!A(0) && n % 2) r = H265NalUnitParser::ParseNalUnit(d, n, st);
      else r = H265NalUnitParser::ParseNalUnit(d, n, st, options(A(0)));
    } else if (op == "naluu") r = H265NalUnitParser::ParseNalUnitUnescaped(d, n, st, options(A(0)));
    else {
      BitBuffer bb(d, n);
      if (!A(0) && n % 2) r = H265NalUnitParser::ParseNalUnit(&bb, st);
      else r = H265NalUnitParser::ParseNalUnit(&bb, st, options(A(0)));
    }
    emit(j, r);
    if (r) { g_pl.push_back(r->parsed_length); keep(share(std::move(r))); }
  } else if (op == "payload") {
    std::unique_ptr<H265NalUnitPayloadParser::NalUnitPayloadState> r;
    if (A(1) == 0) r = H265NalUnitPayloadParser::ParseNalUnitPayload(d, n, U(0), st);
    else { BitBuffer bb(d, n); bb.Seek((A(1) - 1) / 8, (A(1) - 1) % 8);
      r = H265NalUnitPayloadParser::ParseNalUnitPayload(&bb, U(0), st); }
    if (r) emit(j, *r); else j.str("null");
    if (r) keep(share(std::move(r)));
  } else if (op == "stream" || op == "lenstream") {
    std::unique_ptr<H265BitstreamParser::BitstreamState> r;
    auto o = options(A(0));
    if (op == "stream") r = A(1) ? H265BitstreamParser::ParseBitstream(d, n, o)
                                 : H265BitstreamParser::ParseBitstream(d, n, st, o);
    else r = A(1) ? H265BitstreamParser::ParseBitstreamNALULength(d, n, A(2), o)
                  : H265BitstreamParser::ParseBitstreamNALULength(d, n, A(2), st, o);
    if (!r) { j.open('['); j.close(']'); }
    else {
      emit_units(j, r->nal_units);
      std::shared_ptr<H265BitstreamParser::BitstreamState> p(std::move(r));
      auto f = [p]() { return json_of(p->nal_units); };
      S.kept.emplace_back(f(), f);
    }
  } else if (op == "find" || op == "findx") {
    auto v = op == "find" ? H265BitstreamParser::FindNaluIndices(d, n)
                          : H265BitstreamParser::FindNaluIndicesExplicitFraming(d, n);
    j.open('[');
    for (auto& x : v) emit_pairs(j, {(long long)x.start_offset, (long long)x.payload_start_offset, (long long)x.payload_size});
    j.close(']');
  } else if (op == "qp") {
    auto v = H265Utils::GetSliceQpY(d, n, st);
    emit(j, v);
  } else if (op == "rtp") {
    std::unique_ptr<H265RtpParser::RtpState> r;
    if (A(0) == 0) r = H265RtpParser::ParseRtp(d, n, st);
    else { BitBuffer bb(d, n); r = H265RtpParser::ParseRtp(&bb, st); }
    j.open('{');
    j.key("rtp"); j.open('['); if (r) emit_rtp(j, *r); j.close(']');
    j.key("qp"); j.open('[');
    if (r) { auto q = H265Utils::GetSliceQpY(r, st); if (q) j.num(*q); }
    j.close(']');
    j.close('}');
    if (r) {
      std::shared_ptr<H265RtpParser::RtpState> p(std::move(r));
      auto f = [p]() { J t; emit_rtp(t, *p); return t.s; };
      S.kept.emplace_back(f(), f);
    }
  } else if (op == "rtpsingle") {
    std::unique_ptr<H265RtpSingleParser::RtpSingleState> r;
    if (A(0) == 0) r = H265RtpSingleParser::ParseRtpSingle(d, n, st);
    else { BitBuffer bb(d, n); r = H265RtpSingleParser::ParseRtpSingle(&bb, st); }
    emit_rtp_list(j, r);
  } else if (op == "rtpap") {
    std::unique_ptr<H265RtpApParser::RtpApState> r;
    if (A(0) == 0) r = H265RtpApParser::ParseRtpAp(d, n, st);
    else { BitBuffer bb(d, n); r = H265RtpApParser::ParseRtpAp(&bb, st); }
    emit_rtp_list(j, r);
  } else if (op == "rtpfu") {
    std::unique_ptr<H265RtpFuParser::RtpFuState> r;
    if (A(0) == 0) r = H265RtpFuParser::ParseRtpFu(d, n, st);
    else { BitBuffer bb(d, n); r = H265RtpFuParser::ParseRtpFu(&bb, st); }
    emit_rtp_list(j, r);
  } else if (op == "hvcc") {
    std::shared_ptr<H265ConfigurationBoxParser::ConfigurationBoxState> r;
    if (A(1) == 0) r = H265ConfigurationBoxParser::ParseConfigurationBox(d, n, st, options(A(0)));
    else { BitBuffer bb(d, n); r = H265ConfigurationBoxParser::ParseConfigurationBox(&bb, st, options(A(0))); }
    j.open('['); if (r) emit_box(j, *r); j.close(']');
    if (r) { auto f = [r]() { J t; emit_box(t, *r); return t.s; }; S.kept.emplace_back(f(), f); }
  } else if (op == "unescape") {
    emit(j, UnescapeRbsp(d, n));
  } else if (op == "nutype") {
    NalUnitType t = NalUnitType::TRAIL_N;
    bool ok = H265NalUnitHeaderParser::GetNalUnitType(d, n, t);
    j.open('['); if (ok) j.num(static_cast<int>(t)); j.close(']');
  } else if (op == "bits") {
    read_ops(j, in, a);
  } else if (op == "wbits") {
    write_ops(j, in, a);
  } else if (op == "get") {
    if (A(0) == 0) emit(j, st->GetVps(U(1)));
    else if (A(0) == 1) emit(j, st->GetSps(U(1)));
    else emit(j, st->GetPps(U(1)));
  } else if (op == "strps") {
    std::vector<std::unique_ptr<H265StRefPicSetParser::StRefPicSetState>> v;
    BitBuffer bb(d, n);
    bb.Seek(A(0) / 8, A(0) % 8);
    bool ok = true;
    for (uint32_t i = 0; ok && i <= U(1); i++) {
      auto r = H265StRefPicSetParser::ParseStRefPicSet(&bb, i, U(1), &v, U(2));
      if (r) v.push_back(std::move(r)); else ok = false;
    }
    j.open('{');
    j.key("sets"); emit(j, v);
    j.key("ok"); j.num(ok);
    j.key("pos"); j.num(ok ? (long long)n * 8 - (long long)bb.RemainingBitCount() : -1);
    j.close('}');
  } else if (op == "strps0") {
    std::vector<std::unique_ptr<H265StRefPicSetParser::StRefPicSetState>> v;
    emit(j, H265StRefPicSetParser::ParseStRefPicSet(d, n, 0, U(0), &v, U(1)));
  } else if (op == "pred") {
    j.open('[');
    for (auto t : a) {
      j.open('{');
      j.key("name"); j.str(NalUnitTypeToString(t));
      j.key("slice"); j.num(IsSliceSegment(t));
      j.key("vcl"); j.num(IsNalUnitTypeVcl(t));
      j.key("nonvcl"); j.num(IsNalUnitTypeNonVcl(t));
      j.key("unspec"); j.num(IsNalUnitTypeUnspecified(t));
      j.close('}');
    }
    j.close(']');
  } else if (op == "pname") {
    j.open('[');
    for (auto t : a) {
      std::string s;
      profileTypeToString(static_cast<ProfileType>(t), s);
      j.str(s);
    }
    j.close(']');
  } else if (op == "sei") {
    j.open('{');
    long long pos = -1;
    j.key("f");
    if (A(0) == 0) emit(j, H265SeiMessageParser::ParseSei(d, n));
    else {
      BitBuffer bb(d, n);
      auto r = H265SeiMessageParser::ParseSei(&bb);
      emit(j, r);
      if (r && r->payload_state) pos = (long long)n * 8 - (long long)bb.RemainingBitCount();
    }
    j.key("pos"); j.num(pos);
    j.close('}');
  } else if (op == "profs") {
    j.open('[');
    for (size_t i = 0; i + 11 <= n; i += 11) {
      std::unique_ptr<uint8_t[]> b(new uint8_t[11]);
      memcpy(b.get(), d + i, 11);
      BitBuffer bb(b.get(), 11);
      auto r = H265ProfileInfoParser::ParseProfileInfo(&bb);
      j.num(r ? static_cast<int>(r->profile_type) : -1);
    }
    j.close(']');
  } else if (op == "vuifr") {
    j.open('[');
    for (size_t i = 0; i + 1 < a.size(); i += 2) {
      H265VuiParametersParser::VuiParametersState v;
      v.vui_num_units_in_tick = U(i);
      v.vui_time_scale = U(i + 1);
      double fr = v.getFramerate();
      // relative distance to the exact quotient, in millionths
      double ex = (double)v.vui_time_scale / (double)v.vui_num_units_in_tick;
      double e = (fr - ex) / ex;
      j.num(e < 0.000002 && e > -0.000002 ? 1 : 0);
    }
    j.close(']');
  } else if (op == "dump") {
    // args: what, indent, option bits
    auto o = dump_options(a, 2);
    int ind = A(1);
    std::string s = dumped([&](FILE* fp) {
      if (A(0) == 0) { auto r = H265BitstreamParser::ParseBitstream(d, n, st, o);
        if (r) for (auto& u : r->nal_units) u->fdump(fp, ind, o); }
      else if (A(0) == 1) { auto r = H265NalUnitParser::ParseNalUnit(d, n, st, o); if (r) r->fdump(fp, ind, o); }
      else if (A(0) == 2) { auto r = H265RtpParser::ParseRtp(d, n, st); if (r) r->fdump(fp, ind, o); }
      else if (A(0) == 3) { auto r = H265ConfigurationBoxParser::ParseConfigurationBox(d, n, st, o); if (r) r->fdump(fp, ind, o); }
      else if (A(0) == 4) { auto r = H265BitstreamParser::ParseBitstream(d, n, st, o); if (r) r->fdump(fp, ind); }
    });
    emit_tokens(j, s);
  }
#define STRUCT(name, data, buf) \
  else if (op == name) run_struct(j, in, A(0), [&](const uint8_t* d, size_t n) { return data; }, \
                                  [&](BitBuffer* b) { return buf; });
  STRUCT("s_profinfo", H265ProfileInfoParser::ParseProfileInfo(d, n), H265ProfileInfoParser::ParseProfileInfo(b))
  STRUCT("s_ptl", H265ProfileTierLevelParser::ParseProfileTierLevel(d, n, U(1), U(2)),
         H265ProfileTierLevelParser::ParseProfileTierLevel(b, U(1), U(2)))
  STRUCT("s_slhrd", H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(d, n, U(1), U(2), U(3)),
         H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(b, U(1), U(2), U(3)))
  STRUCT("s_hrd", H265HrdParametersParser::ParseHrdParameters(d, n, U(1), U(2)),
         H265HrdParametersParser::ParseHrdParameters(b, U(1), U(2)))
  STRUCT("s_vui", H265VuiParametersParser::ParseVuiParameters(d, n, U(1)),
         H265VuiParametersParser::ParseVuiParameters(b, U(1)))
  STRUCT("s_vps", H265VpsParser::ParseVps(d, n), H265VpsParser::ParseVps(b))
  STRUCT("s_scaling", H265ScalingListDataParser::ParseScalingListData(d, n), H265ScalingListDataParser::ParseScalingListData(b))
  STRUCT("s_spsrange", H265SpsRangeExtensionParser::ParseSpsRangeExtension(d, n), H265SpsRangeExtensionParser::ParseSpsRangeExtension(b))
  STRUCT("s_spsml", H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(d, n), H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(b))
  STRUCT("s_sps3d", H265Sps3dExtensionParser::ParseSps3dExtension(d, n), H265Sps3dExtensionParser::ParseSps3dExtension(b))
  STRUCT("s_spsscc", H265SpsSccExtensionParser::ParseSpsSccExtension(d, n, U(1), U(2), U(3)),
         H265SpsSccExtensionParser::ParseSpsSccExtension(b, U(1), U(2), U(3)))
  STRUCT("s_sps", H265SpsParser::ParseSps(d, n), H265SpsParser::ParseSps(b))
  STRUCT("s_ppsml", H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(d, n), H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(b))
  STRUCT("s_ppsscc", H265PpsSccExtensionParser::ParsePpsSccExtension(d, n), H265PpsSccExtensionParser::ParsePpsSccExtension(b))
  STRUCT("s_pps", H265PpsParser::ParsePps(d, n), H265PpsParser::ParsePps(b))
  STRUCT("s_aud", H265AudParser::ParseAud(d, n), H265AudParser::ParseAud(b))
  STRUCT("s_pwt", H265PredWeightTableParser::ParsePredWeightTable(d, n, U(1), U(2)),
         H265PredWeightTableParser::ParsePredWeightTable(b, U(1), U(2)))
  STRUCT("s_slice", H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(d, n, U(1), st),
         H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(b, U(1), st))
  STRUCT("s_hdr", H265NalUnitHeaderParser::ParseNalUnitHeader(d, n), H265NalUnitHeaderParser::ParseNalUnitHeader(b))
  else if (op == "s_layer") {
    auto get = [](std::unique_ptr<H265SliceSegmentLayerParser::SliceSegmentLayerState> r) {
      return r ? std::move(r->slice_segment_header) : nullptr;
    };
    run_struct(j, in, A(0),
        [&](const uint8_t* d, size_t n) { return get(H265SliceSegmentLayerParser::ParseSliceSegmentLayer(d, n, U(1), st)); },
        [&](BitBuffer* b) { return get(H265SliceSegmentLayerParser::ParseSliceSegmentLayer(b, U(1), st)); });
  } else {
    j.str("unknown op");
  }
}

// what a call costs: branches taken inside the library (its objects are built
// with edge callbacks), bytes allocated, and processor time
OWN uint64_t g_work = 0, g_alloc = 0;
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*) { g_work++; }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) *a = 1; }
void on_malloc(const volatile void*, size_t n) { g_alloc += n; }
void on_free(const volatile void*) {}
uint64_t cpu_ms() {
  timespec t;
  clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
  return t.tv_sec * 1000ull + t.tv_nsec / 1000000;
}

// the decoy of a call, chosen by what came before in the session
OWN uint32_t g_turn = 1;
OWN std::vector<uint8_t> g_last;
void decoy(const std::string& op, int k, const std::vector<uint8_t>& b, const Args& a) {
  g_turn = g_turn * 1103515245u + 12345u;
  uint32_t r = g_turn >> 8;
  std::vector<uint8_t> d = b;
  bool other = false;              // on another store
  switch (r % 4) {
    case 0:                        // one bit differs
      if (!d.empty()) { size_t i = (r >> 2) % (d.size() * 8); d[i / 8] ^= 128 >> (i % 8); }
      break;
    case 1:                        // many do, after the first bytes
      for (size_t i = 3; i < d.size(); i++) { r = r * 1103515245u + 12345u; if ((r >> 20) % 3 == 0) d[i] ^= (r >> 12) & 255; }
      break;
    case 2:                        // the input before, cut or extended to this length
      for (size_t i = 2; i < d.size() && i < g_last.size(); i++) d[i] = g_last[i];
      break;
    case 3:                        // the same, on an empty store
      other = true;
      break;
  }
  size_t kept = S.kept.size();
  std::unique_ptr<Store> real(S.st[k].release());
  S.st[k].reset(new Store());
  if (!other) { S.st[k]->vps = real->vps; S.st[k]->sps = real->sps; S.st[k]->pps = real->pps; }
  J j;
  {
    Input in(d);
    call(j, op, k, in, a);
  }
  S.kept.erase(S.kept.begin() + kept, S.kept.end());
  S.st[k] = std::move(real);
  g_last = b;
}

struct Request {
  std::string op;
  int k = 1;
  std::vector<uint8_t> b;
  Args a;
  explicit Request(const std::string& line) {
    std::istringstream is(line);
    std::string o, hex, as;
    is >> o >> op >> k >> hex >> as;
    if (hex != "-")
      for (size_t i = 0; i + 1 < hex.size(); i += 2) b.push_back(strtol(hex.substr(i, 2).c_str(), nullptr, 16));
    if (as != "-" && !as.empty()) {
      std::istringstream ia(as);
      std::string t;
      while (std::getline(ia, t, ',')) a.push_back(atoll(t.c_str()));
    }
  }
};
std::string start_session(const std::string& line) {
  S.kept.clear();
  g_turn = strtoul(line.c_str() + 1, nullptr, 10) + 1;
  g_last.clear();
  for (int k = 0; k < 2; k++) {
    S.st[k].reset(new Store());
    for (auto& m : S.seen[k]) m.clear();
  }
  return "{\"session\":1}";
}
std::string perform(const Request& q, const Input& in) {
  g_pl.clear();
  J j;
  j.open('{');
  j.key("obs");
  g_work = g_alloc = 0;
  uint64_t t0 = cpu_ms();
  call(j, q.op, q.k - 1, in, q.a);
  uint64_t cost[3] = {g_work, g_alloc, cpu_ms() - t0};
  j.key("pl"); j.open('['); for (auto v : g_pl) j.num(v); j.close(']');
  j.key("d1"); emit_delta(j, 0);
  j.key("d2"); emit_delta(j, 1);
  j.key("ro"); j.num(in.same() ? 1 : 0);
  j.key("cost"); j.open('['); for (auto v : cost) j.num(v); j.close(']');
  j.close('}');
  return j.s;
}
std::string end_session() {
  J j;
  j.open('{'); j.key("changed"); j.open('[');
  for (size_t i = 0; i < S.kept.size(); i++) if (S.kept[i].second() != S.kept[i].first) j.num(i);
  j.close(']'); j.close('}');
  S.kept.clear();
  return j.s;
}

#ifndef CONCURRENT
int main() {
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    if (line[0] == 'S') {
      std::cout << start_session(line) << std::endl;
    } else if (line[0] == 'E') {
      std::cout << end_session() << std::endl;
    } else {
      Request q(line);
      if (g_decoy) decoy(q.op, q.k - 1, q.b, q.a);
      Input in(q.b);
      std::cout << perform(q, in) << std::endl;
    }
  }
  return 0;
}
#endif
