// Coverage-guided search for calls worth asking the specification about: the
// input is a sequence of calls (tools/search.py reads it the same way), and
// what libFuzzer keeps is afterwards decided by TLC.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <memory>
#include <string>
#include <vector>

#include "h265_bitstream_parser.h"
#include "h265_bitstream_parser_state.h"
#include "h265_common.h"
#include "h265_configuration_box_parser.h"
#include "h265_nal_unit_parser.h"
#include "h265_rtp_parser.h"
#include "h265_sei_parser.h"
#include "h265_st_ref_pic_set_parser.h"
#include "h265_utils.h"
#include "rtc_common.h"

using namespace h265nal;
static FILE* sink() {
  static FILE* f = fopen("/dev/null", "w");
  return f;
}
static ParsingOptions options() {
  ParsingOptions o;
  o.add_checksum = true;
  o.add_resolution = true;
  return o;
}
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  if (!getenv("VF_LOUD")) { if (!freopen("/dev/null", "w", stdout)) return 0; }
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  if (n < 3) return 0;
  const int op = d[0] % 8;
  const uint8_t arg = d[1];
  d += 2; n -= 2;
  H265BitstreamParserState st;
  auto each = [&](auto f) {      // pieces after two bytes of length
    for (size_t i = 0; i + 2 <= n;) {
      size_t z = (d[i] & 1) * 256 + d[i + 1];
      i += 2;
      if (z > n - i) z = n - i;
      std::vector<uint8_t> b(d + i, d + i + z);
      f(b);
      i += z;
    }
  };
  switch (op) {
    case 0: {
      auto r = H265BitstreamParser::ParseBitstream(d, n, &st, options());
      if (r) r->fdump(sink(), 0);
      H265Utils::GetSliceQpY(d, n, &st);
      break;
    }
    case 1: H265BitstreamParser::ParseBitstreamNALULength(d, n, arg % 9, &st, options()); break;
    case 2:
      each([&](std::vector<uint8_t>& b) {
        auto r = H265RtpParser::ParseRtp(b.data(), b.size(), &st);
        if (r) { H265Utils::GetSliceQpY(r, &st); r->fdump(sink(), 0, options()); }
      });
      break;
    case 3: {
      auto r = H265ConfigurationBoxParser::ParseConfigurationBox(d, n, &st, options());
      if (r) r->fdump(sink(), 0, options());
      break;
    }
    case 4: {
      BitBuffer bb(d, n);
      H265SeiMessageParser::ParseSei(&bb);
      break;
    }
    case 5: {
      BitBuffer bb(d, n);
      std::vector<std::unique_ptr<H265StRefPicSetParser::StRefPicSetState>> v;
      uint32_t num = arg % 8;
      for (uint32_t i = 0; i <= num; i++) {
        auto r = H265StRefPicSetParser::ParseStRefPicSet(&bb, i, num, &v, 15);
        if (!r) break;
        v.push_back(std::move(r));
      }
      break;
    }
    case 6:
      each([&](std::vector<uint8_t>& b) {
        auto r = H265NalUnitParser::ParseNalUnitUnescaped(b.data(), b.size(), &st, options());
        if (r) r->fdump(sink(), 0, options());
      });
      break;
    case 7:
      each([&](std::vector<uint8_t>& b) {
        H265NalUnitParser::ParseNalUnit(b.data(), b.size(), &st, options());
      });
      break;
  }
  return 0;
}
