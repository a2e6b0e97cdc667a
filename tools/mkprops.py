#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
        "mechanism": [{"name": a, "where": b} for a, b in mechanism],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "Annex B splitting finds exactly the start-code delimited NAL units",
 "For every byte buffer, splitting it as a byte stream reports, in order and without overlap, exactly one NAL unit per 00 00 01 start code that is followed by at least one byte (a zero byte directly before the start code counts as part of it, so the unit before ends there). Each reported unit starts right after its start code and extends to the next reported start code or the end of the buffer, and parsing the same buffer yields those units in that order with those offsets and lengths (leaving out only units too short to hold a two-byte NAL unit header).",
 ["inputs"], "every byte buffer of every length, including runs of zeros, 3- and 4-byte start codes mixed, start codes at the very beginning and end, and empty units",
 "Tests sample a handful of buffers; the scan skips ahead by data-dependent strides, so a wrong stride or boundary shows only for particular alignments of zero runs and start codes.",
 ["src/h265_bitstream_parser.cc", "include/h265_bitstream_parser.h"],
 [("FindNaluIndices", "src/h265_bitstream_parser.cc"), ("ParseBitstream", "src/h265_bitstream_parser.cc")],
 ["H265BitstreamParser::FindNaluIndices result", "H265BitstreamParser::ParseBitstream nal_units[].offset/.length"])

prop("C02", "Length-prefixed splitting follows the prefixes exactly and stops safely",
 "For every buffer and prefix size (0 to 8 bytes; 0 means the whole buffer is one unit), parsing a length-prefixed buffer yields the NAL units the big-endian length prefixes describe, in order, each with the offset of its first payload byte and its own length in bytes; a zero length, an incomplete prefix, or a length larger than what is left ends the parse without touching bytes outside the buffer. The explicit-framing splitter reports the same positions for 4-byte prefixes, except that it also reports zero-length units and goes on after them.",
 ["inputs"], "every buffer, every prefix size, every declared length including ones at and beyond the end of the buffer and close to the maximum of the length type",
 "The tests use one or two well-formed buffers; truncated prefixes, lengths that overrun by one, and 8-byte prefixes that wrap the arithmetic are not exercised.",
 ["src/h265_bitstream_parser.cc"],
 [("ParseBitstreamNALULength", "src/h265_bitstream_parser.cc"), ("FindNaluIndicesExplicitFraming", "src/h265_bitstream_parser.cc")],
 ["ParseBitstreamNALULength nal_units", "FindNaluIndicesExplicitFraming result"])

prop("C03", "Emulation prevention is removed exactly, and only once",
 "Removing emulation prevention from any byte string deletes exactly the 03 bytes that follow two zero bytes (an 03 that has been removed ends the zero run) and keeps every other byte in order, so that unescaping an escaped payload returns that payload. Parsing an escaped NAL unit through the byte-buffer entry points gives the same result as parsing its unescaped form through the unescaped entry point, for every structure that has both.",
 ["inputs"], "every byte string, including consecutive escapes, an escape in the last bytes, and escapes that fall inside any syntax element of any structure",
 "The tests contain two literal examples; whether an escape is dropped or kept next to another escape or at the end of the buffer depends on byte patterns they do not contain.",
 ["src/h265_common.cc", "src/h265_nal_unit_parser.cc"],
 [("UnescapeRbsp", "src/h265_common.cc"), ("ParseNalUnit / ParseNalUnitUnescaped", "src/h265_nal_unit_parser.cc")],
 ["UnescapeRbsp result", "ParseNalUnit vs ParseNalUnitUnescaped"])

prop("C04", "Bit-level reads and writes are exact and fail without side effect",
 "At any bit position of any buffer, reading u(n), ue(v), se(v) and non-symmetric values returns exactly the bits of the standard's encoding (every representable value, up to the 32-bit limits) and advances by exactly the bits consumed; a read, write, skip or seek (of any amount) that does not fit fails and leaves the position (and for writes the buffer) unchanged, except that a failed non-symmetric read may stop after its first part. What the writer writes at any position reads back as the same value and leaves the other bits alone, and the byte-alignment, bytes-used, more-data and trailing-bits predicates agree with clause 7.2 of the standard for an RBSP whose trailing bits are in its last byte.",
 ["inputs", "histories"], "every sequence of read, peek, skip, seek and write calls, at every bit offset, over every buffer, with every bit count",
 "Tests use a few aligned values; off-by-one masks at particular offset/width pairs, 31/32-bit exp-Golomb codes and failure restoration need combinations they do not try.",
 ["src/rtc_common.cc", "include/rtc_common.h", "src/h265_common.cc"],
 [("BitBuffer", "src/rtc_common.cc"), ("BitBufferWriter", "src/rtc_common.cc"), ("more_rbsp_data, rbsp_trailing_bits, byte_aligned, get_current_offset", "src/h265_common.cc")],
 ["BitBuffer / BitBufferWriter public methods", "more_rbsp_data", "rbsp_trailing_bits"],
 [("bit position", "byte and bit offset of the next bit", "BitBuffer")])

prop("C05", "The parameter-set store is the latest successful set per id",
 "At every moment the parser state holds, for each of VPS, SPS and PPS, exactly one entry per id that has ever been parsed successfully through it, and that entry is the content of the most recent successful one with that id. A NAL unit that fails to parse, or is of any other type, changes no entry, replacing one id changes no other id or kind, and an object handed out earlier keeps its content after its id is redefined.",
 ["histories", "inputs"], "every sequence of NAL units (valid, truncated, out of range, any type) fed through any of the entry points sharing one parser state",
 "Tests feed one VPS, one SPS and one PPS; redefinition, failure after a success, and interleaved ids are histories they never build.",
 ["src/h265_nal_unit_payload_parser.cc", "src/h265_bitstream_parser_state.cc", "include/h265_bitstream_parser_state.h"],
 [("storing on success", "src/h265_nal_unit_payload_parser.cc"), ("GetVps/GetSps/GetPps", "src/h265_bitstream_parser_state.cc")],
 ["H265BitstreamParserState::vps/sps/pps", "GetVps/GetSps/GetPps"],
 [("vps, sps, pps", "maps from id to parsed set", "H265BitstreamParserState")])

prop("C06", "Slices are read with the parameter sets in force at that moment",
 "A slice segment header is interpreted with the PPS stored under the id it names and the SPS stored under the id that PPS names, as they stand when the slice is parsed; sets that arrive later never change an already parsed header, and sets that arrive earlier under other ids never influence it. If that PPS or SPS is absent no header is produced, the rest of the stream still parses, and the same slice parses normally once the sets have arrived.",
 ["histories"], "every order of arrival, redefinition and omission of PPS and SPS around slices of every type",
 "Tests hold a single SPS/PPS pair in the natural order; re-pointing a PPS at another SPS or redefining an SPS between slices is not tried.",
 ["src/h265_slice_parser.cc", "src/h265_bitstream_parser_state.cc", "src/h265_nal_unit_payload_parser.cc"],
 [("ParseSliceSegmentHeader parameter set lookup", "src/h265_slice_parser.cc")],
 ["slice_segment_layer->slice_segment_header"],
 [("vps, sps, pps", "maps from id to parsed set", "H265BitstreamParserState")])

prop("C07", "VPS values equal the bits the standard assigns to them",
 "For every bit string that clause 7.3.2.1 describes as a video parameter set, the parsed VPS carries for each syntax element exactly the value coded there (including per-sub-layer ordering values, layer-set flags, timing, the HRD structures as far as they are retained, and extension data), and elements that are absent carry their inferred or default value. Bit strings in which an element lies outside its permitted range or data runs out yield no VPS.",
 ["inputs"], "every VPS bit string: all sub-layer counts, layer-set counts, HRD counts and flag combinations",
 "Tests contain a few captured VPSs, all with one sub-layer and no HRD; conditional elements multiply into combinations they do not reach.",
 ["src/h265_vps_parser.cc", "include/h265_vps_parser.h"],
 [("ParseVps", "src/h265_vps_parser.cc")], ["H265VpsParser::VpsState", "nal_unit_payload->vps"])

prop("C08", "SPS values equal the bits the standard assigns to them",
 "For every bit string that clause 7.3.2.2 describes as a sequence parameter set within the library's documented limits, the parsed SPS carries for each syntax element exactly the value coded there, lists have exactly the signalled number of entries, sub-structures are present exactly when signalled, and absent elements carry their inferred or default value. Identifiers, chroma format, picture size, window offsets, bit depths, POC length, DPB size, block sizes and list counts outside their permitted range yield no SPS.",
 ["inputs"], "every SPS bit string: all sub-layer counts, chroma formats, optional structures and extension flags in any combination, values at and just beyond each limit",
 "Tests contain about a dozen captured SPSs; a swapped field, a wrong condition or a limit off by one shows only in combinations they do not contain.",
 ["src/h265_sps_parser.cc", "include/h265_sps_parser.h"],
 [("ParseSps", "src/h265_sps_parser.cc")], ["H265SpsParser::SpsState", "nal_unit_payload->sps"])

prop("C09", "VUI and HRD parameters equal the bits the standard assigns to them",
 "For every bit string described by clauses E.2.1 to E.2.3, the parsed VUI, HRD and sub-layer HRD parameters carry for every syntax element exactly the value coded there, with per-sub-layer and per-CPB lists of exactly the signalled length, presence following the coded flags (and the inference rules for fixed picture rate and CPB count), and absent elements at their inferred or default value. Values beyond the limits the library documents and exhausted data yield no structure, and the frame rate derived from VUI timing is the time scale divided by the units per tick.",
 ["inputs"], "every VUI/HRD bit string: NAL/VCL/sub-picture HRD flags, all sub-layer and CPB counts, every optional VUI group",
 "Only two captured VUIs exist in the tests and no multi-layer or sub-picture HRD; presence conditions three levels deep are not sampled.",
 ["src/h265_vui_parameters_parser.cc", "src/h265_hrd_parameters_parser.cc", "src/h265_sub_layer_hrd_parameters_parser.cc"],
 [("ParseVuiParameters", "src/h265_vui_parameters_parser.cc"), ("ParseHrdParameters", "src/h265_hrd_parameters_parser.cc"), ("ParseSubLayerHrdParameters", "src/h265_sub_layer_hrd_parameters_parser.cc")],
 ["SpsState::vui_parameters", "VpsState::hrd_parameters", "stand-alone parsers"])

prop("C10", "PPS values equal the bits the standard assigns to them",
 "For every bit string that clause 7.3.2.3 describes as a picture parameter set using only extensions the library supports (multilayer without colour mapping, and SCC), the parsed PPS carries for each syntax element exactly the value coded there, with tile column and row lists of exactly the signalled length, sub-structures present exactly when signalled, and absent elements at their default value. A PPS that uses an unsupported extension, or runs out of data, is rejected as a whole.",
 ["inputs"], "every PPS bit string: tiles, deblocking, scaling lists and extension flags in any combination",
 "Tests contain a few captured PPSs without tiles layouts, scaling lists or multilayer data.",
 ["src/h265_pps_parser.cc", "src/h265_pps_multilayer_extension_parser.cc", "src/h265_pps_scc_extension_parser.cc"],
 [("ParsePps", "src/h265_pps_parser.cc")], ["H265PpsParser::PpsState", "nal_unit_payload->pps"])

prop("C11", "Slice segment headers equal the bits the standard assigns to them",
 "For every slice segment header that clause 7.3.6.1 describes relative to its active PPS and SPS and that does not use reference list modification or bi-predictive weight tables, the parsed header carries for each syntax element exactly the value coded there, with element widths, presence and inferred values (active reference counts, deblocking disable flag, collocated list) following the NAL unit type, slice type and active sets. Entry points, long-term pictures, weight tables and header extension bytes have exactly the signalled number of entries, and entry point counts beyond what the picture allows, or references to absent parameter sets, yield no header.",
 ["inputs", "configurations"], "every slice type, NAL unit type, dependent/independent and first/non-first segment, under every combination of SPS and PPS settings",
 "Tests contain a few captured first slices; address widths, POC widths, LT pictures, deblocking overrides and entry points vary with parameter sets the tests never combine.",
 ["src/h265_slice_parser.cc", "src/h265_pred_weight_table_parser.cc"],
 [("ParseSliceSegmentHeader", "src/h265_slice_parser.cc"), ("ParsePredWeightTable", "src/h265_pred_weight_table_parser.cc")],
 ["SliceSegmentHeaderState", "PredWeightTableState"])

prop("C12", "Short-term reference picture sets follow 7.3.7 and 7.4.8",
 "Every short-term reference picture set, whether coded explicitly or predicted from another set (in the SPS or in a slice header), is parsed to exactly the coded elements, and its negative and positive pictures (distances and used-by-current flags, in order) are those that the standard's derivation yields from the set it references. Sets whose coded picture counts, reference index or distances exceed the permitted range are rejected, and a later set predicts from the derived pictures of the referenced one.",
 ["inputs", "histories"], "every chain of explicit and predicted sets, all signs and magnitudes of the delta, all used/use_delta flag patterns, SPS and slice-level sets",
 "The tests contain two chains of prediction; the derivation walks two lists in both directions with three conditions per entry.",
 ["src/h265_st_ref_pic_set_parser.cc"],
 [("ParseStRefPicSet", "src/h265_st_ref_pic_set_parser.cc"), ("DeriveValues", "src/h265_st_ref_pic_set_parser.cc")],
 ["StRefPicSetState", "SpsState::st_ref_pic_set", "SliceSegmentHeaderState::st_ref_pic_set"])

prop("C13", "Profile, tier and level are parsed and classified exactly",
 "For every profile_tier_level bit string, general and sub-layer profile, compatibility, constraint and level elements carry exactly the coded values with presence following the flags of clause 7.3.3, and lists have exactly the signalled entries. The profile name reported for it is a function of profile space, profile_idc and constraint flags alone and matches the rows of the standard's profile tables (Tables A.2, A.3, A.5, A.7 and H.11), falling back to the family name or unspecified.",
 ["inputs"], "all profile_idc values, compatibility flags and constraint flag combinations, all sub-layer counts and presence patterns",
 "About fifty rows keyed by ten flags; tests hit fewer than half of the rows and no near misses, and no sub-layer presence patterns.",
 ["src/h265_profile_tier_level_parser.cc", "src/h265_common.cc"],
 [("ParseProfileInfo, GetProfileType", "src/h265_profile_tier_level_parser.cc"), ("profileTypeToString", "src/h265_common.cc")],
 ["ProfileTierLevelState", "ProfileInfoState::profile_type"])

prop("C14", "Scaling lists and parameter-set extensions are parsed exactly",
 "For every scaling_list_data, SPS range, multilayer, 3D and SCC extension and PPS multilayer and SCC extension bit string, the parsed structure carries for each element exactly the coded value, per-size and per-matrix lists have exactly the number of entries the standard defines, and entries appear in coded order. Values beyond the limits the library documents, and exhausted data, yield no structure.",
 ["inputs"], "all prediction-mode patterns and coefficient runs of scaling lists, all extension flags and palette or layer counts",
 "Scaling lists and most extensions occur at most once in the tests, with near-constant content.",
 ["src/h265_scaling_list_data_parser.cc", "src/h265_sps_range_extension_parser.cc", "src/h265_sps_multilayer_extension_parser.cc", "src/h265_sps_3d_extension_parser.cc", "src/h265_sps_scc_extension_parser.cc", "src/h265_pps_multilayer_extension_parser.cc", "src/h265_pps_scc_extension_parser.cc"],
 [("ParseScalingListData", "src/h265_scaling_list_data_parser.cc"), ("extension parsers", "src/h265_*_extension_parser.cc")],
 ["extension states of SpsState and PpsState", "stand-alone parsers"])

prop("C15", "SEI messages carry type, size and the exact payload",
 "For every SEI NAL unit, the first message's payload type and size are the sums coded in its 0xFF-extended bytes, a payload of a kind the library understands carries for each element exactly the coded value, and any other payload carries exactly the signalled number of payload bytes. A payload that is malformed or runs out of data yields no payload object but neither loses the type and size nor disturbs other NAL units or the parameter-set store.",
 ["inputs"], "every payload type and size, including multi-byte type and size codes, every supported payload kind, all counts inside them, and truncation at every point",
 "Tests cover one captured message per kind; multi-byte sizes, nested counts and truncation inside payloads are not sampled.",
 ["src/h265_sei_parser.cc", "include/h265_sei_parser.h"],
 [("ParseSei", "src/h265_sei_parser.cc")], ["SeiMessageState", "nal_unit_payload->sei"])

prop("C16", "NAL unit headers are decoded and dispatched by type",
 "For every NAL unit, the four header elements are exactly the coded bits, and the payload is interpreted as the structure that Table 7-1 assigns to its type: a payload object of that kind appears when parsing succeeds, objects of other kinds never appear, and types without a syntax structure here (reserved, unspecified, end of sequence/bitstream, filler) produce just the header. The type predicates and names (slice segment, VCL, non-VCL, unspecified) agree with Table 7-1 for every type value, and bytes reported as parsed never exceed the unescaped unit.",
 ["inputs"], "all 64 NAL unit types, all layer and temporal ids, all payload bytes",
 "Tests cover about ten types; dispatch and classification tables have 64 entries each.",
 ["src/h265_nal_unit_header_parser.cc", "src/h265_nal_unit_payload_parser.cc", "src/h265_nal_unit_parser.cc", "src/h265_aud_parser.cc", "src/h265_common.cc"],
 [("ParseNalUnitHeader", "src/h265_nal_unit_header_parser.cc"), ("ParseNalUnitPayload", "src/h265_nal_unit_payload_parser.cc"), ("IsNalUnitTypeVcl and friends", "src/h265_common.cc")],
 ["NalUnitState", "NalUnitTypeToString", "IsSliceSegment"])

prop("C17", "RTP payloads are unpacked into the NAL units they carry",
 "For every RTP payload, a single-NAL-unit packet parses exactly as that NAL unit, an aggregation packet yields one entry per length-prefixed unit with the coded size, header and the payload that parsing that unit on its own gives, and a fragmentation unit yields its start/end flags and type, with the payload parsed as the carried type exactly when the start flag is set. Parameter sets carried this way update the parser state exactly as if the NAL unit had been parsed directly, and truncated or inconsistent packets yield no result or a prefix without reading outside the packet.",
 ["inputs", "histories"], "all packet types, aggregation counts and sizes, units with emulation bytes at any place, and interleavings with other packets sharing the state",
 "Tests contain one captured packet per kind; sizes that disagree with contents, emulation bytes inside aggregates and state updates are not sampled.",
 ["src/h265_rtp_parser.cc", "src/h265_rtp_single_parser.cc", "src/h265_rtp_ap_parser.cc", "src/h265_rtp_fu_parser.cc"],
 [("ParseRtp, ParseRtpSingle, ParseRtpAp, ParseRtpFu", "src/h265_rtp_*.cc")],
 ["RtpState", "H265BitstreamParserState after the call"],
 [("vps, sps, pps", "maps from id to parsed set", "H265BitstreamParserState")])

prop("C18", "hvcC configuration boxes are parsed into their fields and NAL units",
 "For every decoder configuration record, each fixed field is exactly the coded value, and the arrays hold exactly the signalled number of entries, each with its signalled type, count and the NAL units delimited by the coded lengths, parsed as they would be on their own; the parameter sets they carry are available for later slices. Records with a wrong version, wrong reserved bits, or lengths beyond the data yield no result.",
 ["inputs"], "all field values, array and unit counts (including zero), unit lengths, units with emulation bytes, truncation at every byte",
 "Tests contain a single captured record.",
 ["src/h265_configuration_box_parser.cc"],
 [("ParseConfigurationBox", "src/h265_configuration_box_parser.cc")], ["ConfigurationBoxState", "H265BitstreamParserState after the call"],
 [("vps, sps, pps", "maps from id to parsed set", "H265BitstreamParserState")])

prop("C19", "Parsing is all-or-nothing on truncated or out-of-range data",
 "For every valid parameter set, slice header, delimiter or extension structure, cutting its bits before the last required element, or moving any range-limited element outside its permitted range, makes the parse of that structure yield nothing at all: never a partially filled object. The same bits with more data after them parse to the same values.",
 ["inputs"], "every valid structure, every truncation point, every range-limited element at its limits and one beyond",
 "Tests truncate almost nothing and probe few limits; each of several hundred reads has its own failure branch.",
 ["src/h265_vps_parser.cc", "src/h265_sps_parser.cc", "src/h265_pps_parser.cc", "src/h265_slice_parser.cc", "src/h265_vui_parameters_parser.cc", "src/h265_hrd_parameters_parser.cc", "src/h265_st_ref_pic_set_parser.cc", "src/h265_scaling_list_data_parser.cc"],
 [("checked reads", "src/h265_*_parser.cc")], ["null or non-null result of every parser", "H265BitstreamParserState"])

prop("C20", "Any bytes, any call order: defined, bounded, no crash",
 "For every byte string and every sequence of calls to the public parsing entry points and the text dump, the library terminates, never reads outside the buffers it was given, never aborts and performs no undefined operation, and reports malformed data only by an absent result. Memory and time stay proportional to the input.",
 ["inputs", "histories"], "arbitrary bytes, mutated real and generated streams, all entry points, dump of every result",
 "Fuzz targets exist but do not run in the test suite; the unit tests feed well-formed data.",
 ["src/*.cc"],
 [("bounds checks on every count and length", "src/h265_*_parser.cc")], ["process exit status under address and undefined-behaviour sanitizers"])

prop("C21", "Slice QP is 26 + init_qp_minus26 + slice_qp_delta, per slice, in order",
 "For every buffer, the QP list has exactly one entry per slice segment whose header was parsed, in stream order, equal to 26 plus the initial QP offset of the PPS in force for that slice plus the QP delta in its header (0 where the header carries none); for an RTP packet it is the value of the slice it carries (the last unit of an aggregate, the first fragment of a fragmented one), and nothing when it carries no slice header. Repeated calls on one parser state continue from the sets seen before.",
 ["inputs", "histories"], "all slice types, PPS redefinitions between slices, all RTP packet kinds, chunked streams",
 "Tests compute the QP of one captured stream with one PPS.",
 ["src/h265_utils.cc"], [("GetSliceQpY", "src/h265_utils.cc")], ["H265Utils::GetSliceQpY (buffer)", "H265Utils::GetSliceQpY (RTP)"],
 [("pps", "map from id to parsed set", "H265BitstreamParserState")])

prop("C22", "Derived picture dimensions follow the standard's equations",
 "For every successfully parsed SPS, the derived coding-block and CTB sizes, picture sizes in those units and in samples, chroma subsampling factors and maximum number of negative pictures equal the standard's equations 7-10 to 7-24 and Table 6-1 applied to its values. The reported resolution is the coded size less the conformance window scaled by the chroma subsampling factors.",
 ["inputs"], "all accepted picture sizes, block sizes, chroma formats, colour-plane flags and window offsets",
 "Tests check two common resolutions with 4:2:0.",
 ["src/h265_sps_parser.cc"], [("get* accessors, getResolution", "src/h265_sps_parser.cc")], ["SpsState accessors", "resolution in the dump"])

prop("C23", "The NAL unit checksum is a pure function of the unit's bytes",
 "For every NAL unit, the reported checksum is the one's complement of the end-around-carry sum of the unescaped unit's big-endian 32-bit words (zero-padded at the end), printed as its hexadecimal bytes (as many whole bytes as fit, ended, when the caller gives less room). It is present exactly when requested, does not depend on the parser state or other units, and computing it does not affect what is parsed.",
 ["inputs"], "all unit contents and lengths modulo 4, carries, with the option on and off",
 "Tests compare a few captured checksums; carry folding and tail padding need particular sums and lengths.",
 ["src/h265_common.cc", "src/h265_nal_unit_parser.cc"], [("GetNaluChecksum", "src/h265_common.cc")], ["NalUnitState::checksum"])

prop("C24", "The text dump and the command-line tool report the parsed values",
 "For every parsed NAL unit, the dump names each decoded syntax element in stream order with the value in the parsed object (undecoded extension data aside), offset, length, parsed length, checksum and resolution appear exactly when their option is on, and the one-line and indented forms differ only in white space. The command-line tool, for every option combination, input form (byte stream, length-prefixed, with a configuration box) and stream, prints exactly that dump for the units of the input (with the bytes of each unit when contents are asked for), one line per unit in one-line form, and its length listing has one record per NAL unit and one per picture (total slice bytes, as bits per second at the given frame rate), as its options describe.",
 ["inputs", "configurations"], "all structures with all optional groups, all option combinations of the tool, all input forms",
 "The tests check the text of few structures and never run the tool.",
 ["src/*_parser.cc (fdump)", "tools/h265nal.cc"], [("fdump", "src/*_parser.cc"), ("main", "tools/h265nal.cc")], ["fdump output", "tool standard output and output file"])

prop("C25", "Parsing in one call equals parsing unit by unit",
 "For every stream, parsing it in one call, in several consecutive chunks cut at start codes with one shared parser state, as length-prefixed data, or one NAL unit at a time gives the same sequence of parsed units (apart from offsets) and the same final parser state. A unit's result depends only on its bytes and the parameter sets stored before it.",
 ["histories", "inputs"], "every stream and every way of cutting it at unit boundaries, across all entry points",
 "Tests never compare two entry points on one stream.",
 ["src/h265_bitstream_parser.cc", "src/h265_nal_unit_parser.cc", "src/h265_nal_unit_payload_parser.cc"],
 [("ParseBitstream, ParseBitstreamNALULength, ParseNalUnit", "src/h265_bitstream_parser.cc, src/h265_nal_unit_parser.cc")],
 ["NalUnitState sequence", "H265BitstreamParserState"],
 [("vps, sps, pps", "maps from id to parsed set", "H265BitstreamParserState")])

prop("C26", "Parsers are pure: deterministic, isolated and read-only on input",
 "Parsing the same bytes from the same parser state always gives the same result with every reported member defined, independent of earlier calls on other parser states, of what memory held before, and of the parsing options (which only select optional annotations). Input buffers and previously returned objects are never modified (input not even for the time of a call), and two parser states never influence each other, whether they are used in turn or from different threads at the same time.",
 ["histories", "inputs"], "repeated and interleaved sessions on separate states, in one process",
 "Uninitialised or shared state shows only across repeated runs, interleavings or differing memory contents; tests parse once.",
 ["src/*_parser.cc", "include/*_parser.h"], [("per-call state objects, no globals", "src/*_parser.cc")], ["all results of repeated calls", "input buffer after the call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
