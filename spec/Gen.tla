---------------------------------- MODULE Gen ----------------------------------
(* The environment: which calls a user makes and on what bytes.  All choices  *)
(* are functions of a seed, so a behaviour is reproducible from its number.   *)
(* Bytes are mostly what the grammars of Syntax generate (so that deep fields *)
(* are reached), wrapped in NAL units and containers, some of them damaged.   *)
EXTENDS Session

Below(r, i, n) == H(r, i) % n                                 \* 0 .. n-1
Of(r, i, q) == q[1 + Below(r, i, Len(q))]
Chance(r, i, n) == Below(r, i, n) = 0

(* ------------------------------------------------------------- raw bytes *)
ZeroishAlphabet == << 0, 0, 0, 0, 1, 1, 2, 3, 3, 4, 128, 255 >>
Zeroish(r, n) == [k \in 1..n |-> Of(r, 2000 + k, ZeroishAlphabet)]

(* ------------------------------------------------------------- mutations *)
SetAt(b, i, v) == [b EXCEPT ![i] = v]
FlipBit(b, p) ==
  LET w == Pow2(7 - (p % 8))
      i == (p \div 8) + 1
  IN SetAt(b, i, IF (b[i] \div w) % 2 = 1 THEN b[i] - w ELSE b[i] + w)
Mutate(b, r) ==
  IF b = <<>> THEN RndBytes(r, Below(r, 1, 3))
  ELSE LET n == Len(b)
           i == 1 + Below(r, 2, n)
       IN CASE Below(r, 1, 9) \in {0, 1, 2} -> SubSeq(b, 1, Below(r, 3, n))
            [] Below(r, 1, 9) \in {3, 4} -> FlipBit(b, Below(r, 3, 8 * n))
            [] Below(r, 1, 9) = 5 -> SetAt(b, i, Of(r, 3, << 0, 0, 255, 128, 3, 1 >>))
            [] Below(r, 1, 9) = 6 -> b \o RndBytes(r, 1 + Below(r, 3, 5))
            [] Below(r, 1, 9) = 7 -> SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, n)
            [] OTHER -> FlipBit(FlipBit(b, Below(r, 3, 8 * n)), Below(r, 4, 8 * n))
MaybeMutate(b, r, tenths) == IF Below(r, 40, 10) < tenths THEN Mutate(b, H(r, 41)) ELSE b

(* --------------------------------------------- payloads from the grammars *)
Sizes64 == << 64, 64, 128, 192, 256, 320, 640, 832, 1280, 1920, 4096, 8192, 16384 >>
NoForce == [x \in {} |-> <<>>]
(* biases: pictures whose size fits the coding blocks, ids that exist, and,   *)
(* by extras, feature switches                                                *)
Extras ==
  << NoForce, NoForce, NoForce,
     ("tiles_enabled_flag" :> <<1>>) @@ ("entropy_coding_sync_enabled_flag" :> <<0, 1>>)
       @@ ("dependent_slice_segments_enabled_flag" :> <<1>>),
     ("sps_extension_present_flag" :> <<1>>) @@ ("pps_extension_present_flag" :> <<1>>)
       @@ ("sps_scc_extension_flag" :> <<1>>) @@ ("pps_scc_extension_flag" :> <<1>>),
     ("sps_extension_present_flag" :> <<0>>) @@ ("pps_extension_present_flag" :> <<0>>),
     ("slice_type" :> <<0>>) @@ ("weighted_bipred_flag" :> <<1>>)
       @@ ("long_term_ref_pics_present_flag" :> <<1>>) @@ ("sps_temporal_mvp_enabled_flag" :> <<1>>),
     ("slice_type" :> <<0, 1>>) @@ ("slice_temporal_mvp_enabled_flag" :> <<1>>)
       @@ ("collocated_from_l0_flag" :> <<0>>) @@ ("num_ref_idx_active_override_flag" :> <<0, 1>>),
     ("chroma_format_idc" :> <<3>>) @@ ("separate_colour_plane_flag" :> <<1>>)
       @@ ("output_flag_present_flag" :> <<1>>),
     ("vui_parameters_present_flag" :> <<1>>) @@ ("vui_timing_info_present_flag" :> <<1>>)
       @@ ("vui_hrd_parameters_present_flag" :> <<1>>)
       @@ ("vps_timing_info_present_flag" :> <<1>>),
     ("scaling_list_enabled_flag" :> <<1>>) @@ ("sps_scaling_list_data_present_flag" :> <<1>>)
       @@ ("pps_scaling_list_data_present_flag" :> <<1>>),
     ("inter_ref_pic_set_prediction_flag" :> <<1>>) @@ ("short_term_ref_pic_set_sps_flag" :> <<0>>),
     ("deblocking_filter_control_present_flag" :> <<1>>)
       @@ ("deblocking_filter_override_enabled_flag" :> <<0, 1>>)
       @@ ("pps_loop_filter_across_slices_enabled_flag" :> <<1>>),
     ("conformance_window_flag" :> <<1>>) @@ ("pps_multilayer_extension_flag" :> <<1>>)
       @@ ("pps_extension_present_flag" :> <<1>>),
     ("sample_adaptive_offset_enabled_flag" :> <<1>>) @@ ("chroma_format_idc" :> <<0, 1>>)
       @@ ("slice_segment_header_extension_present_flag" :> <<1>>) >>
IdSeq(f) == SetToSortSeq(DOMAIN f, LAMBDA x, y : x < y)
ForceFor(r, store) ==
  LET base == IF Chance(r, 50, 10) THEN NoForce
              ELSE ("pic_width_in_luma_samples" :> Sizes64) @@ ("pic_height_in_luma_samples" :> Sizes64)
      pid  == IF store.sps = NoSets \/ Chance(r, 51, 10) THEN NoForce
              ELSE ("pps_seq_parameter_set_id" :> IdSeq(store.sps))
      sid  == IF store.pps = NoSets \/ Chance(r, 52, 30) THEN NoForce
              ELSE ("slice_pic_parameter_set_id" :> IdSeq(store.pps))
  IN base @@ pid @@ sid @@ Of(r, 53, Extras)
(* k: which limited element is put out of range; 0 none                       *)
KOf(r, tenths) == IF Below(r, 60, 10) < tenths THEN 1 + Below(r, 61, 16) ELSE 0

(* the RBSP of a unit of type t, or random bytes where no syntax applies      *)
SeiTypes == << 4, 5, 137, 141, 142, 144, 147, 148, 149, 165 >>
FFCode(v) == [k \in 1..(v \div 255) |-> 255] \o << v % 255 >>
(* a second message, which the library does not read                          *)
SeiUnknownBytes(r) == << 3, 1, 255 >>
SeiBytes(r, tenths) ==
  LET type == IF Below(r, 1, 12) < 10 THEN Of(r, 2, SeiTypes)
              ELSE Of(r, 2, << 0, 1, 6, 128, 132, 255, 256, 510, 1000 >>)
      n    == IF type \in {4, 5} THEN Of(r, 3, << 0, 1, 2, 3, 15, 16, 17, 18, 20, 30 >>)
              ELSE Of(r, 3, << 0, 1, 2, 5, 9, 254, 255, 256, 300, 510 >>)
      g    == SeiPayloadG(GenState(H(r, 4), 0, NoForce, SeiPayloadD(type)), type, n)
      body == GenBytes(g)
      size == IF Chance(r, 5, 12) THEN Below(r, 6, 40) ELSE Len(body)
  IN FFCode(type) \o FFCode(size) \o body
     \o (IF Chance(r, 7, 4) THEN SeiUnknownBytes(r) ELSE <<>>) \o << 128 >>
Rbsp(t, store, r, tenths) ==
  LET F == ForceFor(r, store)
      g(D) == GenState(H(r, 62), KOf(r, tenths), F, D)
  IN CASE t = 32 -> GenBytes(VpsG(g(VpsD)))
       [] t = 33 -> GenBytes(SpsG(g(SpsD)))
       [] t = 34 -> GenBytes(PpsG(g(PpsD)))
       [] t = 35 -> GenBytes(AudG(g(AudD)))
       [] t \in {39, 40} -> SeiBytes(H(r, 63), tenths)
       [] IsSliceType(t) ->
            LET s == SliceG(g(SliceD), t, store.pps, store.sps)
            IN BitsToBytes(GenBits(s) \o <<1>>) \o RndBytes(H(r, 64), Below(r, 65, 12))
       [] OTHER -> RndBytes(H(r, 66), Below(r, 67, 12))
UnitHead(t, r) ==
  LET odd == Chance(r, 70, 6)
      layer == IF odd THEN Below(r, 71, 64) ELSE 0
      tid == IF odd THEN Below(r, 72, 8) ELSE 1
      f == IF odd /\ Chance(r, 73, 4) THEN 1 ELSE 0
  IN << f * 128 + t * 2 + (layer \div 32), (layer % 32) * 8 + tid >>
(* kinds of units *)
TypeOf(kind, r) ==
  CASE kind = "vps" -> 32 [] kind = "sps" -> 33 [] kind = "pps" -> 34 [] kind = "aud" -> 35
    [] kind = "sei" -> Of(r, 75, << 39, 40 >>)
    [] kind = "slice" -> Of(r, 75, << 0, 1, 1, 1, 2, 4, 8, 9, 16, 18, 19, 19, 20, 21 >>)
    [] kind = "idr" -> Of(r, 75, << 19, 20 >>)
    [] kind = "other" -> Of(r, 75, << 10, 15, 22, 23, 24, 31, 36, 37, 38, 41, 47, 48, 49, 50, 63 >>)
    [] kind = "any" -> Below(r, 75, 64)
(* an unescaped unit *)
UnitU(kind, store, r, tenths) ==
  LET t == TypeOf(kind, r)
      u0 == UnitHead(t, r) \o Rbsp(t, store, H(r, 76), tenths)
  IN MaybeMutate(u0, H(r, 77), tenths)
(* and as it is transmitted; now and then without emulation prevention        *)
Coded(u0, r) == IF Chance(r, 78, 40) THEN u0 ELSE Escape(u0)
UnitE(kind, store, r, tenths) == Coded(UnitU(kind, store, r, tenths), r)

(* n units in a row, each generated with what is in force by then:            *)
(* a sequence of coded units                                                  *)
UnitRow(kinds, n, store, r, tenths) ==
  FoldLeft(LAMBDA a, k :
     LET ru == H(r, 100 + k)
         e  == UnitE(IF n = Len(kinds) THEN kinds[k] ELSE Of(ru, 1, kinds), a.store, ru, tenths)
     IN [us |-> Append(a.us, e),
         store |-> IF k = n THEN a.store ELSE Nalu(e, a.store, FALSE).store],
     [us |-> <<>>, store |-> store], Iota(n)).us

(* ------------------------------------------------------------- containers *)
StartCode(r) == IF Chance(r, 80, 2) THEN << 0, 0, 1 >> ELSE << 0, 0, 0, 1 >>
AnnexB(us, r, tenths) ==
  LET pre == IF Chance(r, 81, 8) THEN Zeroish(H(r, 82), Below(r, 83, 5)) ELSE <<>>
      d == FoldLeft(LAMBDA a, k : a \o StartCode(H(r, 300 + k)) \o us[k]
                       \o (IF Chance(r, 400 + k, 8) THEN << 0, 0 >> ELSE <<>>), pre, Iota(Len(us)))
  IN IF tenths > 0 /\ Chance(r, 84, 12) THEN Mutate(d, H(r, 85)) ELSE d
BytesOf(v, n) ==          \* v in n bytes, n <= 8
  [k \in 1..n |-> IF n - k > 3 THEN 0 ELSE (v \div (IF n - k = 3 THEN 16777216 ELSE Pow2(8 * (n - k)))) % 256]
LenPrefixed(us, n, r, tenths) ==
  LET d == FoldLeft(LAMBDA a, k : a \o BytesOf(Len(us[k]), n) \o us[k], <<>>, Iota(Len(us)))
  IN IF tenths > 0 /\ Chance(r, 84, 5) THEN Mutate(d, H(r, 85))
     ELSE IF tenths > 0 /\ n >= 1 /\ Len(us) > 0 /\ Chance(r, 86, 8)
     THEN \* a prefix that claims too much, perhaps hugely
          [i \in 1..Len(d) |-> IF i <= n THEN Of(r, 500 + i, << 255, 0, 127, 128, d[i] >>) ELSE d[i]]
     ELSE d
(* an aggregation packet of escaped units                                      *)
ApPacket(us, r, tenths) ==
  LET d == << 96, 1 >> \o FoldLeft(LAMBDA a, k : a \o BytesOf(Len(us[k]), 2) \o us[k], <<>>, Iota(Len(us)))
  IN IF tenths > 0 /\ Chance(r, 84, 4) THEN Mutate(d, H(r, 85)) ELSE d
(* the fragment of a unit between its bytes i and j (unit without its header) *)
FuPacket(e, r) ==
  LET t == (e[1] \div 2) % 64
      n == Len(e)
      start == Below(r, 87, 3) # 0
      i == IF start THEN 3 ELSE Min2(n + 1, 3 + Below(r, 88, n))
      end == Chance(r, 89, 3)
  IN << 98 + (e[1] % 2), e[2] >>
     \o << (IF start THEN 128 ELSE 0) + (IF end THEN 64 ELSE 0) + t >>
     \o SubSeq(e, i, n)
(* a configuration record holding the units, one array for each                *)
BoxBytes(us, r, tenths) ==
  LET h == BoxHeadG(GenState(H(r, 90), IF tenths > 0 /\ Chance(r, 91, 8) THEN 1 + Below(r, 92, 6) ELSE 0, NoForce, BoxD))
      \* two units per array now and then
      Arr(k) == LET two == k < Len(us) /\ Chance(r, 600 + k, 3)
                    z(i) == BytesOf(Len(us[i]), 2) \o us[i]
                IN [n |-> IF two THEN 2 ELSE 1,
                    b |-> << (H(r, 700 + k) % 2) * 128
                             + (IF tenths > 0 /\ Chance(r, 800 + k, 20) THEN 64 ELSE 0)
                             + ((us[k][1] \div 2) % 64) >>
                          \o << 0, IF two THEN 2 ELSE 1 >> \o z(k) \o (IF two THEN z(k + 1) ELSE <<>>)]
      f == FoldLeft(LAMBDA a, k : IF k < a.next THEN a
                     ELSE IF us[k] = <<>> THEN [a EXCEPT !.next = k + 1]
                     ELSE LET q == Arr(k) IN [next |-> k + q.n, b |-> a.b \o q.b, n |-> a.n + 1],
                    [next |-> 1, b |-> <<>>, n |-> 0], Iota(Len(us)))
      d == GenBytes(h) \o << IF tenths > 0 /\ Chance(r, 93, 12) THEN f.n + 1 ELSE f.n >> \o f.b
  IN IF tenths > 0 /\ Chance(r, 84, 6) THEN Mutate(d, H(r, 85)) ELSE d

(* ----------------------------------------- structures parsed on their own *)
StructArgs(k, r) ==
  CASE k = "s_ptl" -> << Below(r, 10, 2), Below(r, 11, 8) >>
    [] k = "s_slhrd" -> << Below(r, 10, 7), Below(r, 11, 5), Below(r, 12, 2) >>
    [] k = "s_hrd" -> << Below(r, 10, 2), Below(r, 11, 7) >>
    [] k = "s_vui" -> << Below(r, 10, 7) >>
    [] k = "s_spsscc" -> << Below(r, 10, 4), Below(r, 11, 9), Below(r, 12, 9) >>
    [] k = "s_pwt" -> << Below(r, 10, 4), Below(r, 11, 6) >>
    [] k \in {"s_slice", "s_layer"} -> << TypeOf(Of(r, 10, << "slice", "slice", "slice", "any" >>), r) >>
    [] OTHER -> <<>>
StructSeq == << "s_profinfo", "s_ptl", "s_slhrd", "s_hrd", "s_vui", "s_vps", "s_scaling",
  "s_spsrange", "s_spsml", "s_sps3d", "s_spsscc", "s_sps", "s_ppsml", "s_ppsscc", "s_pps",
  "s_aud", "s_pwt", "s_slice", "s_layer", "s_hdr" >>
Event(op, st, b, a) == [op |-> op, st |-> st, b |-> b, a |-> a]
StructEvent(k, st, store, r, tenths) ==
  LET a == StructArgs(k, r)
      variant == IF Chance(r, 20, 2) THEN 0 ELSE 1 + Of(r, 21, << 0, 0, 1, 3, 4, 7, 8 >>)
      off == IF variant = 0 THEN 0 ELSE variant - 1
      g0 == GenState(H(r, 62), KOf(r, tenths), ForceFor(r, store), StructD(k))
      g  == StructG(k, [Emit(g0, [i \in 1..off |-> H(r, 900 + i) % 2]) EXCEPT !.p = off], a, store)
      b  == MaybeMutate(GenBytes(g), H(r, 77), tenths)
            \o (IF Chance(r, 22, 3) THEN RndBytes(H(r, 23), Below(r, 24, 4)) ELSE <<>>)
  IN Event(k, st, IF variant = 0 THEN Coded(b, r) ELSE b, << variant >> \o a)
(* chains of reference picture sets                                            *)
RECURSIVE StGen(_, _, _, _, _)
StGen(s, i, num, max, acc) ==
  IF i > num \/ ~s.ok THEN s
  ELSE LET t == StRpsG([s EXCEPT !.f = StRpsD], i, num, acc, max)
       IN IF ~t.ok THEN t ELSE StGen(t, i + 1, num, max, Append(acc, t.f))
StEvent(st, r, tenths) ==
  LET off == Below(r, 20, 8)
      num == Of(r, 21, << 0, 1, 1, 2, 3, 4, 6, 9 >>)
      max == Of(r, 22, << 15, 15, 15, 15, 16, 3, 1, 0 >>)
      F   == Of(r, 23, << NoForce, NoForce, "inter_ref_pic_set_prediction_flag" :> <<1>>,
                          "inter_ref_pic_set_prediction_flag" :> <<0, 1, 1, 1>>,
                          ("use_delta_flag" :> <<1>>) @@ ("inter_ref_pic_set_prediction_flag" :> <<1>>) >>)
      g0 == GenState(H(r, 62), KOf(r, tenths), F, StRpsD)
      g == StGen([Emit(g0, [i \in 1..off |-> 1]) EXCEPT !.p = off], 0, num, max, <<>>)
  IN Event("strps", st, MaybeMutate(GenBytes(g), H(r, 77), tenths), << off, num, max >>)

(* ------------------------------------------------------- bit-level runs *)
Widths == << 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64 >>
W32 == << 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 34 >>
NsNums == << 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 255, 256, 257, 65535, 65536, 1073741824,
             2147483647, MinInt, 1000000007 >>
ReadOpOf(r) ==
  LET c == Of(r, 1, << 1, 1, 1, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 20, 21 + Below(r, 7, 6) >>)
  IN << c, CASE c \in {1, 6} -> Of(r, 2, W32) [] c \in {2, 7} -> Of(r, 2, Widths \o << 65, 66, 100 >>)
             [] c = 5 -> Of(r, 2, NsNums)
             [] c = 11 -> Of(r, 2, << 0, 1, 2, 5, 7, 8, 9, 16, 31, 100, 2147483647 >>)
             [] c = 12 -> Of(r, 2, << 0, 1, 2, 3, 5, 268435455 >>)
             [] c = 13 -> Below(r, 2, 140)
             [] c = 18 -> Of(r, 2, << 0, 1, 2, 3, 4, 9 >>)
             [] c = 20 -> Below(r, 2, 280)
             [] c \in 21..26 -> Of(r, 2, << 0, 1, 2, 7, 8, 100, 65535 >>)
             [] OTHER -> 0 >>
GolombBytes(r) ==   \* mostly Exp-Golomb codes, some long
  LET v(k) == LET c == H(r, 3000 + k) IN
              IF c % 4 = 0 THEN Of(r, 4000 + k, Extremes) ELSE (c \div 8) % 40
  IN BitsToBytes([i \in 1..Below(r, 5, 8) |-> H(r, 3500 + i) % 2]
                 \o Flatten([k \in 1..(1 + Below(r, 6, 5)) |-> UEBits(v(k))]))
(* a run that would have to continue after a failed two-part read is cut there *)
BitsEvent(st, r) ==
  LET b == CASE Below(r, 1, 4) = 0 -> RndBytes(H(r, 2), Below(r, 3, 17))
             [] Below(r, 1, 4) = 1 -> Zeroish(H(r, 2), Below(r, 3, 17))
             [] OTHER -> GolombBytes(H(r, 2))
      n == 1 + Below(r, 4, 12)
      ops == [k \in 1..n |-> ReadOpOf(H(r, 100 + k))]
      done == Len(ReadRun(b, 0, ops, <<>>))
  IN Event("bits", st, b, Flatten(SubSeq(ops, 1, done)))
WordOf(r) == IF Chance(r, 1, 3) THEN Of(r, 2, Extremes) ELSE IF Chance(r, 3, 2) THEN H(r, 4) % 64 ELSE H(r, 4) - 1073741824
WriteOpOf(r) ==
  LET c == Of(r, 1, << 1, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12 + Below(r, 9, 2) >>)
      num == Of(r, 2, NsNums)
      v == IF num = MinInt THEN H(r, 3) ELSE H(r, 3) % num
      lo == WordOf(H(r, 5))
  IN CASE c = 1 -> << 1, WordOf(H(r, 6)), lo, Of(r, 2, Widths) >>
       [] c \in {4, 10} -> << c, 0, v, num >>
       [] c = 2 -> << 2, 0, lo, 0 >>
       [] c = 3 -> << 3, 0, lo, 0 >>
       [] c \in {5, 6, 7} -> << c, 0, IF c = 7 THEN lo ELSE (H(r, 7) % (IF c = 5 THEN 256 ELSE 65536)), 0 >>
       [] c = 8 -> << 8, 0, 0, Below(r, 8, 140) >>
       [] c = 11 -> << 11, 0, 0, Below(r, 8, 280) >>
       [] OTHER -> << 9, 0, 0, Below(r, 8, 20) >>
WBitsEvent(st, r) ==
  Event("wbits", st, RndBytes(H(r, 2), Below(r, 3, 17)),
        Flatten([k \in 1..(1 + Below(r, 4, 10)) |-> WriteOpOf(H(r, 100 + k))]))

(* ------------------------------------------------------------------- steps *)
(* a step: wrapper, kinds of units, how many at most, damage in tenths         *)
Step(w, k, n, m) == [w |-> w, k |-> k, n |-> n, m |-> m]
Row1(r, s, store) == UnitRow(s.k, IF s.n < 0 THEN Len(s.k) ELSE Below(r, 30, s.n + 1), store, H(r, 31), s.m)
One(r, s, store)  == LET k == Of(r, 32, s.k) IN UnitU(k, store, H(r, 33), s.m)
OneE(r, s, store) == Coded(One(r, s, store), r)
Make(s, st, store, r) ==
  LET w == s.w
      sum == Below(r, 34, 2)
      own == IF Chance(r, 35, 12) THEN 1 ELSE 0
  IN CASE w = "nalu" -> Event("nalu", st, OneE(r, s, store), << sum >>)
       [] w \in {"naluu", "nalub"} -> Event(w, st, One(r, s, store), << sum >>)
       [] w = "payload" ->
            LET t == TypeOf(Of(r, 32, s.k), r)
                b == MaybeMutate(Rbsp(t, store, H(r, 33), s.m), H(r, 36), s.m)
            IN IF Chance(r, 37, 2) THEN Event("payload", st, Coded(b, r), << t, 0 >>)
               ELSE Event("payload", st, RndBytes(H(r, 38), 2) \o b, << t, 17 >>)
       [] w = "stream" -> Event("stream", st, AnnexB(Row1(r, s, store), H(r, 39), s.m), << sum, own >>)
       [] w = "find" -> Event("find", st, AnnexB(Row1(r, s, store), H(r, 39), s.m), <<>>)
       [] w = "qp" -> Event("qp", st, AnnexB(Row1(r, s, store), H(r, 39), s.m), <<>>)
       [] w = "lenstream" ->
            LET n == Of(r, 42, << 0, 1, 2, 3, 4, 4, 4, 5, 8 >>)
                us == SelectSeq(Row1(r, s, store), LAMBDA x : n # 1 \/ Len(x) < 256)
            IN Event("lenstream", st, LenPrefixed(IF n = 0 THEN SubSeq(us, 1, Min2(1, Len(us))) ELSE us, n, H(r, 39), s.m),
                     << sum, own, n >>)
       [] w = "findx" -> Event("findx", st, LenPrefixed(Row1(r, s, store), 4, H(r, 39), s.m), <<>>)
       [] w \in {"rawfind", "rawfindx"} ->
            Event(IF w = "rawfind" THEN "find" ELSE "findx", st, Zeroish(H(r, 43), Below(r, 44, 40)), <<>>)
       [] w = "rawunescape" -> Event("unescape", st, Zeroish(H(r, 43), Below(r, 44, 40)), <<>>)
       [] w = "rawstream" -> Event("stream", st, Zeroish(H(r, 43), Below(r, 44, 60)), << sum, own >>)
       [] w = "rawlen" -> LET n == 1 + Below(r, 45, 4) IN
            Event("lenstream", st, [k \in 1..Below(r, 44, 40) |-> Of(r, 2000 + k, << 0, 0, 0, 1, 2, 3, 4, 5, 255 >>)], << sum, own, n >>)
       [] w = "rawnalu" -> Event("nalu", st, UnitHead(Below(r, 46, 64), r) \o RndBytes(H(r, 43), Below(r, 44, 40)), << sum >>)
       [] w = "escaped" -> Event("unescape", st, Escape(One(r, s, store)), <<>>)
       [] w = "rtp" ->
            LET c == Below(r, 47, 4)
                us == Row1(r, s, store)
                e == OneE(r, s, store)
            IN IF c = 0 THEN Event("rtp", st, ApPacket(us, H(r, 39), s.m), << Of(r, 48, <<0, 0, 1>>) >>)
               ELSE IF c = 1 /\ Len(e) >= 2 THEN Event("rtp", st, FuPacket(e, H(r, 39)), <<0>>)
               ELSE IF c = 2 /\ Chance(r, 49, 3) THEN Event("rtp", st, UnitHead(48 + Below(r, 56, 16), r) \o RndBytes(H(r, 43), Below(r, 44, 20)), << Below(r, 48, 2) >>)
               ELSE Event("rtp", st, IF Chance(r, 48, 4) THEN One(r, s, store) ELSE e, << IF Chance(r, 48, 4) THEN 1 ELSE 0 >>)
       [] w = "rtpsingle" -> LET v == Below(r, 48, 2) IN
            Event("rtpsingle", st, IF v = 0 THEN OneE(r, s, store) ELSE One(r, s, store), << v >>)
       [] w = "rtpap" -> Event("rtpap", st, ApPacket(Row1(r, s, store), H(r, 39), s.m), << Below(r, 48, 2) >>)
       [] w = "rtpfu" -> LET v == Below(r, 48, 2)
                             e == IF v = 0 THEN OneE(r, s, store) ELSE One(r, s, store)
                         IN Event("rtpfu", st, IF Len(e) < 2 THEN e ELSE FuPacket(e, H(r, 39)), << v >>)
       [] w = "hvcc" -> Event("hvcc", st, BoxBytes(Row1(r, s, store), H(r, 39), s.m), << sum, Below(r, 48, 2) >>)
       [] w = "dump" ->  \* n < 0: a stream of all the kinds in turn
            LET what == IF s.n < 0 THEN 0 ELSE Below(r, 48, 5)
                a == << what, IF Chance(r, 57, 2) THEN 0 ELSE -1, Below(r, 58, 32) >>
            IN (CASE what \in {0, 4} -> Event("dump", st, AnnexB(Row1(r, s, store), H(r, 39), s.m), a)
                 [] what = 1 -> Event("dump", st, OneE(r, s, store), a)
                 [] what = 2 -> LET e == OneE(r, s, store) IN
                      Event("dump", st, (CASE Below(r, 47, 3) = 0 -> ApPacket(Row1(r, s, store), H(r, 39), s.m)
                                          [] Below(r, 47, 3) = 1 /\ Len(e) >= 2 -> FuPacket(e, H(r, 39))
                                          [] OTHER -> e), a)
                 [] what = 3 -> Event("dump", st, BoxBytes(Row1(r, s, store), H(r, 39), s.m), a))
       [] w = "cli" ->
            LET box == Chance(r, 49, 3)
                bx  == BoxBytes(UnitRow(<< "vps", "sps", "sps", "pps", "pps" >>, 5, EmptyStore, H(r, 50), IF Chance(r, 51, 4) THEN 2 ELSE 0), H(r, 52), 0)
                st0 == IF box THEN Box(bx, EmptyStore, FALSE).store ELSE EmptyStore
                us  == UnitRow(s.k, Len(s.k), st0, H(r, 31), s.m)
                n   == Of(r, 42, << -1, -1, -1, -1, 1, 2, 3, 4, 4, 8, 0 >>)
                ok  == SelectSeq(us, LAMBDA x : n # 1 \/ Len(x) < 256)
                d   == IF n < 0 THEN AnnexB(us, H(r, 39), s.m)
                       ELSE IF n = 0 THEN LenPrefixed(SubSeq(ok, 1, Min2(1, Len(ok))), 0, H(r, 39), s.m)
                       ELSE LenPrefixed(ok, n, H(r, 39), s.m)
                in  == IF d = <<>> THEN << 21 >>
                       ELSE Of(r, 53, << <<21>>, <<21>>, << 25 + Below(r, 57, 3) >>, <<21>>, <<21>>, <<22>>, <<22>>, IF box THEN <<>> ELSE <<21>>, <<24>>, <<24, 21>> >>)
                rnd == [k \in 1..Below(r, 54, 7) |-> Of(r, 2100 + k, << 1, 2, 2, 3, 4, 5, 5, 6, 7, 7, 8, 9, 9, 10, 11, 11, 12, 13, 13, 14, 15, 15, 16,
                            18, 19, 20, 1001, 1024, 1060, 1240, 1000, 61000, 90000 + (H(r, 2200) % 1000000), 2147483647, 1000000000 + (H(r, 2201) % 1000000000) >>)]
                bad == IF Chance(r, 55, 25) THEN << Of(r, 56, << 98, 90, 91, 92, 93, 999, 950, 951, 952, 953 >>) >> ELSE <<>>
                os  == in \o (IF n >= 0 THEN << 100 + n >> ELSE IF Chance(r, 58, 6) THEN << 104, 99 >> ELSE <<>>)
                          \o (IF box THEN <<23>> ELSE <<>>) \o rnd \o bad \o (IF Chance(r, 59, 6) THEN <<17>> ELSE <<>>)
            IN Event("cli", st, d, << Len(os) >> \o os \o (IF box THEN bx ELSE <<>>))
       [] w = "get" -> Event("get", st, <<>>, << Below(r, 48, 3), Of(r, 49, << 0, 0, 1, 2, 15, 63, 255, -1 >>) >>)
       [] w = "strps" -> StEvent(st, r, s.m)
       [] w = "strps0" -> LET e == StEvent(st, r, s.m) IN
            Event("strps0", st, Coded(e.b, r), << e.a[2], e.a[3] >>)
       [] w = "bits" -> BitsEvent(st, r)
       [] w = "wbits" -> WBitsEvent(st, r)
       [] w = "sei" -> LET b == MaybeMutate(SeiBytes(H(r, 33), s.m), H(r, 36), s.m)
                           v == Below(r, 48, 2)
                       IN Event("sei", st, IF v = 0 THEN Coded(b, r) ELSE b, << v >>)
       [] w = "nutype" -> (LET b == OneE(r, s, store) IN Event("nutype", st, SubSeq(b, 1, Min2(Len(b), Below(r, 48, 6))), <<>>))
       [] w = "struct" -> StructEvent(Of(r, 32, s.k), st, store, r, s.m)
=============================================================================
