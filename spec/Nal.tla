--------------------------------- MODULE Nal ---------------------------------
(* NAL units: header, dispatch by type, checksum; the containers they come in *)
(* (byte stream, length prefixes, RTP payloads, the hvcC box); the parameter  *)
(* set store they feed; and the values derived from them (slice QP).          *)
(*                                                                            *)
(* A store is [vps, sps, pps], each a function from ids to parsed sets.  An   *)
(* operator that models an entry point returns a record with at least         *)
(*   obs    what the caller sees,                                             *)
(*   store  the store afterwards,                                             *)
(*   pl     for each NAL unit seen, the number of its (unescaped) bytes that  *)
(*          have been consumed; -1 - n: unspecified, but in 0..n.             *)
EXTENDS Syntax

NoSets == [x \in {} |-> 0]
EmptyStore == [vps |-> NoSets, sps |-> NoSets, pps |-> NoSets]
PutSet(f, id, v) == (id :> v) @@ f

(* --------------------------------------------- Table 7-1: types and names *)
NutNames ==
  << "trail_n", "trail_r", "tsa_n", "tsa_r", "stsa_n", "stsa_r", "radl_n", "radl_r",
     "rasl_n", "rasl_r", "rsv_vcl_n10", "rsv_vcl_r11", "rsv_vcl_n12", "rsv_vcl_r13",
     "rsv_vcl_n14", "rsv_vcl_r15", "bla_w_lp", "bla_w_radl", "bla_n_lp", "idr_w_radl",
     "idr_n_lp", "cra", "rsv_irap_vcl22", "rsv_irap_vcl23", "rsv_vcl24", "rsv_vcl25",
     "rsv_vcl26", "rsv_vcl27", "rsv_vcl28", "rsv_vcl29", "rsv_vcl30", "rsv_vcl31",
     "vps", "sps", "pps", "aud", "eos", "eob", "fd", "prefix_sei", "suffix_sei",
     "rsv_nvcl41", "rsv_nvcl42", "rsv_nvcl43", "rsv_nvcl44", "rsv_nvcl45", "rsv_nvcl46",
     "rsv_nvcl47", "ap", "fu", "unspec50", "unspec51", "unspec52", "unspec53",
     "unspec54", "unspec55", "unspec56", "unspec57", "unspec58", "unspec59",
     "unspec60", "unspec61", "unspec62", "unspec63" >>
NutName(t) == IF t \in 0..63 THEN NutNames[t + 1] ELSE "unknown"
IsSliceType(t)  == t \in 0..9 \/ t \in 16..21
IsVclType(t)    == t \in 0..31
IsNonVclType(t) == t \in 32..63
IsUnspecType(t) == t \in 48..63
KindOf(t) == IF IsSliceType(t) THEN "slice"
             ELSE CASE t = 32 -> "vps" [] t = 33 -> "sps" [] t = 34 -> "pps"
                    [] t = 35 -> "aud" [] t \in {39, 40} -> "sei" [] OTHER -> "none"

(* --------------------------------------------------- 7.3.1.2 unit header *)
HdrD == [forbidden_zero_bit |-> 0, nal_unit_type |-> 0, nuh_layer_id |-> 0,
         nuh_temporal_id_plus1 |-> 0]
HdrG(s) == s ++ u("forbidden_zero_bit", 1) ++ u("nal_unit_type", 6)
             ++ u("nuh_layer_id", 6) ++ u("nuh_temporal_id_plus1", 3)
HdrAt(d) == LET t == HdrG(ParseState(d, 0, HdrD)) IN IF t.ok THEN << t.f >> ELSE <<>>

(* -------------------------------------------------------------- checksum *)
HexDigits == << "0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f" >>
Hex2(b) == HexDigits[(b \div 16) + 1] \o HexDigits[(b % 16) + 1]
Hex4(w) == Hex2(w \div 256) \o Hex2(w % 256)
(* one's complement of the end-around-carry sum of the big-endian 32-bit      *)
(* words, in 16-bit halves: 2^32 = 1 modulo 2^32 - 1                          *)
Byte0(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
Checksum(d) ==
  LET m  == (Len(d) + 3) \div 4
      Hi(k) == Byte0(d, 4*k-3) * 256 + Byte0(d, 4*k-2)
      Lo(k) == Byte0(d, 4*k-1) * 256 + Byte0(d, 4*k)
      hi == FoldLeft(LAMBDA a, k : a + Hi(k), 0, Iota(m))
      lo == FoldLeft(LAMBDA a, k : a + Lo(k), 0, Iota(m))
      RECURSIVE Norm(_)
      Norm(p) == IF p[1] < 65536 /\ p[2] < 65536 THEN p
                 ELSE Norm(<< (p[1] % 65536) + (p[2] \div 65536),
                              (p[2] % 65536) + (p[1] \div 65536) >>)
      r  == Norm(<< hi, lo >>)
  IN Hex4(65535 - r[1]) \o Hex4(65535 - r[2])

(* ------------------------------------------------------ payload dispatch *)
PayD == [vps |-> <<>>, sps |-> <<>>, spsd |-> <<>>, pps |-> <<>>, aud |-> <<>>,
         sei |-> <<>>, slice |-> <<>>, odd |-> 0]
(* the payload of type t at bit p of d                                        *)
PayloadAt(d, p, t, store) ==
  LET none(st) == [pay |-> PayD, store |-> store, pl |-> st] IN
  CASE t = 32 -> LET s == VpsG(ParseState(d, p, VpsD)) IN
         IF s.ok THEN [pay |-> [PayD EXCEPT !.vps = << s.f >>], pl |-> Consumed(s),
                       store |-> [store EXCEPT !.vps = PutSet(@, s.f.vps_video_parameter_set_id, s.f)]]
         ELSE none(-1)
    [] t = 33 -> LET s == SpsG(ParseState(d, p, SpsD)) IN
         IF s.ok THEN [pay |-> [PayD EXCEPT !.sps = << s.f >>, !.spsd = << SpsDerived(s.f) >>],
                       pl |-> Consumed(s),
                       store |-> [store EXCEPT !.sps = PutSet(@, s.f.sps_seq_parameter_set_id, s.f)]]
         ELSE none(-1)
    [] t = 34 -> LET s == PpsG(ParseState(d, p, PpsD)) IN
         IF s.ok THEN [pay |-> [PayD EXCEPT !.pps = << s.f >>], pl |-> Consumed(s),
                       store |-> [store EXCEPT !.pps = PutSet(@, s.f.pps_pic_parameter_set_id, s.f)]]
         ELSE none(-1)
    [] t = 35 -> LET s == AudG(ParseState(d, p, AudD)) IN
         IF s.ok THEN [pay |-> [PayD EXCEPT !.aud = << s.f >>], pl |-> Consumed(s), store |-> store]
         ELSE none(-1)
    [] t \in {39, 40} -> LET s == SeiParse(ParseState(d, p, SeiD)) IN
         IF s.ok THEN [pay |-> [PayD EXCEPT !.sei = << s.f >>], store |-> store,
                       pl |-> IF s.f.payload_state = <<>> THEN -1 ELSE Consumed(s)]
         ELSE none(-1)
    [] IsSliceType(t) -> LET s == SliceG(ParseState(d, p, SliceD), t, store.pps, store.sps) IN
         IF s.ok THEN [pay |-> [PayD EXCEPT !.slice = << s.f >>], pl |-> Consumed(s), store |-> store]
         ELSE none(-1)
    [] OTHER -> none((p + 7) \div 8)

(* ------------------------------------------------------------- NAL units *)
(* an unescaped unit; obs: <<>> or << unit >>                                  *)
NalU(d, store, sum) ==
  LET h == HdrAt(d)
  IN IF h = <<>> THEN [obs |-> <<>>, store |-> store, pl |-> <<>>]
     ELSE LET r == PayloadAt(d, 16, h[1].nal_unit_type, store)
          IN [obs |-> << [offset |-> 0, length |-> 0,
                          checksum |-> IF sum THEN Checksum(d) ELSE "",
                          hdr |-> h[1], pay |-> r.pay] >>,
              store |-> r.store, pl |-> << IF r.pl < 0 THEN -1 - Len(d) ELSE r.pl >>]
Nalu(e, store, sum) == NalU(Unescape(e), store, sum)
WithPlace(us, off, len) == [i \in 1..Len(us) |-> [us[i] EXCEPT !.offset = off, !.length = len]]

(* -------------------------------------------- Annex B byte stream format *)
(* positions here are 0-based; units: << start, payload, size >>              *)
StartCodeAt(d, i) == d[i + 1] = 0 /\ d[i + 2] = 0 /\ d[i + 3] = 1
StartCodes(d) == SelectSeq([k \in 1..Max2(0, Len(d) - 3) |-> k - 1],
                           LAMBDA i : StartCodeAt(d, i))
FindUnits(d) ==
  LET c == StartCodes(d)
      begin(k) == IF c[k] > 0 /\ d[c[k]] = 0 THEN c[k] - 1 ELSE c[k]
      stop(k)  == IF k < Len(c) THEN begin(k + 1) ELSE Len(d)
  IN [k \in 1..Len(c) |-> << begin(k), c[k] + 3, stop(k) - (c[k] + 3) >>]
(* 4-byte prefixes; a prefix of 2^31 or more never fits                       *)
PrefixVal(d, i, n) ==    \* big-endian n bytes from 0-based i, -1 when huge
  FoldLeft(LAMBDA a, k : IF a < 0 \/ a > 8388607 THEN -1 ELSE a * 256 + d[i + k], 0, Iota(n))
(* << prefix, payload, size >> of the units that are there entirely; a prefix  *)
(* that is no length of what follows ends the list (when empty: whether a      *)
(* length of 0 is one)                                                         *)
PrefixedUnits(d, n, empty) ==
  FoldLeft(LAMBDA a, k :
     IF a.end \/ a.i >= Len(d) \/ a.i + n > Len(d) THEN a
     ELSE LET z == PrefixVal(d, a.i, n)
          IN IF z < 0 \/ z > Len(d) - a.i - n \/ (z = 0 /\ ~empty) THEN [a EXCEPT !.end = TRUE]
             ELSE [i |-> a.i + n + z, end |-> FALSE, q |-> Append(a.q, << a.i, a.i + n, z >>)],
     [i |-> 0, end |-> FALSE, q |-> <<>>], Iota(Len(d) \div n)).q
FindUnitsX(d) == PrefixedUnits(d, 4, TRUE)
(* length-prefixed data: << payload, size >>                                   *)
LenUnits(d, n) == IF n = 0 THEN (IF Len(d) = 0 THEN <<>> ELSE << << 0, Len(d) >> >>)
                  ELSE LET q == PrefixedUnits(d, n, FALSE) IN [k \in 1..Len(q) |-> << q[k][2], q[k][3] >>]

Sub0(d, off, size) == SubSeq(d, off + 1, off + size)
(* a sequence of units at << payload, size >> of d                             *)
Units(d, places, store, sum) ==
  FoldLeft(LAMBDA a, q :
     LET r == Nalu(Sub0(d, q[1], q[2]), a.store, sum)
     IN [obs |-> a.obs \o WithPlace(r.obs, q[1], q[2]), store |-> r.store, pl |-> a.pl \o r.pl],
     [obs |-> <<>>, store |-> store, pl |-> <<>>], places)
Stream(d, store, sum) ==
  LET f == FindUnits(d) IN Units(d, [k \in 1..Len(f) |-> << f[k][2], f[k][3] >>], store, sum)
LenStream(d, n, store, sum) == Units(d, LenUnits(d, n), store, sum)

(* ------------------------------------------------------------ slice QP --- *)
(* values outside the int32 range are not reported                            *)
AddFits(a, b) == IF a >= 0 THEN b <= 2147483647 - a ELSE b >= MinInt - a
QpOf(init, delta) ==    \* << value >> or <<>>
  IF delta >= 0
  THEN IF AddFits(init, delta) /\ AddFits(init + delta, 26) THEN << init + delta + 26 >>
       ELSE IF init < 0 /\ AddFits(init + 26, delta) THEN << (init + 26) + delta >> ELSE <<>>
  ELSE IF AddFits(init, 26) THEN (IF AddFits(init + 26, delta) THEN << (init + 26) + delta >> ELSE <<>>)
       ELSE IF AddFits(init + delta, 26) THEN << (init + delta) + 26 >> ELSE <<>>
SliceQp(pay, t, store) ==
  IF ~IsSliceType(t) \/ pay.slice = <<>> THEN <<>>
  ELSE LET id == pay.slice[1].slice_pic_parameter_set_id
       IN IF id \notin DOMAIN store.pps THEN <<>>
          ELSE QpOf(store.pps[id].init_qp_minus26, pay.slice[1].slice_qp_delta)
QpList(d, store) ==
  LET f == FindUnits(d)
  IN FoldLeft(LAMBDA a, q :
       LET r == Nalu(Sub0(d, q[2], q[3]), a.store, FALSE)
       IN IF r.obs = <<>> THEN a
          ELSE [obs |-> a.obs \o SliceQp(r.obs[1].pay, r.obs[1].hdr.nal_unit_type, r.store),
                store |-> r.store, pl |-> <<>>],
       [obs |-> <<>>, store |-> store, pl |-> <<>>], f)

(* ------------------------------------------------------ RTP (RFC 7798) --- *)
RtpD == [hdr |-> <<>>, single |-> <<>>, ap |-> <<>>, fu |-> <<>>]
Nothing(store) == [obs |-> <<>>, store |-> store, pl |-> <<>>]
(* unescaped data *)
RtpSingle(d, store) ==
  LET h == HdrAt(d)
  IN IF h = <<>> THEN Nothing(store)
     ELSE LET r == PayloadAt(d, 16, h[1].nal_unit_type, store)
          IN [obs |-> << [hdr |-> h[1], pay |-> r.pay] >>, store |-> r.store, pl |-> <<>>]
(* the packet as received: units with 16-bit lengths to the end                *)
RtpAp(e, store) ==
  LET h == HdrAt(e)
      r == FoldLeft(LAMBDA a, k :
             IF ~a.ok \/ a.i >= Len(e) THEN a
             ELSE LET z == IF a.i + 2 > Len(e) THEN Len(e) ELSE e[a.i + 1] * 256 + e[a.i + 2]
                  IN IF z > Len(e) - a.i - 2 THEN [a EXCEPT !.ok = FALSE]
                     ELSE LET n == Unescape(Sub0(e, a.i + 2, z))
                              uh == HdrAt(n)
                          IN IF uh = <<>> THEN [a EXCEPT !.ok = FALSE]
                             ELSE LET y == PayloadAt(n, 16, uh[1].nal_unit_type, a.store)
                                  IN [ok |-> TRUE, i |-> a.i + 2 + z, store |-> y.store,
                                      q |-> Append(a.q, [size |-> z, hdr |-> uh[1], pay |-> y.pay])],
             [ok |-> TRUE, i |-> 2, q |-> <<>>, store |-> store], Iota(Len(e) \div 2))
  IN IF h = <<>> THEN Nothing(store)
     ELSE IF r.ok THEN [obs |-> << [hdr |-> h[1], units |-> r.q] >>, store |-> r.store, pl |-> <<>>]
     ELSE Nothing(r.store)
(* unescaped data *)
RtpFu(d, store) ==
  LET h == HdrAt(d)
  IN IF Len(d) < 3 THEN Nothing(store)
     ELSE LET b == d[3]
              t == b % 64
              base == [hdr |-> h[1], s_bit |-> b \div 128, e_bit |-> (b \div 64) % 2,
                       fu_type |-> t, pay |-> <<>>]
          IN IF base.s_bit = 0 THEN [obs |-> << base >>, store |-> store, pl |-> <<>>]
             ELSE LET r == PayloadAt(d, 24, t, store)
                  IN [obs |-> << [base EXCEPT !.pay = << r.pay >>] >>, store |-> r.store, pl |-> <<>>]
(* d: the data for single units and fragments, e: for aggregates              *)
RtpOver(d, e, store) ==
  LET h == HdrAt(d)
  IN IF h = <<>> THEN Nothing(store)
     ELSE LET t == h[1].nal_unit_type
              r == IF t <= 47 THEN RtpSingle(d, store)
                   ELSE IF t = 48 THEN RtpAp(e, store)
                   ELSE IF t = 49 THEN RtpFu(d, store)
                   ELSE [obs |-> << 0 >>, store |-> store, pl |-> <<>>]
              base == [RtpD EXCEPT !.hdr = h]
          IN IF r.obs = <<>> THEN Nothing(r.store)
             ELSE [obs |-> << IF t <= 47 THEN [base EXCEPT !.single = r.obs]
                              ELSE IF t = 48 THEN [base EXCEPT !.ap = r.obs]
                              ELSE IF t = 49 THEN [base EXCEPT !.fu = r.obs] ELSE base >>,
                   store |-> r.store, pl |-> <<>>]
(* DEVIATION: which reading applies is decided on the header as received; the *)
(* header itself can only contain an emulation prevention byte in its second  *)
(* byte's place when the packet starts with two zero bytes, which it cannot   *)
Rtp(e, store) ==
  LET h == HdrAt(e)
  IN IF h # <<>> /\ h[1].nal_unit_type = 48 THEN RtpOver(e, e, store)
     ELSE LET d == Unescape(e) IN RtpOver(d, d, store)
RtpQp(obs, store) ==    \* obs of Rtp, not empty
  LET o == obs[1]
      t == o.hdr[1].nal_unit_type
  IN IF t <= 47 THEN SliceQp(o.single[1].pay, o.single[1].hdr.nal_unit_type, store)
     ELSE IF t = 48
     THEN LET us == o.ap[1].units IN
          IF us = <<>> THEN <<>>
          ELSE SliceQp(us[Len(us)].pay, us[Len(us)].hdr.nal_unit_type, store)
     ELSE IF t = 49
     THEN IF o.fu[1].s_bit = 0 THEN <<>> ELSE SliceQp(o.fu[1].pay[1], o.fu[1].fu_type, store)
     ELSE <<>>

(* ------------------------------ ISO/IEC 14496-15 configuration record --- *)
BoxD ==
  [configurationVersion |-> 0, general_profile_space |-> 0, general_tier_flag |-> 0,
   general_profile_idc |-> 0, general_profile_compatibility_flags |-> [i \in 1..32 |-> 0],
   general_constraint_indicator_flags |-> <<0, 0>>, general_level_idc |-> 0,
   reserved1 |-> 0, min_spatial_segmentation_idc |-> 0, reserved2 |-> 0,
   parallelismType |-> 0, reserved3 |-> 0, chroma_format_idc |-> 0, reserved4 |-> 0,
   bit_depth_luma_minus8 |-> 0, reserved5 |-> 0, bit_depth_chroma_minus8 |-> 0,
   avgFrameRate |-> 0, constantFrameRate |-> 0, numTemporalLayers |-> 0,
   temporalIdNested |-> 0, lengthSizeMinusOne |-> 0, numOfArrays |-> 0,
   array_completeness |-> <<>>, reserved6 |-> <<>>, NAL_unit_type |-> <<>>,
   numNalus |-> <<>>, nalUnitLength |-> <<>>, nalUnit |-> <<>>]
BoxHeadG(s0) ==
  Row(s0 ++ ufix("configurationVersion", 8, 1) ++ u("general_profile_space", 2)
         ++ u("general_tier_flag", 1) ++ u("general_profile_idc", 5),
      "general_profile_compatibility_flags", 32, 1)
    ++ uw("general_constraint_indicator_flags", 48) ++ u("general_level_idc", 8)
    ++ ufix("reserved1", 4, 15) ++ u("min_spatial_segmentation_idc", 12)
    ++ ufix("reserved2", 6, 63) ++ u("parallelismType", 2)
    ++ ufix("reserved3", 6, 63) ++ u("chroma_format_idc", 2)
    ++ ufix("reserved4", 5, 31) ++ u("bit_depth_luma_minus8", 3)
    ++ ufix("reserved5", 5, 31) ++ u("bit_depth_chroma_minus8", 3)
    ++ u("avgFrameRate", 16) ++ u("constantFrameRate", 2) ++ u("numTemporalLayers", 3)
    ++ u("temporalIdNested", 1) ++ u("lengthSizeMinusOne", 2)
BoxArrayHeadG(s) ==
  s ++ ul("array_completeness", 1) ++ [ufix("reserved6", 1, 0) EXCEPT !.a = TRUE]
    ++ ul("NAL_unit_type", 6) ++ ul("numNalus", 16)
(* parse: the store is threaded through the units; w = [s, store]              *)
BoxUnit(w, sum) ==
  LET s1 == w.s ++ u("", 16)
      z  == s1.x
  IN IF ~s1.ok \/ s1.p + 8 * z > s1.n THEN [w EXCEPT !.s = Fail(s1)]
     ELSE LET r == Nalu(Sub0(s1.d, s1.p \div 8, z), w.store, sum)
          IN [s |-> [s1 EXCEPT !.p = @ + 8 * z,
                       !.f = [@ EXCEPT
                         !.nalUnitLength = [@ EXCEPT ![Len(@)] = Append(@, z)],
                         !.nalUnit = [@ EXCEPT ![Len(@)] = Append(@, r.obs)]]],
              store |-> r.store]
BoxUnits(w, n, sum) == FoldLeft(LAMBDA a, k : IF a.s.ok THEN BoxUnit(a, sum) ELSE a, w, Iota(n))
BoxArray(w, sum) ==
  LET s1 == BoxArrayHeadG(w.s)
      s2 == IF s1.ok THEN [s1 EXCEPT !.f = [@ EXCEPT !.nalUnitLength = Append(@, <<>>),
                                                     !.nalUnit = Append(@, <<>>)]] ELSE s1
  IN IF ~s2.ok THEN [w EXCEPT !.s = s2]
     ELSE BoxUnits([s |-> s2, store |-> w.store], s2.x, sum)
BoxArrays(w, n, sum) == FoldLeft(LAMBDA a, k : IF a.s.ok THEN BoxArray(a, sum) ELSE a, w, Iota(n))
Box(d, store, sum) ==
  LET s1 == BoxHeadG(ParseState(d, 0, BoxD)) ++ u("numOfArrays", 8)
  IN IF ~s1.ok THEN Nothing(store)
     ELSE LET w == BoxArrays([s |-> s1, store |-> store], s1.x, sum)
          IN IF w.s.ok THEN [obs |-> << w.s.f >>, store |-> w.store, pl |-> <<>>]
             ELSE Nothing(w.store)
=============================================================================
