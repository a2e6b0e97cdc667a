---------------------------------- MODULE Laws ----------------------------------
(* What the properties say, checked on the specification itself: a law is a   *)
(* statement about the operators of the specification that does not repeat    *)
(* their definition (an inverse, a partition, an agreement of two ways to the *)
(* same end, a bound), and TLC checks it for every member of a bounded family *)
(* - all strings up to a length, all histories of an alphabet of units, or    *)
(* the structures a number of seeds produce.  Numbers k = 0, 1, ... name the   *)
(* members; Cfg.laws is a sequence of [law, first, count].                     *)
EXTENDS Enum

VARIABLES law, part, at     \* part of the family, next member (-1: not begun)
lvars == << law, part, at >>

Concat(q) == Flatten(q)
Letters(s, q) == [i \in 1..Len(s) |-> q[s[i] + 1]]

(* ------------------------------------------------------------------ C01 ---- *)
\* the units tile what follows the first start code, every start code begins
\* one, and no unit holds one
TileLaw(k) ==
  LET b == Str(k, 3)
      f == FindUnits(b)
      code(i) == i + 4 <= Len(b) /\ b[i + 1] = 0 /\ b[i + 2] = 0 /\ b[i + 3] = 1
  IN /\ \A j \in 1..Len(f) :
          LET beg == f[j][1]
              pay == f[j][2]
              size == f[j][3]
          IN /\ pay - beg \in {3, 4} /\ size >= 0 /\ beg >= 0 /\ pay + size <= Len(b)
             /\ SubSeq(b, beg + 1, pay) = (IF pay - beg = 3 THEN << 0, 0, 1 >> ELSE << 0, 0, 0, 1 >>)
             /\ pay - beg = 3 => (beg = 0 \/ b[beg] # 0)
             /\ pay + size = (IF j = Len(f) THEN Len(b) ELSE f[j + 1][1])
             /\ \A i \in pay..(pay + size - 4) : ~code(i)
     /\ { f[j][2] - 3 : j \in 1..Len(f) } = { i \in 0..Len(b) : code(i) }
\* units come back from a stream whatever start codes precede them
LawUnits == << << 2, 1, 9 >>, << 70, 1, 80 >>, << 64, 1, 0, 0, 3, 1, 128 >>, << 7 >>, << 1, 0, 0, 2 >> >>
BackLaw(k) ==
  LET us == Letters(Str(k \div 8, 5), LawUnits)
      sc(j) == IF ((k \div Pow2((j - 1) % 3)) % 2) = 0 THEN << 0, 0, 1 >> ELSE << 0, 0, 0, 1 >>
      d == Concat([j \in 1..Len(us) |-> sc(j) \o us[j]])
      f == FindUnits(d)
  IN [j \in 1..Len(f) |-> Sub0(d, f[j][2], f[j][3])] = us

(* ------------------------------------------------------------------ C02 ---- *)
LenLaw(k) ==
  LET n == 1 + (k % 4)
      b == Letters(Str(k \div 4, 4), << 0, 1, 2, 255 >>)
      q == LenUnits(b, n)
      stop == IF q = <<>> THEN 0 ELSE q[Len(q)][1] + q[Len(q)][2]
  IN /\ \A j \in 1..Len(q) :
          /\ q[j][1] = n + (IF j = 1 THEN 0 ELSE q[j - 1][1] + q[j - 1][2])
          /\ q[j][2] > 0 /\ q[j][1] + q[j][2] <= Len(b)
          /\ BytesOf(q[j][2], n) = SubSeq(b, q[j][1] - n + 1, q[j][1])
     \* what is left holds no further unit
     /\ (stop + n > Len(b) \/ PrefixVal(b, stop, n) \notin 1..(Len(b) - stop - n))
LenBackLaw(k) ==
  LET n == 1 + (k % 4)
      us == Letters(Str(k \div 16, 5), LawUnits)
      d == PrefixedBy(us, n)
      c == Cut(d, Max2(0, Len(d) - ((k \div 4) % 4)))
      q == LenUnits(c, n)
      got == [j \in 1..Len(q) |-> Sub0(c, q[j][1], q[j][2])]
  IN IF Len(c) = Len(d) THEN got = us ELSE got = SubSeq(us, 1, Len(got)) /\ Len(got) < Len(us)

(* ------------------------------------------------------------------ C03 ---- *)
EscLaw(k) ==
  LET b == Letters(Str(k, 5), << 0, 3, 1, 2, 255 >>)
      e == Escape(b)
      u0 == Unescape(b)
  IN /\ Unescape(e) = b
     /\ \A i \in 3..Len(e) : ~(e[i - 2] = 0 /\ e[i - 1] = 0 /\ e[i] \in {0, 1, 2})
     /\ Len(u0) <= Len(b)
     /\ (\A i \in 3..Len(b) : ~IsEPB(b, i)) => u0 = b
     /\ \A i \in 1..Len(b) : b[i] # 0 => u0 = Unescape(Cut(b, i)) \o Unescape(SubSeq(b, i + 1, Len(b)))

(* ------------------------------------------------------------------ C04 ---- *)
LawWords == << 0, 1, 2, 3, 4, 6, 7, 8, 254, 255, 256, 65534, 65535, 65536, 16777215, 1073741823, 1073741824,
            2147483646, 2147483647, MinInt, MinInt + 1, -3, -2, -1 >>
WordAt(k) == IF k < Len(LawWords) THEN LawWords[k + 1] ELSE k - Len(LawWords)
BitLaw(k) ==
  LET v == WordAt(k)
      off == k % 9
      pad == [i \in 1..off |-> (i * k) % 2]
      junk == << 1, 0, 1, 1, 0 >>
      At(bs) == BitsToBytes(pad \o bs \o junk)
      uev == UEBits(v)
      n == off + Len(uev)
      d == At(uev)
      w == 1 + (k % 32)
      num == IF v \in {0, MinInt} THEN 7 ELSE v
      x == IF ULT(k, num) THEN k ELSE 0
      ns == NsBits(x, num)
      r == ReadOp(At(ns), off, << 5, num >>)
  IN /\ v # -1 => (ReadUE(d, off, NBits(d)) = << TRUE, v, Len(uev) >> /\ ~ReadUE(d, off, n - 1)[1])
     /\ v # MinInt => SEOf(UOfSE(v)) = v
     /\ v # -1 => UOfSE(SEOf(v)) = v
     /\ LET bs == TokBits(v, w) IN TokBits(ReadU(At(bs), off, w), w) = bs
     /\ w = 32 => ReadU(At(TokBits(v, 32)), off, 32) = v
     /\ num > 0 => (r.ok /\ r.v = << 0, x >> /\ r.p = off + Len(ns))
     /\ BytesToBits(BitsToBytes(uev)) = uev \o [i \in 1..((8 - (Len(uev) % 8)) % 8) |-> 0]

(* ------------------------------------- C05, C06, C17, C18, C19, C25: channels *)
\* the same units by any channel leave the same sets
HistAt(k) == Letters(Digits(k % (HistK * HistK * HistK), HistK, 3), HistAlphabet)
KeptOf(us) == FoldLeft(LAMBDA a, j : Nalu(us[j], a, FALSE).store, EmptyStore, Iota(Len(us)))
Pays(o) == [j \in 1..Len(o) |-> << o[j].hdr, o[j].pay >>]
ChannelLaw(k) ==
  LET us == HistStart[1 + (k % 3)] \o HistAt(k) \o << HSliceA, HSliceB, HSliceC >>
      s == KeptOf(us)
      a == Stream(Annexb(us), EmptyStore, FALSE)
      l == LenStream(PrefixedBy(us, 2), 2, EmptyStore, FALSE)
      p == Rtp(ApOf(us), EmptyStore)
      x == Box(BoxOf(<< 33, 1 >>, << Cut(us, 2), SubSeq(us, 3, Len(us)) >>), EmptyStore, FALSE)
      f == FoldLeft(LAMBDA z, j :
             LET e == us[j] IN Rtp(<< 98, 1, 128 + ((e[1] \div 2) % 64) >> \o SubSeq(e, 3, Len(e)), z).store,
             EmptyStore, Iota(Len(us)))
      one == FoldLeft(LAMBDA z, j : Rtp(us[j], z).store, EmptyStore, Iota(Len(us)))
      cutAt == 1 + (k % Len(us))
      h == Stream(Annexb(Cut(us, cutAt)), EmptyStore, FALSE)
      t == Stream(Annexb(SubSeq(us, cutAt + 1, Len(us))), h.store, FALSE)
  IN /\ a.store = s /\ l.store = s /\ p.store = s /\ x.store = s /\ f = s /\ one = s
     /\ Pays(a.obs) = Pays(l.obs)
     /\ Pays(a.obs) = [j \in 1..Len(p.obs[1].ap[1].units) |-> << p.obs[1].ap[1].units[j].hdr, p.obs[1].ap[1].units[j].pay >>]
     /\ Pays(a.obs) = Pays(Concat(x.obs[1].nalUnit[1]) \o Concat(x.obs[1].nalUnit[2]))
     /\ t.store = s /\ Pays(a.obs) = Pays(h.obs) \o Pays(t.obs)
\* one unit, whole or cut anywhere, in the state a history leaves: at most one
\* set is kept, under its own id and exactly as reported; nothing else moves; a
\* slice is only read under a picture set and its sequence set, and is the same
\* whatever other sets there are
KeepLaw(k) ==
  LET s == KeptOf(HistStart[1 + (k % 3)] \o HistAt(k \div 7))
      e == HistAlphabet[1 + (k % HistK)]
      c == Cut(e, IF k % 5 = 0 THEN Len(e) ELSE (k * 31) % (Len(e) + 1))
      r == Nalu(c, s, FALSE)
      y == r.obs[1].pay
      With(f, q, id) == IF q = <<>> THEN f ELSE PutSet(f, id, q[1])
  IN IF r.obs = <<>> THEN r.store = s /\ Len(c) < 2
     ELSE /\ r.store.vps = (IF y.vps = <<>> THEN s.vps ELSE PutSet(s.vps, y.vps[1].vps_video_parameter_set_id, y.vps[1]))
          /\ r.store.sps = (IF y.sps = <<>> THEN s.sps ELSE PutSet(s.sps, y.sps[1].sps_seq_parameter_set_id, y.sps[1]))
          /\ r.store.pps = (IF y.pps = <<>> THEN s.pps ELSE PutSet(s.pps, y.pps[1].pps_pic_parameter_set_id, y.pps[1]))
          /\ y.slice # <<>> =>
               LET pid == y.slice[1].slice_pic_parameter_set_id IN
               /\ pid \in DOMAIN s.pps
               /\ LET sid == s.pps[pid].pps_seq_parameter_set_id IN
                  /\ sid \in DOMAIN s.sps
                  /\ LET only == [vps |-> NoSets, sps |-> sid :> s.sps[sid], pps |-> pid :> s.pps[pid]]
                     IN Nalu(c, only, FALSE).obs = r.obs

(* ------------------------------------------------- C07 .. C14: the syntax ---- *)
\* what is built is read back, all of it, wherever it begins and whatever
\* follows; and not when its last bit is missing
Fixed == << "s_profinfo", "s_ptl", "s_slhrd", "s_hrd", "s_vui", "s_scaling", "s_spsrange", "s_spsml", "s_sps3d",
            "s_spsscc", "s_ppsml", "s_ppsscc", "s_pwt", "s_hdr" >>
Open == << "s_vps", "s_sps", "s_pps", "s_aud" >>        \* with data that may follow
FieldsLaw(kind, k, whole) ==
  LET r == Seed(k + 17)
      a == StructArgs(kind, r)
      g == StructG(kind, GenState(H(r, 62), 0, NoForce, StructD(kind)), a, EmptyStore)
      bs == GenBits(g)
      off == IF whole THEN k % 8 ELSE 0      \* a whole RBSP begins at a byte
      d == BitsToBytes([i \in 1..off |-> (i * k) % 2] \o bs) \o (IF whole THEN << 85, 170, 255, 0 >> ELSE <<>>)
      s == ParseState(d, off, StructD(kind))
      y == StructG(kind, s, a, EmptyStore)
      z == StructG(kind, [s EXCEPT !.n = off + Len(bs) - 1], a, EmptyStore)
  IN g.ok =>
       /\ (y.ok \/ kind = "s_sps")      \* whose sizes may be built beyond what is accepted
       /\ y.ok => y.f = g.f
       /\ (y.ok /\ whole) => (y.p = off + Len(bs) /\ (Len(bs) > 0 => ~z.ok))
SyntaxLaw(k) == FieldsLaw(Fixed[1 + (k % Len(Fixed))], k, TRUE)
OpenLaw(k) == FieldsLaw(Open[1 + (k % Len(Open))], k, FALSE)
\* a slice reads back under the sets it was built for
SliceLaw(k) ==
  LET r == Seed(k + 31)
      sp == Nalu(UnitE("sps", EmptyStore, r, 0), EmptyStore, FALSE).store
      st == Nalu(UnitE("pps", sp, H(r, 5), 0), sp, FALSE).store
      t == TypeOf("slice", r)
      g == SliceG(GenState(H(r, 62), 0, NoForce, SliceD), t, st.pps, st.sps)
      d == BitsToBytes(GenBits(g)) \o << 85, 170 >>
      y == SliceG(ParseState(d, 0, SliceD), t, st.pps, st.sps)
      z == SliceG([ParseState(d, 0, SliceD) EXCEPT !.n = Len(GenBits(g)) - 1], t, st.pps, st.sps)
  IN g.ok => (y.ok /\ y.f = g.f /\ y.p = Len(GenBits(g)) /\ ~z.ok)

(* ------------------------------------------------------------------ C12 ---- *)
\* the pictures of a set: distances grow away from the current picture, on
\* their own side, and a predicted set holds only what its source can give
Pocs(f) == Neg(PrefixSums(f.delta_poc_s0_minus1)) \o PrefixSums(f.delta_poc_s1_minus1)
RpsLaw(k) ==
  LET r == Seed(k + 3)
      mx == Of(r, 22, << 16, 4, 3 >>)
      G(q) == StRpsG(GenState(H(r, 70 + Len(q)), 0, NoForce, StRpsD), Len(q), 3, q, mx)
      Good(f) ==
        LET n0 == f.num_negative_pics
            n1 == f.num_positive_pics
            p == Pocs(f)
        IN /\ Len(p) = n0 + n1 /\ n0 = Len(f.used_by_curr_pic_s0_flag) /\ n1 = Len(f.used_by_curr_pic_s1_flag)
           /\ n0 = Len(f.delta_poc_s0_minus1) /\ n1 = Len(f.delta_poc_s1_minus1)
           /\ \A i \in 1..n0 : p[i] < (IF i = 1 THEN 0 ELSE p[i - 1])
           /\ \A i \in 1..n1 : p[n0 + i] > (IF i = 1 THEN 0 ELSE p[n0 + i - 1])
      From(f, ref) ==      \* f predicted from ref
        LET dr == (1 - 2 * f.delta_rps_sign) * (f.abs_delta_rps_minus1 + 1)
            src == Append(Pocs(ref), 0)
            kept == { i \in 1..Len(src) : f.use_delta_flag[i] = 1 /\ src[i] + dr # 0 }
            p == Pocs(f)
            use == f.used_by_curr_pic_s0_flag \o f.used_by_curr_pic_s1_flag
        IN { << p[i], use[i] >> : i \in 1..Len(p) } = { << src[i] + dr, f.used_by_curr_pic_flag[i] >> : i \in kept }
      Check(g, sets) == g.ok => /\ Good(g.f)
                                /\ g.f.inter_ref_pic_set_prediction_flag = 1 => From(g.f, sets[Len(sets)])
      q1 == G(<<>>)
      q2 == G(<< q1.f >>)
      q3 == G(<< q1.f, q2.f >>)
  IN Check(q1, <<>>) /\ (q1.ok => Check(q2, << q1.f >>)) /\ (q1.ok /\ q2.ok => Check(q3, << q1.f, q2.f >>))

(* ------------------------------------------------------------------ C15 ---- *)
SeiLaw(k) ==
  LET t == << 0, 1, 4, 5, 254, 255, 256, 509, 510, 511, 1000 >>[1 + (k % 11)]
      n == << 0, 1, 15, 16, 17, 254, 255, 256, 300 >>[1 + ((k \div 11) % 9)]
      s == SeiParse(ParseState(SeiBig(t, n), 0, SeiD))
  IN s.ok => /\ s.f.payload_type = t /\ s.f.payload_size = n

(* ------------------------------------------------------------------ C16 ---- *)
HdrLaw(k) ==
  LET b == << k \div 256, k % 256 >>
      h == HdrAt(b)[1]
  IN /\ h.forbidden_zero_bit * 128 + h.nal_unit_type * 2 + h.nuh_layer_id \div 32 = b[1]
     /\ (h.nuh_layer_id % 32) * 8 + h.nuh_temporal_id_plus1 = b[2]
     /\ HdrAt(<< b[1] >>) = <<>> /\ HdrAt(b \o << 255 >>) = HdrAt(b)
     /\ LET t == h.nal_unit_type IN
        /\ IsSliceType(t) => ~IsNonVclType(t)
        /\ IsUnspecType(t) => IsNonVclType(t)

(* ------------------------------------------------------------ C21, C22 ----- *)
QpLaw(k) ==
  LET a == (LawWords \o << 26, -26, 51, -52, 1073741798, 2147483621, 2147483622, -2147483647 >>)[1 + (k % 32)]
      b == (LawWords \o << 26, -26, 51, -52, 1073741798, 2147483621, 2147483622, -2147483647 >>)[1 + ((k \div 32) % 32)]
      q == QpOf(a, b)
      hi(v) == v \div 65536
      lo(v) == v % 65536
      \* the exact sum in two halves
      l == lo(a) + lo(b) + 26
      h == hi(a) + hi(b) + (l \div 65536)
  IN /\ q = QpOf(b, a)
     /\ (q # <<>>) = (h \in -32768..32767)
     /\ q # <<>> => (hi(q[1]) = h /\ lo(q[1]) = l % 65536)
DimLaw(k) ==
  LET f == [SpsD EXCEPT !.pic_width_in_luma_samples = 8 * (1 + (k % 97)), !.pic_height_in_luma_samples = 8 * (1 + ((k * 7) % 89)),
              !.log2_min_luma_coding_block_size_minus3 = (k \div 3) % 3, !.log2_diff_max_min_luma_coding_block_size = (k \div 9) % 3,
              !.chroma_format_idc = k % 4, !.separate_colour_plane_flag = IF k % 4 = 3 THEN (k \div 4) % 2 ELSE 0,
              !.conf_win_left_offset = k % 3, !.conf_win_right_offset = (k \div 5) % 2]
      d == SpsDerived(f)
  IN /\ d.CtbSizeY = d.MinCbSizeY * Pow2(f.log2_diff_max_min_luma_coding_block_size)
     /\ d.PicWidthInCtbsY * d.CtbSizeY >= f.pic_width_in_luma_samples
     /\ (d.PicWidthInCtbsY - 1) * d.CtbSizeY < f.pic_width_in_luma_samples
     /\ d.PicHeightInCtbsY * d.CtbSizeY >= f.pic_height_in_luma_samples
     /\ (d.PicHeightInCtbsY - 1) * d.CtbSizeY < f.pic_height_in_luma_samples
     /\ d.PicSizeInCtbsY = d.PicWidthInCtbsY * d.PicHeightInCtbsY
     /\ d.PicSizeInMinCbsY * d.MinCbSizeY * d.MinCbSizeY <= d.PicSizeInSamplesY
     /\ d.width + d.SubWidthC * (f.conf_win_left_offset + f.conf_win_right_offset) = f.pic_width_in_luma_samples
     /\ d.SubWidthC >= d.SubHeightC /\ (d.SubWidthC = 2) = (f.chroma_format_idc \in {1, 2})

(* ------------------------------------------------------------------ C23 ---- *)
\* bytes of the text of a checksum
HexVal(c) == CHOOSE i \in 0..15 : HexDigits[i + 1] = c
SumBytes(d) == LET t == Checksum(d) IN [i \in 1..4 |-> 16 * HexVal(SubSeq(t, 2 * i - 1, 2 * i - 1)) + HexVal(SubSeq(t, 2 * i, 2 * i))]
SumLaw(k) ==
  LET d == [i \in 1..(k % 23) |-> << 0, 255, 1, 128, 254 >>[1 + (H(k + 1, i) % 5)]]
      full == d \o [i \in 1..((4 - (Len(d) % 4)) % 4) |-> 0]
      w == Len(full) \div 4
      back == Concat([j \in 1..w |-> SubSeq(full, 4 * (w - j) + 1, 4 * (w - j) + 4)])
  IN /\ Checksum(full) = Checksum(d)                    \* the last word is filled with zeros
     /\ Checksum(back) = Checksum(d)                    \* the order of words does not matter
     /\ Checksum(full \o SumBytes(d)) = "00000000"      \* with it, the sum is all ones
     /\ Checksum(full \o << 255, 255, 255, 255 >>) \in {Checksum(d), "00000000"}

(* ------------------------------------------------------------------ C24 ---- *)
Count(q, x) == Cardinality({ i \in DOMAIN q : q[i] = x })
DumpLaw(k) ==
  LET us == HistStart[1 + (k % 3)] \o HistAt(k) \o << HSliceA, HSliceB, HSliceC >>
      all == { "offset", "length", "parsed", "checksum", "resolution" }
      r == Stream(Annexb(us), EmptyStore, TRUE)
      o == { z \in all : (k \div (1 + Len(z))) % 2 = 0 }
      t == DumpOf(r, 0, o)
  IN /\ Count(t, "{") = Count(t, "}")
     /\ \A i \in {1, Len(t) \div 2, Len(t)} : Count(SubSeq(t, 1, i), "{") >= Count(SubSeq(t, 1, i), "}")
     /\ Count(t, "nal_unit") = Len(r.obs)

(* --------------------------------------------------------------------------- *)
Law(p, k) ==
  CASE p = "tile" -> TileLaw(k) [] p = "back" -> BackLaw(k) [] p = "len" -> LenLaw(k) [] p = "lenback" -> LenBackLaw(k)
    [] p = "esc" -> EscLaw(k) [] p = "bits" -> BitLaw(k) [] p = "channel" -> ChannelLaw(k) [] p = "keep" -> KeepLaw(k)
    [] p = "syntax" -> SyntaxLaw(k) [] p = "open" -> OpenLaw(k) [] p = "slice" -> SliceLaw(k) [] p = "rps" -> RpsLaw(k) [] p = "sei" -> SeiLaw(k)
    [] p = "hdr" -> HdrLaw(k) [] p = "qp" -> QpLaw(k) [] p = "dim" -> DimLaw(k) [] p = "sum" -> SumLaw(k) [] p = "dump" -> DumpLaw(k)

Portion == 64
LInit == /\ \E j \in 1..Len(Cfg.laws) :
              /\ law = Cfg.laws[j].law
              /\ part \in 0..((Cfg.laws[j].count - 1) \div Portion)
         /\ at = -1
LNext == /\ at = -1
         /\ at' = 0
         /\ UNCHANGED << law, part >>
LSpec == LInit /\ [][LNext]_lvars
Size(p) == LET j == CHOOSE j \in 1..Len(Cfg.laws) : Cfg.laws[j].law = p IN Cfg.laws[j].count
LawsHold == at = 0 => \A k \in (part * Portion)..Min2(part * Portion + Portion - 1, Size(law) - 1) :
                         Law(law, k) \/ (PrintT(<< "LAW BROKEN", law, k >>) /\ FALSE)
================================================================================
