-------------------------------- MODULE Session --------------------------------
(* The library as a user sees it: two parser states and a sequence of calls.  *)
(* An event is [op, st, b, a]: entry point, parser state used (1 or 2), input *)
(* bytes and integer arguments.  Call(stores, e) is the behaviour of a call:  *)
(* [obs, store, pl], with the store of state e.st afterwards.                 *)
EXTENDS Nal, BitOps, Dump

(* ------------------------------------------- structures parsed on their own *)
(* kind -> default record and grammar; a: arguments                           *)
StructD(k) ==
  CASE k = "s_profinfo" -> ProfileInfoD [] k = "s_ptl" -> PtlD
    [] k = "s_slhrd" -> SubLayerHrdD [] k = "s_hrd" -> HrdD [] k = "s_vui" -> VuiD
    [] k = "s_vps" -> VpsD [] k = "s_scaling" -> ScalingD [] k = "s_spsrange" -> SpsRangeD
    [] k = "s_spsml" -> SpsMultilayerD [] k = "s_sps3d" -> Sps3dD [] k = "s_spsscc" -> SpsSccD
    [] k = "s_sps" -> SpsD [] k = "s_ppsml" -> PpsMultilayerD [] k = "s_ppsscc" -> PpsSccD
    [] k = "s_pps" -> PpsD [] k = "s_aud" -> AudD [] k = "s_pwt" -> PwtD
    [] k = "s_slice" -> SliceD [] k = "s_layer" -> SliceD [] k = "s_hdr" -> HdrD
StructG(k, s, a, store) ==
  CASE k = "s_profinfo" -> ProfileInfoG(s) [] k = "s_ptl" -> PtlG(s, a[1], a[2])
    [] k = "s_slhrd" -> SubLayerHrdG(s, a[1], a[2], a[3])
    [] k = "s_hrd" -> HrdG(s, a[1], a[2], <<>>) [] k = "s_vui" -> VuiG(s, a[1])
    [] k = "s_vps" -> VpsG(s) [] k = "s_scaling" -> ScalingG(s)
    [] k = "s_spsrange" -> SpsRangeG(s) [] k = "s_spsml" -> SpsMultilayerG(s)
    [] k = "s_sps3d" -> Sps3dG(s) [] k = "s_spsscc" -> SpsSccG(s, a[1], a[2], a[3])
    [] k = "s_sps" -> SpsG(s) [] k = "s_ppsml" -> PpsMultilayerG(s)
    [] k = "s_ppsscc" -> PpsSccG(s) [] k = "s_pps" -> PpsG(s) [] k = "s_aud" -> AudG(s)
    [] k = "s_pwt" -> PwtG(s, a[1], a[2])
    [] k = "s_slice" -> SliceG(s, a[1], store.pps, store.sps)
    [] k = "s_layer" -> SliceG(s, a[1], store.pps, store.sps) [] k = "s_hdr" -> HdrG(s)
(* variant 0: bytes, unescaped by the library; 1 + off: a bit reader at off.   *)
(* pos: bits consumed, where the caller can see it                            *)
ParseStruct(k, b, variant, a, store) ==
  LET d == IF variant = 0 THEN Unescape(b) ELSE b
      off == IF variant = 0 THEN 0 ELSE variant - 1
      s == IF off > NBits(d) THEN Fail(ParseState(d, 0, StructD(k)))
           ELSE StructG(k, ParseState(d, off, StructD(k)), a, store)
  IN [f |-> IF s.ok THEN << s.f >> ELSE <<>>,
      pos |-> IF s.ok /\ variant > 0 THEN s.p - off ELSE -1]
(* num sets coded in an SPS followed by one coded in a slice header            *)
RECURSIVE StSets(_, _, _, _, _)
StSets(s, i, num, max, acc) ==
  IF i > num THEN [sets |-> acc, ok |-> 1, pos |-> s.p]
  ELSE LET t == StRpsG([s EXCEPT !.f = StRpsD], i, num, acc, max)
       IN IF ~t.ok THEN [sets |-> acc, ok |-> 0, pos |-> -1]
          ELSE StSets(t, i + 1, num, max, Append(acc, t.f))

(* ---------------------------------------------------------------- the calls *)
Pure(obs, store) == [obs |-> obs, store |-> store, pl |-> <<>>]
Pairs(q) == [k \in 1..(Len(q) \div 2) |-> << q[2*k - 1], q[2*k] >>]
Quads(q) == [k \in 1..(Len(q) \div 4) |-> << q[4*k - 3], q[4*k - 2], q[4*k - 1], q[4*k] >>]
Nullable(f, id) == IF id \in DOMAIN f THEN << f[id] >> ELSE <<>>
Keep(r, store) == [r EXCEPT !.store = store]      \* the call had a state of its own
\* the text of a dump, as its words
DumpOf(r, what, o) ==
  CASE what \in {0, 1, 4} -> UnitsW(r.obs, r.pl, o)
    [] what = 2 -> Each(r.obs, LAMBDA x : RtpW(x, o))
    [] what = 3 -> Each(r.obs, LAMBDA x : BoxW(x, o))
(* ------------------------------------------------------- the command line *)
(* a call of the tool: b = the stream's bytes, a = << n, n option codes,       *)
(* the bytes of the hvcC file >>; options take effect in order:                *)
(*  1 --dump-all  2 --dump-length  3/4 --[no-]as-one-line  5/6 offset          *)
(*  7/8 length  9/10 parsed-length  11/12 checksum  13/14 resolution           *)
(*  15/16 contents  17 -d  18 --quiet  19 -o file  20 -o -                     *)
(*  21 -i file  22 -i -  23 --hvcc-file  24 -i of a file that does not exist   *)
(*  100 + n --nalu-length-bytes n  1000 + n --frames-per-second n              *)
CliDefault == [length |-> FALSE, one |-> TRUE, opts |-> {}, contents |-> FALSE,
               n |-> -1, fps |-> 30, in |-> 0, hvcc |-> FALSE, bad |-> FALSE]
CliNames == << "offset", "length", "parsed_length", "checksum", "resolution" >>
CliOption(o, c) ==
  CASE c = 1 -> [o EXCEPT !.length = FALSE]
    [] c = 2 -> [o EXCEPT !.length = TRUE]
    [] c = 3 -> [o EXCEPT !.one = TRUE]
    [] c = 4 -> [o EXCEPT !.one = FALSE]
    [] c \in 5..14 -> LET nm == CliNames[(c - 3) \div 2] IN
         IF c % 2 = 1 THEN [o EXCEPT !.opts = @ \union {nm}] ELSE [o EXCEPT !.opts = @ \ {nm}]
    [] c = 15 -> [o EXCEPT !.contents = TRUE]
    [] c = 16 -> [o EXCEPT !.contents = FALSE]
    [] c \in 17..20 -> o
    [] c \in {21, 22, 24} -> [o EXCEPT !.in = c]
    [] c \in 25..27 -> [o EXCEPT !.in = 21]          \* other names of files
    [] c = 23 -> [o EXCEPT !.hvcc = TRUE]
    [] c \in 90..200 -> IF c - 100 < -1 THEN [o EXCEPT !.bad = TRUE] ELSE [o EXCEPT !.n = c - 100]
    [] c \in 900..999 -> [o EXCEPT !.bad = TRUE]
    [] c >= 1000 -> [o EXCEPT !.fps = c - 1000]
ContentsW(n, b) ==
  << "contents", "{" >>
  \o [k \in 1..Max2(0, Min2(n.length, Len(b) - n.offset)) |->
        LET v == b[n.offset + k] IN HexDigits[(v \div 16) + 1] \o HexDigits[(v % 16) + 1]]
  \o << "}" >>
(* one row per unit; before the first segment of a picture, and at the end,    *)
(* one for the picture before                                                  *)
\* the decimal form of a product that may exceed 32 bits: limbs of four digits,
\* the lowest first
RECURSIVE Digits4(_), Carry4(_, _)
Digits4(v) == IF v < 10000 THEN << v >> ELSE << v % 10000 >> \o Digits4(v \div 10000)
Carry4(q, c) == IF q = <<>> THEN (IF c = 0 THEN <<>> ELSE Digits4(c))
                 ELSE << (Head(q) + c) % 10000 >> \o Carry4(Tail(q), (Head(q) + c) \div 10000)
ProductStr(a, b) ==
  LET x == Digits4(a)
      y == Digits4(b)
      col(k) == FoldLeft(LAMBDA s, i : s + (IF k - i + 1 \in 1..Len(y) THEN x[i] * y[k - i + 1] ELSE 0), 0, [i \in 1..Len(x) |-> i])
      q == Carry4([k \in 1..(Len(x) + Len(y) - 1) |-> col(k)], 0)
      top == CHOOSE k \in 1..Len(q) : (q[k] # 0 \/ k = 1) /\ \A j \in (k + 1)..Len(q) : q[j] = 0
      four(v) == (IF v < 1000 THEN "0" ELSE "") \o (IF v < 100 THEN "0" ELSE "") \o (IF v < 10 THEN "0" ELSE "") \o ToString(v)
  IN FoldLeft(LAMBDA s, k : s \o four(q[top - k]), ToString(q[top]), [k \in 1..(top - 1) |-> k])
FrameRow(z, fps) == "," \o ToString(z.frame) \o "," \o ToString(z.last) \o ",frame,,"
                    \o ProductStr(z.total * 8, fps) \o ",,,"
LengthRows(us, fps) ==
  LET z == FoldLeft(LAMBDA z, n :
        LET t   == n.hdr.nal_unit_type
            sl  == n.pay.slice
            has == IsSliceType(t) /\ sl # <<>>
            new == has /\ sl[1].first_slice_segment_in_pic_flag = 1 /\ z.total > 0
            z1  == IF new THEN [z EXCEPT !.rows = Append(@, << FrameRow(z, fps) >>), !.frame = @ + 1, !.total = 0] ELSE z
            z2  == IF IsSliceType(t) THEN [z1 EXCEPT !.last = t, !.total = @ + n.length] ELSE z1
            f(v) == IF has THEN UStr(v) ELSE ""
            row == ToString(z2.num) \o "," \o ToString(z2.frame) \o "," \o ToString(t) \o "," \o NutName(t) \o ","
                   \o ToString(n.length) \o ",,"
                   \o (IF has THEN UStr(sl[1].first_slice_segment_in_pic_flag) \o "," \o UStr(sl[1].slice_segment_address)
                                   \o "," \o UStr(sl[1].slice_pic_order_cnt_lsb)
                       ELSE ",,")
        IN [z2 EXCEPT !.rows = Append(@, << row >>), !.num = @ + 1],
      [rows |-> <<>>, num |-> 0, frame |-> 0, last |-> 0, total |-> 0], us)
  IN << << "nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,first_slice_segment_in_pic_flag,slice_segment_address,slice_pic_order_cnt_lsb" >> >>
     \o z.rows \o (IF z.total > 0 THEN << << FrameRow(z, fps) >> >> ELSE <<>>)
(* what it prints, line by line (as one sequence of words when the lines are   *)
(* broken up for reading), and whether it succeeds                             *)
Cli(b, a) ==
  LET o0 == FoldLeft(CliOption, CliDefault, SubSeq(a, 2, a[1] + 1))
      hv == SubSeq(a, a[1] + 2, Len(a))
      o1 == IF o0.contents THEN o0.opts \union {"offset", "length"} ELSE o0.opts
      os == IF o0.length THEN o1 \union {"length"} ELSE o1
      sum == "checksum" \in os
      failed == [rc |-> 255, out |-> <<>>]
  IN IF o0.bad \/ (o0.in = 0 /\ ~o0.hvcc) THEN failed
     ELSE LET box == IF ~o0.hvcc THEN Nothing(EmptyStore)
                     ELSE IF hv = <<>> THEN Nothing(EmptyStore) ELSE Box(hv, EmptyStore, sum)
          IN IF o0.hvcc /\ box.obs = <<>> THEN failed
             ELSE IF o0.in = 24 \/ (o0.in = 21 /\ b = <<>>) THEN failed
             ELSE LET r == IF o0.in = 0 THEN Nothing(EmptyStore)
                           ELSE IF o0.n < 0 THEN Stream(b, box.store, sum) ELSE LenStream(b, o0.n, box.store, sum)
                      head == IF o0.hvcc THEN << BoxW(box.obs[1], os) >> ELSE <<>>
                      rest == IF o0.in = 0 THEN <<>>
                              ELSE IF o0.length THEN LengthRows(r.obs, o0.fps)
                              ELSE [k \in 1..Len(r.obs) |->
                                      UnitW(r.obs[k], r.pl[k], os) \o (IF o0.contents THEN ContentsW(r.obs[k], b) ELSE <<>>)]
                      lines == head \o rest
                  IN [rc |-> 0, out |-> IF o0.one THEN lines ELSE << Flatten(lines) >>]
Structs == { "s_profinfo", "s_ptl", "s_slhrd", "s_hrd", "s_vui", "s_vps", "s_scaling",
  "s_spsrange", "s_spsml", "s_sps3d", "s_spsscc", "s_sps", "s_ppsml", "s_ppsscc", "s_pps",
  "s_aud", "s_pwt", "s_slice", "s_layer", "s_hdr" }
CallOn(store, e) ==
  LET op == e.op
      b  == e.b
      a  == e.a
      A(i) == a[i]
      sum == A(1) = 1
  IN CASE op = "nalu"   -> Nalu(b, store, sum)
       [] op = "naluu"  -> NalU(b, store, sum)
       [] op = "nalub"  -> NalU(b, store, sum)
       [] op = "payload" -> LET r == IF A(2) = 0 THEN PayloadAt(Unescape(b), 0, A(1), store)
                                     ELSE PayloadAt(b, A(2) - 1, A(1), store)
                            IN [obs |-> r.pay, store |-> r.store, pl |-> <<>>]
       [] op = "stream" -> IF A(2) = 1 THEN Keep(Stream(b, EmptyStore, sum), store)
                           ELSE Stream(b, store, sum)
       [] op = "lenstream" -> IF A(2) = 1 THEN Keep(LenStream(b, A(3), EmptyStore, sum), store)
                              ELSE LenStream(b, A(3), store, sum)
       [] op = "find"   -> Pure(FindUnits(b), store)
       [] op = "findx"  -> Pure(FindUnitsX(b), store)
       [] op = "qp"     -> QpList(b, store)
       [] op = "rtp"    -> LET r == IF A(1) = 0 THEN Rtp(b, store) ELSE RtpOver(b, b, store)
                           IN [obs |-> [rtp |-> r.obs,
                                        qp |-> IF r.obs = <<>> THEN <<>> ELSE RtpQp(r.obs, r.store)],
                               store |-> r.store, pl |-> <<>>]
       [] op = "rtpsingle" -> RtpSingle(IF A(1) = 0 THEN Unescape(b) ELSE b, store)
       [] op = "rtpap"  -> RtpAp(b, store)
       [] op = "rtpfu"  -> RtpFu(IF A(1) = 0 THEN Unescape(b) ELSE b, store)
       [] op = "hvcc"   -> Box(b, store, sum)
       [] op = "unescape" -> Pure(Unescape(b), store)
       [] op = "nutype" -> Pure(LET h == HdrAt(b) IN IF h = <<>> THEN <<>> ELSE << h[1].nal_unit_type >>, store)
       [] op = "bits"   -> Pure(ReadRun(b, 0, Pairs(a), <<>>), store)
       [] op = "wbits"  -> Pure(WriteRun(b, 0, Quads(a), <<>>), store)
       [] op = "get"    -> Pure(Nullable(CASE A(1) = 0 -> store.vps [] A(1) = 1 -> store.sps
                                           [] A(1) = 2 -> store.pps, A(2)), store)
       [] op = "strps"  -> Pure(StSets(ParseState(b, A(1), StRpsD), 0, A(2), A(3), <<>>), store)
       [] op = "strps0" -> LET s == StRpsG(ParseState(Unescape(b), 0, StRpsD), 0, A(1), <<>>, A(2))
                           IN Pure(IF s.ok THEN << s.f >> ELSE <<>>, store)
       [] op = "pred"   -> Pure(LET F(t) == [name |-> NutName(t), slice |-> B01(IsSliceType(t)),
                                    vcl |-> B01(IsVclType(t)), nonvcl |-> B01(IsNonVclType(t)),
                                    unspec |-> B01(IsUnspecType(t))]
                                IN [i \in 1..Len(a) |-> F(a[i])], store)
       [] op = "pname"  -> Pure([k \in 1..Len(a) |-> ProfileName(a[k])], store)
    [] op = "vuifr"  -> Pure([k \in 1..(Len(a) \div 2) |-> 1], store)   \* the exact quotient, within rounding
    [] op = "sei"    -> LET s == SeiParse(ParseState(IF A(1) = 0 THEN Unescape(b) ELSE b, 0, SeiD))
                           IN Pure([f |-> IF s.ok THEN << s.f >> ELSE <<>>,
                                    pos |-> IF A(1) = 1 /\ s.ok /\ s.f.payload_state # <<>>
                                            THEN s.p ELSE -1], store)
       [] op = "profs"  -> \* 11-byte profile structures, one after the other
            Pure([k \in 1..(Len(b) \div 11) |->
                    LET s == ProfileInfoG(ParseState(SubSeq(b, 11*k - 10, 11*k), 0, ProfileInfoD))
                    IN IF s.ok THEN s.f.profile_type ELSE -1], store)
       [] op = "dump"   -> \* << what, indentation, options >>
            LET o == OptSet(A(3))
                r == CASE A(1) \in {0, 4} -> Stream(b, store, "checksum" \in o)
                       [] A(1) = 1 -> Nalu(b, store, "checksum" \in o)
                       [] A(1) = 2 -> Rtp(b, store)
                       [] A(1) = 3 -> Box(b, store, "checksum" \in o)
            IN [obs |-> DumpOf(r, A(1), o), store |-> r.store, pl |-> <<>>]
       [] op = "cli"    -> Pure(Cli(b, a), store)
       [] op \in Structs ->
            Pure(ParseStruct(op, b, A(1), Tail(a), store), store)
Call(stores, e) ==
  LET r == CallOn(stores[e.st], e)
  IN [obs |-> r.obs, pl |-> r.pl, stores |-> [stores EXCEPT ![e.st] = r.store]]

(* ------------------------------------------------------- what a call may cost *)
(* proportional to its input: << branches taken in the library, bytes          *)
(* allocated (what the driver needs to report the answer included),            *)
(* milliseconds of processor time >>                                           *)
CostBound(e) ==
  LET n == Len(e.b) + Len(e.a) IN << 10000 + 1000 * n, 1000000 + 3000 * n, 1500 + n \div 50 >>

(* --------------------------------------------- what changes in the stores *)
(* changed entries << id, content >> by unsigned id                            *)
Changes(f, g) ==
  LET ids == { i \in DOMAIN g : i \notin DOMAIN f \/ f[i] # g[i] }
      q == SetToSortSeq(ids, LAMBDA x, y : ULT(x, y))
  IN [k \in 1..Len(q) |-> << q[k], g[q[k]] >>]
Delta(s, t) == [vps |-> Changes(s.vps, t.vps), sps |-> Changes(s.sps, t.sps),
                pps |-> Changes(s.pps, t.pps)]
StoreIds(s) == [vps |-> SetToSortSeq(DOMAIN s.vps, ULT), sps |-> SetToSortSeq(DOMAIN s.sps, ULT),
                pps |-> SetToSortSeq(DOMAIN s.pps, ULT)]
=============================================================================
