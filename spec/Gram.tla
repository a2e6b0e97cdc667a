-------------------------------- MODULE Gram --------------------------------
(* An engine for syntax tables.  A syntax structure is written once, as an    *)
(* operator that threads a record s through its syntax elements in the order  *)
(* of the standard's table:                                                   *)
(*     s ++ u("vps_video_parameter_set_id", 4) ++ u("vps_...", 1) ++ ...      *)
(* and is executed in one of two modes:                                       *)
(*   "p"  parse: s.d holds the bytes, s.p the position, s.n the number of     *)
(*        bits; elements are read, checked against their range, and stored in *)
(*        the record s.f under their name;                                    *)
(*   "g"  generate: values are drawn (pseudo-randomly, from s.g.r) within     *)
(*        the range of the element and written to s.g.out; this yields the    *)
(*        bit strings the structure describes, together with their values.    *)
(* s.ok becomes FALSE at the first element that is out of range or for which  *)
(* data runs out; every later operation leaves such an s alone.  s.x is the   *)
(* value of the element read last.                                            *)
EXTENDS Bits

ParseState(d, p, f) ==
  [ok |-> TRUE, m |-> "p", d |-> d, p |-> p, n |-> NBits(d), f |-> f, x |-> 0,
   g |-> 0]
(* k > 0: the k-th range-limited element is coded outside its range.  force:    *)
(* function from element names to sequences of values to draw from.           *)
GenState(r, k, force, f) ==
  [ok |-> TRUE, m |-> "g", d |-> <<>>, p |-> 0, n |-> 0, f |-> f, x |-> 0,
   g |-> [r |-> r, out |-> <<>>, k |-> k, force |-> force, lim |-> <<>>]]
(* as well, the occ-th occurrence of the at-th limited element (counted by     *)
(* first appearance) is coded exactly at its limits (how = 1: lowest, 2:       *)
(* highest), or just beyond them (3, 4), where the rest is as it would be had  *)
(* the value been in range, or (5) beyond the highest by one where a count is  *)
(* followed by as many as it says                                              *)
AtLimit(s, at, how, occ) ==
  [s EXCEPT !.g = [@ EXCEPT !.lim = << at, how, occ, {}, <<>> >>]]
InRange(e, v) == IF e.t = "se" THEN e.lo <= v /\ v <= e.hi
                 ELSE ULE(e.lo, v) /\ ULE(v, e.hi)
\* with how from 11 on, the occ-th element of a name, of 9 bits and more, is coded
\* at an extreme of the word, whatever its range
Wide(e) == e.t \in {"ue", "se"} \/ (e.t = "u" /\ e.w >= 9)
WideValue(e, how) ==
  LET within(v) == IF InRange(e, v) THEN v ELSE e.hi
  IN IF e.t = "u" THEN (IF how = 11 THEN (IF e.w = 32 THEN -1 ELSE IF e.w = 31 THEN 2147483647 ELSE Pow2(e.w) - 1)
                        ELSE IF how = 12 THEN (IF e.w = 32 THEN MinInt ELSE Pow2(e.w - 1))
                        ELSE IF how = 13 THEN (IF e.w = 32 THEN 2147483647 ELSE Pow2(e.w - 1) - 1)
                        ELSE IF how = 14 THEN 256 ELSE IF e.w > 16 THEN 65536 ELSE 257)
     ELSE IF e.t = "se" THEN within(<< 2147483647, -2147483647, 32768, -32769, 256 >>[how - 10])
     ELSE within(<< -2, MinInt, 2147483647, 65536, 256 >>[how - 10])
AtExtreme(s, nm, how, occ) ==
  [s EXCEPT !.g = [@ EXCEPT !.lim = << 0, how, occ, {}, << nm >> >>]]
\* with how from 1000 on, every element of 2 to 8 bits, or of a range of up to 256,
\* mostly has the value how says (modulo the number of its values), and most flags
\* are set
Swept(e) == \/ e.t = "u" /\ e.w \in 1..8 /\ e.lo # e.hi
            \/ e.t = "ue" /\ e.hi > 0 /\ e.hi - e.lo \in 1..255
            \/ e.t = "se" /\ e.hi # 2147483647 /\ e.hi - e.lo \in 1..255
\* the others, but for counts: seldom, and the value itself, or its difference to 128
SweptToo(e) == e.t = "ue" \/ e.t = "se" \/ (e.t = "u" /\ e.w > 8 /\ e.lo # e.hi)
SweepToo(e, x) == LET v == IF e.t = "se" THEN x - 128 ELSE IF e.t = "u" THEN x % Pow2(Min2(e.w, 9)) ELSE WAdd(e.lo, x)
                  IN IF InRange(e, v) THEN v ELSE e.lo
Closing == { "alpha_channel_cancel_flag", "ccv_cancel_flag", "colour_remap_cancel_flag", "knee_function_cancel_flag" }
SweepValue(e, x) == LET n == IF e.t = "u" /\ e.hi = MaxU THEN Pow2(e.w) ELSE e.hi - e.lo + 1 IN IF e.t = "u" /\ e.w = 1 THEN (IF e.nm \in Closing THEN 0 ELSE 1) ELSE e.lo + (x % n)
Sweep(s, x) == [s EXCEPT !.g = [@ EXCEPT !.lim = << 0, 1000 + x, 0, {}, <<>> >>]]
LimNext(l, e) ==        \* the element e passes: << l', hit >>
  LET key == IF l[2] > 10 THEN << e.nm >> ELSE IF e.nm # "" THEN << e.nm, e.t, e.w >> ELSE << "", e.t, e.w, e.lo, e.hi >>
      seen == l[4] \cup {key}
      mine == IF l[5] # <<>> THEN l[5] ELSE IF Cardinality(seen) = l[1] /\ key \notin l[4] THEN key ELSE <<>>
      occ == IF key = mine THEN l[3] - 1 ELSE l[3]
  IN << << l[1], l[2], occ, seen, mine >>, key = mine /\ occ = 0 >>
LimHit(s) == s.g.lim[5] # <<>> /\ s.g.lim[3] <= 0

(* ---------------------------------------------------- pseudo-random draws *)
Seed(i) == Rnd(Rnd(Rnd(((i % 1000003) * 2011) + 7919)))
RndN(r, k) == Rnd(Rnd(r + k + 1))
Mod(r, n) == (r \div 7) % n

(* ---------------------------------------------------- element descriptors *)
El(t, nm, w, lo, hi, h, c, a) ==
  [t |-> t, nm |-> nm, w |-> w, lo |-> lo, hi |-> hi, h |-> h, c |-> c, a |-> a]
u(nm, w)           == El("u", nm, w, 0, MaxU, 0, <<>>, FALSE)
up(nm, w, c)       == El("u", nm, w, 0, MaxU, 0, c, FALSE)     \* draw from c
ufix(nm, w, v)     == El("u", nm, w, v, v, 0, <<>>, FALSE)     \* must equal v
ul(nm, w)          == El("u", nm, w, 0, MaxU, 0, <<>>, TRUE)
ulp(nm, w, c)      == El("u", nm, w, 0, MaxU, 0, c, TRUE)
uw(nm, w)          == El("uw", nm, w, 0, MaxU, 0, <<>>, FALSE)
ue(nm)             == El("ue", nm, 0, 0, MaxU, 0, <<>>, FALSE)
uer(nm, lo, hi)    == El("ue", nm, 0, lo, hi, 0, <<>>, FALSE)
uep(nm, lo, hi, c) == El("ue", nm, 0, lo, hi, 0, c, FALSE)
uec(nm, hi, h)     == El("uc", nm, 0, 0, hi, h, <<>>, FALSE)   \* a count
uel(nm)            == El("ue", nm, 0, 0, MaxU, 0, <<>>, TRUE)
uerl(nm, lo, hi)   == El("ue", nm, 0, lo, hi, 0, <<>>, TRUE)
se(nm)             == El("se", nm, 0, MinInt, 2147483647, 0, <<>>, FALSE)
ser(nm, lo, hi)    == El("se", nm, 0, lo, hi, 0, <<>>, FALSE)
sep(nm, c)         == El("se", nm, 0, MinInt, 2147483647, 0, c, FALSE)
sel(nm)            == El("se", nm, 0, MinInt, 2147483647, 0, <<>>, TRUE)

Limited(e) == IF e.t = "se" THEN e.hi # 2147483647 ELSE e.hi # MaxU \/ e.lo # 0

(* ------------------------------------------------------------ small steps *)
Fail(s)         == [s EXCEPT !.ok = FALSE]
Require(s, c)   == IF s.ok /\ ~c THEN [s EXCEPT !.ok = FALSE] ELSE s
(* a constraint; generation goes on when it does not hold                     *)
Demand(s, c)    == IF s.m = "p" THEN Require(s, c) ELSE s
Set(s, nm, v)   == IF s.ok THEN [s EXCEPT !.f = [@ EXCEPT ![nm] = v]] ELSE s
Push(s, nm, v)  == IF s.ok THEN [s EXCEPT !.f = [@ EXCEPT ![nm] = Append(@, v)]] ELSE s
\* elements that are not kept under their name, but where their structure puts
\* them
Unkept == { "", "scaling_list_delta_coef", "pred_matrix_id_delta", "dc_coef_minus8", "chroma_weight", "chroma_offset", "remap_coeff" }
Put(s, e, v)    == IF e.nm \in Unkept THEN [s EXCEPT !.x = v]
                   ELSE IF e.a THEN [s EXCEPT !.x = v, !.f = [@ EXCEPT ![e.nm] = Append(@, v)]]
                   ELSE [s EXCEPT !.x = v, !.f = [@ EXCEPT ![e.nm] = v]]

(* ------------------------------------------------------------------ parse *)
PElem(s, e) ==
  IF e.t = "u"
  THEN IF s.p + e.w > s.n THEN Fail(s)
       ELSE LET v == ReadU(s.d, s.p, e.w)
            IN IF e.hi # MaxU /\ ~InRange(e, v) THEN Fail(s)
               ELSE Put([s EXCEPT !.p = @ + e.w], e, v)
  ELSE IF e.t = "uw"
  THEN IF s.p + e.w > s.n THEN Fail(s)
       ELSE Put([s EXCEPT !.p = @ + e.w], e, ReadUW(s.d, s.p, e.w))
  ELSE LET r == ReadUE(s.d, s.p, s.n)
       IN IF ~r[1] THEN Fail(s)
          ELSE LET v == IF e.t = "se" THEN SEOf(r[2]) ELSE r[2]
               IN IF ~InRange(e, v) THEN Fail(s)
                  ELSE Put([s EXCEPT !.p = @ + r[3]], e, v)

(* --------------------------------------------------------------- generate *)
Extremes == << 1, 2, 3, 7, 8, 15, 16, 31, 254, 255, 256, 32767, 32768, 65534, 65535,
  65536, 1073741823, 1073741824, 2147483646, 2147483647, MinInt, MinInt + 1,
  -2, -65536, 16777215, 5461, -1431655766 >>
SExtremes == << 1, -1, 2, -2, 127, -128, 128, -129, 32767, -32768, 32768,
  1073741823, 1073741824, 1073741825, -1073741823, -1073741824, -1073741825,
  2147483647, -2147483647, 26, -26, 51, -52, 6, -6 >>
Pick(c, r) == c[1 + Mod(r, Len(c))]
(* a value of the element, all draws from r (two fresh draws a, b)            *)
Draw(s, e, a, b) ==
  IF e.nm \in DOMAIN s.g.force THEN Pick(s.g.force[e.nm], a)
  ELSE IF Len(e.c) > 0 /\ Mod(b, 16) # 0 THEN Pick(e.c, a)
  ELSE IF e.t = "u"
  THEN IF e.lo = e.hi THEN e.lo
       ELSE IF e.w <= 3 THEN Mod(a, Pow2(e.w))
       ELSE LET c == Mod(b, 8) IN
            IF c = 0 THEN 0
            ELSE IF c = 1 THEN (IF e.w = 32 THEN -1 ELSE IF e.w = 31 THEN 2147483647 ELSE Pow2(e.w) - 1)
            ELSE IF c = 2 THEN (IF e.w = 32 THEN MinInt ELSE Pow2(e.w - 1))
            ELSE IF c = 3 THEN (IF e.w > 8 THEN Mod(a, 48) ELSE 1)
            ELSE IF e.w <= 30 THEN a % Pow2(e.w)
            ELSE IF e.w = 31 THEN a
            ELSE IF Mod(b, 2) = 0 THEN a ELSE -a
  ELSE IF e.t = "uc"
  THEN LET top == IF e.hi < 0 \/ e.hi > 64 THEN 64 ELSE e.hi
           c == Mod(b, 32)
       IN IF c = 0 THEN top                      \* seldom, a great many
          ELSE IF c <= 2 THEN Mod(a, Min2(top, 40) + 1)
          ELSE Mod(a, Max2(e.h, 0) + 1)
  ELSE IF e.t = "ue"
  THEN IF e.hi = MaxU \/ e.hi < 0
       THEN IF Mod(b, 6) = 0 THEN (IF e.lo = 0 THEN Pick(Extremes, a) ELSE 2147483647)
            ELSE e.lo + Mod(a, IF Mod(b, 6) = 1 THEN 300 ELSE 12)
       ELSE LET c == Mod(b, 6) IN
            IF c = 0 THEN e.hi ELSE IF c = 1 THEN e.lo
            ELSE IF c <= 3 /\ e.hi - e.lo > 64 THEN e.lo + Mod(a, 24)
            ELSE e.lo + (IF e.hi - e.lo = 2147483647 THEN a ELSE (a % (e.hi - e.lo + 1)))
  ELSE \* se
       IF e.hi = 2147483647
       THEN IF Mod(b, 6) = 0 THEN Pick(SExtremes, a) ELSE IF Mod(b, 6) = 1 THEN Mod(a, 300) - 150 ELSE Mod(a, 13) - 6
       ELSE LET c == Mod(b, 6) IN
            IF c = 0 THEN e.hi ELSE IF c = 1 THEN e.lo
            ELSE e.lo + (a % (e.hi - e.lo + 1))
(* a value outside the range *)
Outside(e, a) ==
  IF e.t = "u" THEN (e.lo + 1 + Mod(a, 3)) % Pow2(Min2(e.w, 30))
  ELSE IF e.t = "se" THEN (IF Mod(a, 2) = 0 THEN e.hi + 1 ELSE e.lo - 1)
  ELSE IF e.hi = MaxU THEN e.lo - 1
  ELSE IF e.hi = -2 THEN e.hi                  \* nothing above can be coded
  ELSE IF e.lo > 0 /\ Mod(a, 2) = 0 THEN e.lo - 1
  ELSE IF Mod(a, 5) = 0 THEN -2 ELSE WAdd(e.hi, 1)
Bits2Emit(e, v) ==
  IF e.t = "u" THEN TokBits(v, e.w)
  ELSE IF e.t = "uw" THEN TokBits(v[1], e.w - 32) \o TokBits(v[2], 32)
  ELSE IF e.t = "se" THEN SEBits(v) ELSE UEBits(v)
Emit(s, bs) == [s EXCEPT !.p = @ + Len(bs), !.g = [@ EXCEPT !.out = Append(@, bs)]]

GElem(s, e) ==
  LET a  == Rnd(s.g.r)
      b  == Rnd(a)
      lim == Limited(e)
      sweep == s.g.lim # <<>> /\ s.g.lim[2] >= 1000 /\ e.nm \notin DOMAIN s.g.force
               /\ IF Swept(e) THEN Mod(b, 4) # 0 ELSE SweptToo(e) /\ Mod(b, 3) = 0
      aim == s.g.lim # <<>> /\ s.g.lim[2] < 1000 /\ (IF s.g.lim[2] > 10 THEN Wide(e) ELSE lim)
      ln == IF aim THEN LimNext(s.g.lim, e) ELSE << s.g.lim, FALSE >>
      how == IF ln[2] THEN s.g.lim[2] ELSE 0
      viol == (lim /\ s.g.k = 1) \/ how \in 3..5
      out == IF how = 3 THEN (IF e.t = "u" /\ e.lo = 0 THEN Pow2(Min2(e.w, 30)) - 1 ELSE IF e.t # "se" /\ e.lo = 0 THEN WAdd(e.hi, 2) ELSE e.lo - 1)
             ELSE IF how >= 4 THEN (IF e.t = "u" THEN (e.hi + 1) % Pow2(Min2(e.w, 30)) ELSE IF e.hi = MaxU THEN -2 ELSE WAdd(e.hi, 1))
             ELSE Outside(e, a)
      v  == IF sweep THEN (IF Swept(e) THEN SweepValue(e, s.g.lim[2] - 1000) ELSE SweepToo(e, s.g.lim[2] - 1000)) ELSE IF how > 10 THEN WideValue(e, how) ELSE IF how = 1 THEN e.lo ELSE IF how = 2 THEN (IF e.hi = MaxU THEN -2 ELSE e.hi)
            ELSE IF e.t = "uw"
            THEN << IF Mod(b, 4) = 0 THEN TokBit(-1, 32, 0) * (IF e.w = 64 THEN -1 ELSE Pow2(e.w - 32) - 1)
                    ELSE IF e.w = 64 THEN a - 1073741824 ELSE a % Pow2(e.w - 32),
                    IF Mod(b, 4) = 0 THEN -1 ELSE IF Mod(b, 4) = 1 THEN << 0, 1, 2, -1, MinInt >>[1 + Mod(a, 5)] ELSE b - 1073741824 >>
            ELSE Draw(s, e, a, b)
      \* out of range: what is coded is not what the rest is built on, so that
      \* everything after it is as it should be
      s1 == [Emit(s, Bits2Emit(e, IF viol THEN out ELSE v)) EXCEPT
               !.g = [@ EXCEPT !.r = b, !.lim = ln[1], !.k = IF lim /\ @ > 0 THEN @ - 1 ELSE @]]
  IN IF e.t # "uw" /\ ~InRange(e, v) /\ ~(e.t = "uc" /\ e.nm \in DOMAIN s.g.force) THEN Fail(s1)
     ELSE Put(s1, e, IF how = 5 /\ e.t = "uc" /\ 0 <= e.hi /\ e.hi <= 1100 THEN out ELSE v)

s ++ e == IF ~s.ok THEN s ELSE IF s.m = "p" THEN PElem(s, e) ELSE GElem(s, e)

(* --------------------------------------------------------- rows of values *)
(* n values (n a word) of w bits each (0 <= w), as one list                    *)
RowRaw(s, n, w) ==        \* << s', row >>
  IF n = 0 THEN << s, <<>> >>
  ELSE IF w < 1 \/ w > 32 \/ n < 0 THEN << Fail(s), <<>> >>
  ELSE IF s.m = "p"
  THEN IF n > (s.n - s.p) \div w THEN << Fail(s), <<>> >>
       ELSE << [s EXCEPT !.p = @ + n * w],
               [i \in 1..n |-> ReadU(s.d, s.p + (i - 1) * w, w)] >>
  ELSE IF n > 5000 THEN << Fail(s), <<>> >>
  ELSE LET r == FoldLeft(LAMBDA acc, i :
                  LET a == Rnd(acc.r)
                      b == Rnd(a)
                      v == Draw(s, u("", w), a, b)
                  IN [r |-> b, o |-> Append(acc.o, v)],
                  [r |-> s.g.r, o |-> <<>>], Iota(n))
           bits == Flatten([i \in 1..n |-> TokBits(r.o[i], w)])
       IN << [Emit(s, bits) EXCEPT !.g = [@ EXCEPT !.r = r.r]], r.o >>
Row(s, nm, n, w) ==
  IF ~s.ok THEN s ELSE LET r == RowRaw(s, n, w) IN Set(r[1], nm, r[2])
PushRow(s, nm, n, w) ==
  IF ~s.ok THEN s ELSE LET r == RowRaw(s, n, w) IN Push(r[1], nm, r[2])

(* ------------------------------------------------------------- repetition *)
(* body(s, i) for i = 0 .. n-1, n a word; when n may exceed 8 every body        *)
(* consumes a bit at least                                                     *)
Rep(s, n, body(_, _)) ==
  IF ~s.ok \/ n = 0 THEN s
  ELSE IF s.m = "p" /\ (n < 0 \/ (n > 8 /\ n > s.n - s.p)) THEN Fail(s)
  ELSE IF n < 0 \/ n > 5000 THEN Fail(s)
  ELSE FoldLeft(LAMBDA t, i : IF t.ok THEN body(t, i - 1) ELSE t, s, Iota(n))

(* ------------------------------------------------------ nested structures *)
Sub(s, nm, dflt, body(_)) ==
  IF ~s.ok THEN s
  ELSE LET t == body([s EXCEPT !.f = dflt])
       IN [t EXCEPT !.f = IF t.ok THEN [s.f EXCEPT ![nm] = << t.f >>] ELSE s.f]
SubPush(s, nm, dflt, body(_)) ==
  IF ~s.ok THEN s
  ELSE LET t == body([s EXCEPT !.f = dflt])
       IN [t EXCEPT !.f = IF t.ok THEN [s.f EXCEPT ![nm] = Append(@, t.f)] ELSE s.f]

(* ------------------------------------------ extension data and trailing bits *)
(* while( more_rbsp_data( ) ) flag u(1): the last one is retained in nm        *)
ExtData(s, nm) ==
  IF ~s.ok THEN s
  ELSE IF s.m = "p"
  THEN LET e == DataEnd(s.d, s.p, s.n)
       IN IF e = s.p THEN s ELSE Set([s EXCEPT !.p = e], nm, BitAt(s.d, e - 1))
  ELSE LET a == Rnd(s.g.r)
           n == Mod(a, 13)
           bs == [i \in 1..n |-> (a \div Pow2(10 + i)) % 2]
           s1 == [s EXCEPT !.g = [@ EXCEPT !.r = a]]
       IN IF n = 0 THEN s1 ELSE Set(Emit(s1, bs), nm, bs[n])
Trailing(s) ==
  IF ~s.ok THEN s
  ELSE IF s.m = "p" THEN [s EXCEPT !.p = TrailEnd(s.d, s.p, s.n)]
  ELSE Emit(s, <<1>> \o [i \in 1..((8 - ((s.p + 1) % 8)) % 8) |-> 0])

GenBits(s)  == Flatten(s.g.out)
GenBytes(s) == BitsToBytes(GenBits(s))
(* bytes consumed by a parse *)
Consumed(s) == (s.p + 7) \div 8
=============================================================================
