------------------------------- MODULE GenSession -------------------------------
(* Behaviours of the library: sessions of calls on two parser states, chosen  *)
(* by the environment of Gen, with what every call must answer.  TLC explores *)
(* sessions first .. first+count-1 of each profile asked for, checks the properties of *)
(* the specification on every state, and writes each finished session as a    *)
(* behaviour for the replayer.                                                *)
EXTENDS Enum

VARIABLES pf,      \* the profile
          sid,     \* the session
          i,       \* calls made so far
          stores,  \* the two parser states
          aux,     \* bytes chosen once per session (units to cut or to split)
          ev,      \* the call waiting for its answer, if any
          log      \* events with their answers
vars == << pf, sid, i, stores, aux, ev, log >>

(* ---------------------------------------------------------------- profiles *)
(* setup: steps every session begins with (state 1, and state 2 when both);   *)
(* body: steps to choose from; len: calls after the setup                      *)
P(setup, body, len, both) == [setup |-> setup, body |-> body, len |-> len, both |-> both]
Clean(q) == Step("stream", q, -1, 0)
Base == << Clean(<< "vps", "sps", "sps", "pps", "pps", "pps" >>) >>
Sets == << "vps", "sps", "pps" >>
All  == << "vps", "sps", "sps", "pps", "pps", "slice", "slice", "slice", "idr", "aud", "sei", "other", "any" >>
Video == << "slice", "slice", "idr", "slice", "sps", "pps", "pps", "sei", "aud" >>
N(q, m) == Step("nalu", q, 0, m)
St(q, m) == Step("struct", q, 0, m)
Profile(p) ==
  CASE p = "C01" -> P(<<>>, << Step("rawfind", <<>>, 0, 0), Step("rawfind", <<>>, 0, 0), Step("rawstream", <<>>, 0, 0),
                        Step("find", All, 4, 3), Step("stream", All, 4, 3), Step("stream", Sets, 3, 0) >>, 12, FALSE)
    [] p = "C02" -> P(<<>>, << Step("rawlen", <<>>, 0, 0), Step("rawlen", <<>>, 0, 0), Step("rawfindx", <<>>, 0, 0),
                        Step("lenstream", All, 4, 2), Step("lenstream", Sets, 3, 0), Step("lenstream", << "other", "aud" >>, 6, 3),
                        Step("findx", << "other", "aud", "sei" >>, 5, 3) >>, 12, FALSE)
    [] p = "C03" -> P(Base, << Step("rawunescape", <<>>, 0, 0), Step("rawunescape", <<>>, 0, 0), Step("escaped", All, 0, 1),
                        N(All, 0), Step("naluu", All, 0, 0), St(StructSeq, 0) >>, 12, FALSE)
    [] p = "C04" -> P(<<>>, << Step("bits", <<>>, 0, 0), Step("bits", <<>>, 0, 0), Step("wbits", <<>>, 0, 0) >>, 16, FALSE)
    [] p = "C05" -> P(<<>>, << N(Sets, 1), N(Sets, 0), N(Sets, 0), Step("get", <<>>, 0, 0), Step("get", <<>>, 0, 0),
                        Step("stream", Sets, 4, 1), Step("lenstream", Sets, 3, 1), Step("hvcc", Sets, 3, 1),
                        Step("naluu", Sets, 0, 1), Step("payload", Sets, 0, 1), Step("rtp", Sets, 3, 1),
                        Step("qp", All, 4, 0), N(All, 1) >>, 10, FALSE)
    [] p = "C06" -> P(Base, << N(<< "sps", "pps", "pps" >>, 0), N(<< "slice", "idr" >>, 0), N(<< "slice", "idr" >>, 0),
                        Step("stream", Video, 5, 0), Step("qp", Video, 4, 0), Step("rtp", Video, 3, 0), N(<< "sps", "pps" >>, 4),
                        Step("hvcc", << "sps", "pps", "pps" >>, 3, 0), Step("payload", << "slice" >>, 0, 0) >>, 9, TRUE)
    [] p = "C07" -> P(<<>>, << St(<< "s_vps" >>, 0), St(<< "s_vps" >>, 2), N(<< "vps" >>, 0), N(<< "vps" >>, 2),
                        Step("payload", << "vps" >>, 0, 1) >>, 10, FALSE)
    [] p = "C08" -> P(<<>>, << St(<< "s_sps" >>, 0), St(<< "s_sps" >>, 2), N(<< "sps" >>, 0), N(<< "sps" >>, 2),
                        Step("payload", << "sps" >>, 0, 1) >>, 10, FALSE)
    [] p = "C09" -> P(<<>>, << St(<< "s_vui", "s_hrd", "s_slhrd" >>, 0), St(<< "s_vui", "s_vui", "s_hrd", "s_slhrd" >>, 2),
                        N(<< "sps", "vps" >>, 0) >>, 12, FALSE)
    [] p = "C10" -> P(<< Clean(<< "sps", "sps" >>) >>, << St(<< "s_pps" >>, 0), St(<< "s_pps" >>, 2), N(<< "pps" >>, 0), N(<< "pps" >>, 2),
                        St(<< "s_ppsml", "s_ppsscc" >>, 1), Step("payload", << "pps" >>, 0, 1) >>, 12, FALSE)
    [] p = "C11" -> P(Base, << N(<< "slice", "idr" >>, 0), N(<< "slice", "slice", "idr" >>, 0), N(<< "slice", "idr" >>, 1), St(<< "s_slice", "s_layer" >>, 0),
                        St(<< "s_slice", "s_pwt" >>, 1), N(<< "pps" >>, 0), N(<< "sps", "pps" >>, 0) >>, 12, FALSE)
    [] p = "C12" -> P(<< Clean(<< "sps", "pps" >>) >>, << Step("strps", <<>>, 0, 0), Step("strps", <<>>, 0, 0), Step("strps", <<>>, 0, 3),
                        Step("strps0", <<>>, 0, 1), N(<< "slice" >>, 0), N(<< "sps" >>, 0) >>, 12, FALSE)
    [] p = "C13" -> P(<<>>, << St(<< "s_ptl" >>, 0), St(<< "s_ptl" >>, 1), St(<< "s_profinfo" >>, 0), N(<< "vps", "sps" >>, 0) >>, 14, FALSE)
    [] p = "C14" -> P(<< Clean(<< "sps", "sps" >>) >>, << St(<< "s_scaling" >>, 0), St(<< "s_scaling" >>, 2),
                        St(<< "s_spsrange", "s_spsml", "s_sps3d", "s_spsscc", "s_ppsml", "s_ppsscc" >>, 0),
                        St(<< "s_spsscc", "s_ppsml", "s_ppsscc", "s_sps3d" >>, 2), N(<< "sps", "pps" >>, 0) >>, 12, FALSE)
    [] p = "C15" -> P(<<>>, << Step("sei", <<>>, 0, 0), Step("sei", <<>>, 0, 0), Step("sei", <<>>, 0, 3), N(<< "sei" >>, 0),
                        N(<< "sei" >>, 2), Step("payload", << "sei" >>, 0, 1) >>, 16, FALSE)
    [] p = "C16" -> P(Base, << Step("rawnalu", <<>>, 0, 0), St(<< "s_hdr" >>, 1), N(<< "any" >>, 1), N(<< "other", "aud" >>, 0), Step("naluu", << "any", "other" >>, 0, 1),
                        Step("nutype", << "any" >>, 0, 0), Step("payload", << "any", "other", "aud" >>, 0, 1), Step("stream", << "any" >>, 5, 0) >>, 14, FALSE)
    [] p = "C17" -> P(Base, << Step("rtp", Video, 4, 0), Step("rtp", All, 3, 0), Step("rtp", All, 3, 2), Step("rtpsingle", All, 0, 1),
                        Step("rtpap", All, 4, 1), Step("rtpap", Video, 4, 0), Step("rtpfu", Video, 0, 1), N(Sets, 0) >>, 10, FALSE)
    [] p = "C18" -> P(<<>>, << Step("hvcc", Sets, 4, 0), Step("hvcc", << "vps", "sps", "pps", "sei", "aud", "other" >>, 5, 0),
                        Step("hvcc", All, 4, 2) >>, 8, FALSE)
    [] p = "C19" -> P(Base, << N(All, 3), N(Sets, 4), N(<< "slice", "idr", "sei" >>, 4), Step("stream", All, 4, 4), St(StructSeq, 4),
                        Step("hvcc", Sets, 3, 4), Step("rtp", All, 3, 4) >>, 10, FALSE)
    [] p = "C20" -> P(<<>>, << N(All, 4), Step("stream", All, 6, 4), Step("lenstream", All, 5, 4), Step("rtp", All, 4, 4), Step("rtpap", All, 4, 4), Step("rtpfu", All, 0, 4),
                        Step("rtpsingle", All, 0, 4), Step("hvcc", All, 4, 4), Step("qp", Video, 5, 3), St(StructSeq, 4), Step("strps", <<>>, 0, 3), Step("sei", <<>>, 0, 4),
                        Step("bits", <<>>, 0, 0), Step("wbits", <<>>, 0, 0), Step("payload", All, 0, 3), Step("rawnalu", <<>>, 0, 0), Step("rawlen", <<>>, 0, 0),
                        Step("rawstream", <<>>, 0, 0), Step("naluu", All, 0, 4), Step("stream", Sets, 3, 0), N(<< "slice", "idr" >>, 1) >>, 14, FALSE)
    [] p = "C21" -> P(Base, << Step("qp", Video, 5, 0), Step("qp", << "slice", "idr" >>, 3, 0), Step("qp", << "pps", "slice" >>, 5, 0),
                        Step("rtp", << "slice", "idr", "slice", "pps" >>, 3, 0), N(<< "sps", "pps" >>, 0) >>, 8, FALSE)
    [] p = "C22" -> P(<<>>, << N(<< "sps" >>, 0), N(<< "sps" >>, 0), N(<< "pps" >>, 0), Step("hvcc", << "sps", "pps" >>, 3, 0) >>, 10, FALSE)
    [] p = "C23" -> P(Base, << N(All, 1), Step("stream", All, 4, 1), Step("lenstream", All, 3, 1), Step("hvcc", Sets, 3, 0), Step("rawnalu", <<>>, 0, 0),
                        Step("naluu", All, 0, 1), Step("nalub", All, 0, 1) >>, 12, FALSE)
    [] p = "C24" -> P(Base, << Step("dump", All, 3, 0), Step("dump", Sets, 3, 0), Step("dump", Video, 3, 0), Step("dump", << "sei" >>, 3, 0),
                        Step("dump", << "slice", "idr" >>, 2, 0), Step("dump", All, 3, 2), N(Sets, 0) >>, 8, FALSE)
    [] p = "cli" -> P(<<>>, << Step("cli", << "vps", "sps", "pps", "slice", "slice", "idr", "sei" >>, -1, 0), Step("cli", << "sps", "pps", "pps", "slice", "slice", "idr", "slice" >>, -1, 0),
                        Step("cli", << "sps", "pps", "slice", "aud", "slice", "idr", "any" >>, -1, 1), Step("cli", All, -1, 2) >>, 6, FALSE)
    [] p = "C26" -> P(Base, << N(All, 1), Step("stream", All, 4, 1), Step("rtp", All, 3, 1), Step("hvcc", Sets, 3, 1), Step("qp", Video, 4, 1),
                        Step("lenstream", All, 3, 1), Step("naluu", All, 0, 1), Step("get", <<>>, 0, 0), N(Sets, 0), Step("payload", All, 0, 1) >>, 10, TRUE)
    [] p = "cuts" -> P(Base, <<>>, 40, FALSE)
    [] p = "pairs" -> P(Base, <<>>, 12, TRUE)
    [] p = "split" -> P(Base, <<>>, 8, TRUE)
    [] p = "given" -> P(<<>>, <<>>, 1, FALSE)

IsEnum == pf \in EnumProfiles
Prof   == IF IsEnum THEN P(<<>>, <<>>, 0, FALSE) ELSE Profile(pf)
NSetup == Len(Prof.setup) * (IF Prof.both THEN 2 ELSE 1)
R0(s)  == H(Seed(s), (Cfg.seed % 9000) + 1)

(* the events of a session that keep to bytes chosen at its beginning          *)
CutUnit(r, store) == UnitU(Of(r, 1, << "vps", "sps", "pps", "slice", "idr", "sei", "slice", "sps" >>), store, H(r, 2), 0)
AuxFor(r, store) ==
  CASE pf = "cuts"  -> << CutUnit(r, store) >>
    [] pf = "split" ->
         LET us == UnitRow(Video, 2 + Below(r, 3, Prof.len - 2), store, H(r, 2), IF Chance(r, 4, 3) THEN 2 ELSE 0)
             \* as units between start codes can be: free of start codes, and not ending in a zero
             fit(e) == LET f == IF Len(StartCodes(<< 0, 0, 1 >> \o e)) > 1 THEN Escape(e) ELSE e
                       IN IF f # <<>> /\ f[Len(f)] = 0 THEN Append(f, 128) ELSE f
         IN SelectSeq([k \in 1..Len(us) |-> fit(us[k])], LAMBDA e : Len(e) >= 2)
    [] pf = "pairs" ->
         LET us == UnitRow(All, Prof.len \div 2, store, H(r, 2), IF Chance(r, 4, 3) THEN 2 ELSE 0)
         IN [k \in 1..Len(us) |-> Unescape(us[k])]
    \* calls recorded elsewhere, decided here
    [] pf = "given" -> JsonDeserialize(Cfg.given \o "/" \o ToString(sid) \o ".json")
    [] OTHER -> <<>>
\* the same units: whole or piece by piece
SplitWay(r) == Below(r, 8, 4)
SplitParts(au, r) == IF SplitWay(r) <= 1 THEN Len(au) ELSE (Len(au) + 1) \div 2
Framed(us, r, j) == FoldLeft(LAMBDA a, k : a \o StartCode(H(r, 700 + j + k)) \o us[k], <<>>, Iota(Len(us)))
Prefixed(us, n) == FoldLeft(LAMBDA a, k : a \o BytesOf(Len(us[k]), n) \o us[k], <<>>, Iota(Len(us)))
AuxEvent(k, au, r) ==
  CASE pf = "given" -> au[k]
    [] pf = "cuts" ->
         LET n == Len(au[1])
             cut == IF n <= Prof.len THEN Min2(n, k - 1) ELSE ((k - 1) * n) \div Prof.len
             c == SubSeq(au[1], 1, cut)
         IN CASE k % 3 = 0 -> Event("nalu", 1, Escape(c), << 0 >>)
              [] k % 3 = 1 -> Event("naluu", 1, c, << 0 >>)
              [] OTHER -> Event("rtpsingle", 1, c, << 1 >>)
    [] pf = "pairs" ->
         LET b == au[1 + ((k - 1) \div 2)]
         IN IF Chance(r, 10 + (k - 1) \div 2, 3) /\ Len(b) >= 2
            THEN LET t == (b[1] \div 2) % 64
                     c == SubSeq(b, 3, Len(b))
                 IN IF k % 2 = 1 THEN Event("payload", 1, Escape(c), << t, 0 >>) ELSE Event("payload", 2, c, << t, 1 >>)
            ELSE IF k % 2 = 1 THEN Event("nalu", 1, Escape(b), << 1 >>) ELSE Event("naluu", 2, b, << 1 >>)
    [] pf = "split" ->
         LET way == SplitWay(r)
             whole == IF way = 2 THEN Event("lenstream", 1, Prefixed(au, 3), << 1, 0, 3 >>)
                      ELSE Event("stream", 1, Framed(au, r, 1), << 1, 0 >>)
         IN IF k = 1 THEN whole
            ELSE IF way = 0 THEN Event("nalu", 2, au[k - 1], << 1 >>)
            ELSE IF way = 1 THEN Event("naluu", 2, Unescape(au[k - 1]), << 1 >>)
            ELSE LET j == (k - 2) * 2 + 1 IN
                 Event("stream", 2, Framed(SubSeq(au, j, Min2(j + 1, Len(au))), r, j), << 1, 0 >>)
LenOf(s, au) ==
  IF IsEnum THEN EnumLen(pf, s)
  ELSE IF pf = "given" THEN Max2(1, Len(au))
  ELSE IF pf = "split" THEN NSetup + (IF au = <<>> THEN Prof.len ELSE SplitParts(au, R0(s)) + 1)
  ELSE NSetup + Prof.len

EventAt(k, s, sts, au) ==      \* the k-th call of session s
  LET r == H(R0(s), k) IN
  IF IsEnum THEN EnumEvent(pf, s, k, sts)
  ELSE IF k <= NSetup
  THEN LET z == IF Prof.both THEN (k - 1) \div 2 + 1 ELSE k
           st == IF Prof.both THEN 1 + ((k - 1) % 2) ELSE 1
       \* both states start with different content, or with the same
       IN Make(Prof.setup[z], st, sts[st], IF Prof.both /\ (pf \in {"split", "pairs"} \/ ~Chance(R0(s), 5, 3)) THEN H(R0(s), 100 + z) ELSE r)
  ELSE IF Prof.body = <<>> THEN AuxEvent(k - NSetup, au, R0(s))
  ELSE LET st == IF (Prof.both /\ Chance(r, 7, 2)) \/ Chance(r, 8, 8) THEN 2 ELSE 1
       IN \* now and then the same call again
          Make(Of(r, 9, Prof.body), st, sts[st], H(r, 10))

Entry(e, c) == [op |-> e.op, st |-> e.st, b |-> e.b, a |-> e.a,
                x |-> [obs |-> c.obs, pl |-> c.pl, cost |-> CostBound(e),
                       d1 |-> Delta(stores[1], c.stores[1]), d2 |-> Delta(stores[2], c.stores[2])]]
(* the answers to the pieces are the answer to the whole (places apart)         *)
NoPlace(o) == [o EXCEPT !.offset = 0, !.length = 0]
SplitObs(l) ==
  (pf = "split" /\ Len(l) > NSetup) =>
     LET pieces == Flatten([k \in 1..(Len(l) - NSetup - 1) |-> l[NSetup + 1 + k].x.obs])
         whole == l[NSetup + 1].x.obs
     IN [k \in 1..Len(whole) |-> NoPlace(whole[k])] = [k \in 1..Len(pieces) |-> NoPlace(pieces[k])]
Init == /\ \E k \in 1..Len(Cfg.runs) :
             /\ pf = Cfg.runs[k].profile
             /\ sid \in Cfg.runs[k].first .. (Cfg.runs[k].first + Cfg.runs[k].count - 1)
        /\ i = 0
        /\ stores = << EmptyStore, EmptyStore >>
        /\ aux = <<>>
        /\ ev = <<>>
        /\ log = <<>>
(* the environment decides on a call ...                                       *)
Ask == /\ ev = <<>>
       /\ i < LenOf(sid, aux)
       /\ IF i = NSetup /\ ~IsEnum /\ Prof.body = <<>> /\ aux = <<>>
          THEN /\ aux' = AuxFor(H(R0(sid), 77), stores[1])
               /\ UNCHANGED ev
          ELSE /\ ev' = << IF ~IsEnum /\ i > NSetup /\ Prof.body # <<>> /\ Chance(R0(sid), 3000 + i, 15)
                           THEN LET q == log[Len(log)] IN [op |-> q.op, st |-> q.st, b |-> q.b, a |-> q.a]
                           ELSE EventAt(i + 1, sid, stores, aux) >>
               /\ UNCHANGED aux
       /\ UNCHANGED << pf, sid, i, stores, log >>
(* ... and the library answers it                                               *)
Answer == /\ ev # <<>>
          /\ LET c == Call(stores, ev[1])
                 l == Append(log, Entry(ev[1], c))
             IN /\ stores' = c.stores
                /\ IF i + 1 = LenOf(sid, aux)
                   THEN /\ Assert(SplitObs(l), << "one call and unit by unit differ", sid >>)
                     /\ JsonSerialize(Cfg.out \o "/" \o pf \o "-" \o ToString(sid) \o ".json", l)
                        /\ log' = <<>>
                   ELSE log' = l
          /\ i' = i + 1
          /\ ev' = <<>>
          /\ UNCHANGED << pf, sid, aux >>
Next == Ask \/ Answer
Spec == Init /\ [][Next]_vars
View == << pf, sid, i, ev = <<>>, aux = <<>> >>

(* ------------------------------------- properties of the specification itself *)
(* sets are kept under the id they carry                                       *)
StoreKeyed ==
  \A k \in 1..2 :
    /\ \A id \in DOMAIN stores[k].vps : stores[k].vps[id].vps_video_parameter_set_id = id
    /\ \A id \in DOMAIN stores[k].sps : stores[k].sps[id].sps_seq_parameter_set_id = id
    /\ \A id \in DOMAIN stores[k].pps : stores[k].pps[id].pps_pic_parameter_set_id = id
(* a call works on the state it was given, and sets never disappear            *)
Frame ==
  IF ev = <<>> THEN stores' = stores
  ELSE LET st == ev[1].st IN
       /\ stores'[3 - st] = stores[3 - st]
       /\ \A f \in {"vps", "sps", "pps"} : DOMAIN stores[st][f] \subseteq DOMAIN stores'[st][f]
FrameProp == [][Frame]_vars
(* parsing in one call or unit by unit ends in the same state                   *)
SplitSame ==
  (pf \in {"split", "pairs"} /\ i > NSetup /\ i = LenOf(sid, aux) /\ ev = <<>>) => stores[1] = stores[2]
================================================================================
