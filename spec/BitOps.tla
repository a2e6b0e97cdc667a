-------------------------------- MODULE BitOps --------------------------------
(* The bit-level reader and writer as state machines over a position (and,    *)
(* for the writer, a buffer).                                                  *)
EXTENDS Bits

(* number of significant bits of a word, and the split of a non-symmetric     *)
(* code for num values (clause "ns(n)" of AV1, as the library defines it)     *)
RECURSIVE CountBits(_)
CountBits(v) == IF v = 0 THEN 0 ELSE 1 + CountBits(UHalf(v))
NsMin(num) == LET w == CountBits(num)              \* 2^w - num, num in 1..2^31
              IN IF num = MinInt THEN MinInt       \* w = 32: 2^32 - 2^31
                 ELSE IF w = 31 THEN WAdd(MinInt, -num) ELSE Pow2(w) - num

(* ------------------------------------------------------------------ reader *)
(* op << code, n >> at bit p of d: [ok, v = <<hi, lo>>, p]                     *)
Res(ok, v, p) == [ok |-> ok, v |-> v, p |-> p]
Word(v) == << 0, v >>
Bad(p) == Res(FALSE, << 0, 0 >>, p)
ReadOp(d, p, op) ==
  LET c == op[1]
      n == op[2]
      have == NBits(d) - p
      rd(w) == IF w > 32 THEN ReadUW(d, p, w) ELSE Word(ReadU(d, p, w))
      fixed(w, max, adv) == IF w > max \/ w > have THEN Bad(p)
                            ELSE Res(TRUE, rd(w), IF adv THEN p + w ELSE p)
  IN CASE c = 1 -> fixed(n, 32, TRUE)
       [] c = 2 -> fixed(n, 64, TRUE)
       [] c = 3 -> LET r == ReadUE(d, p, NBits(d)) IN
                   IF r[1] THEN Res(TRUE, Word(r[2]), p + r[3]) ELSE Bad(p)
       [] c = 4 -> LET r == ReadUE(d, p, NBits(d)) IN
                   IF r[1] THEN Res(TRUE, Word(SEOf(r[2])), p + r[3]) ELSE Bad(p)
       [] c = 5 -> IF n = 1 THEN Res(TRUE, Word(0), p)
                   ELSE LET w == CountBits(n)
                            m == NsMin(n)
                        IN IF w - 1 > have THEN Bad(p)
                           ELSE LET v == ReadU(d, p, w - 1) IN
                                IF ULT(v, m) THEN Res(TRUE, Word(v), p + w - 1)
                                ELSE IF w > have THEN Res(FALSE, << 0, 0 >>, -1)
                                ELSE Res(TRUE, Word(WAdd(ReadU(d, p, w), IF m = MinInt THEN MinInt ELSE -m)), p + w)
       [] c = 6 -> fixed(n, 32, FALSE)
       [] c = 7 -> fixed(n, 64, FALSE)
       [] c = 8 -> fixed(8, 32, TRUE)
       [] c = 9 -> fixed(16, 32, TRUE)
       [] c = 10 -> fixed(32, 32, TRUE)
       [] c = 11 -> IF n > have THEN Bad(p) ELSE Res(TRUE, Word(0), p + n)
       [] c = 12 -> IF n > have \div 8 THEN Bad(p) ELSE Res(TRUE, Word(0), p + 8 * n)
       [] c = 13 -> IF n \div 8 > Len(d) \/ n > NBits(d) THEN Bad(p) ELSE Res(TRUE, Word(0), n)
       [] c = 14 -> Res(MoreData(d, p, NBits(d)), Word(0), p)
       [] c = 15 -> LET e == TrailEnd(d, p, NBits(d)) IN
                    Res(have > 0 /\ BitAt(d, p) = 1 /\ e % 8 = 0 /\ AllZero(d, p + 1, e), Word(0), e)
       [] c = 16 -> Res(p % 8 = 0, Word(0), p)
       [] c = 17 -> Res(TRUE, Word((p + 7) \div 8), p)
       [] c = 18 -> IF n > have \div 8 THEN Bad(p)
                    ELSE Res(TRUE, Word(FoldLeft(LAMBDA a, k : (a * 31 + ReadU(d, p + 8 * (k - 1), 8)) % 65521,
                                                 0, Iota(n))), p + 8 * n)
       [] c = 19 -> Res(TRUE, Word(have), p)
       \* to byte n div 16, bit n mod 16: there are bits 0 to 7 in a byte
       [] c = 20 -> LET q == 8 * (n \div 16) + (n % 16) IN
                    IF n % 16 > 7 \/ q > NBits(d) THEN Bad(p) ELSE Res(TRUE, Word(0), q)
       \* further than any buffer goes
       [] c \in 21..26 -> Bad(p)
(* a run of operations: one observation << ok, hi, lo, byte, bit >> per op;   *)
(* it ends after a failed second part of a non-symmetric read (position -1)   *)
RECURSIVE ReadRun(_, _, _, _)
ReadRun(d, p, ops, acc) ==
  IF ops = <<>> THEN acc
  ELSE LET r == ReadOp(d, p, Head(ops))
           o == << IF r.ok THEN 1 ELSE 0, r.v[1], r.v[2],
                   IF r.p < 0 THEN -1 ELSE r.p \div 8, IF r.p < 0 THEN -1 ELSE r.p % 8 >>
       IN IF r.p < 0 THEN Append(acc, o) ELSE ReadRun(d, r.p, Tail(ops), Append(acc, o))

(* ------------------------------------------------------------------ writer *)
(* op << code, hi, lo, n >> at bit p of buffer d: [ok, d, p, v]                *)
PutBits(d, p, bs) ==
  LET n  == Len(bs)
      b0 == p \div 8
      b1 == (p + n - 1) \div 8
      new(k) == LET bit(j) == LET q == 8 * k + j IN
                      IF q >= p /\ q < p + n THEN bs[q - p + 1] ELSE BitAt(d, q)
                IN bit(0) * 128 + bit(1) * 64 + bit(2) * 32 + bit(3) * 16
                   + bit(4) * 8 + bit(5) * 4 + bit(6) * 2 + bit(7)
  IN IF n = 0 THEN d ELSE [i \in 1..Len(d) |-> IF i - 1 >= b0 /\ i - 1 <= b1 THEN new(i - 1) ELSE d[i]]
NsBits(v, num) ==
  IF num = 1 THEN <<>>
  ELSE LET w == CountBits(num)
           m == NsMin(num)
       IN IF ULT(v, m) THEN TokBits(v, w - 1) ELSE TokBits(WAdd(v, m), w)
WRes(ok, d, p, v) == [ok |-> ok, d |-> d, p |-> p, v |-> v]
WBits(d, p, bs) == IF Len(bs) > NBits(d) - p THEN WRes(FALSE, d, p, 0)
                   ELSE WRes(TRUE, PutBits(d, p, bs), p + Len(bs), 0)
WriteOp(d, p, op) ==
  LET c  == op[1]
      hi == op[2]
      lo == op[3]
      n  == op[4]
  IN CASE c = 1 -> WBits(d, p, IF n > 32 THEN TokBits(hi, n - 32) \o TokBits(lo, 32) ELSE TokBits(lo, n))
       [] c = 2 -> IF lo = MaxU THEN WRes(FALSE, d, p, 0) ELSE WBits(d, p, UEBits(lo))
       [] c = 3 -> IF lo = MinInt THEN WRes(FALSE, d, p, 0) ELSE WBits(d, p, SEBits(lo))
       [] c = 4 -> WBits(d, p, NsBits(lo, n))
       [] c = 5 -> WBits(d, p, TokBits(lo, 8))
       [] c = 6 -> WBits(d, p, TokBits(lo, 16))
       [] c = 7 -> WBits(d, p, TokBits(lo, 32))
       [] c = 8 -> IF n > NBits(d) THEN WRes(FALSE, d, p, 0) ELSE WRes(TRUE, d, n, 0)
       [] c = 9 -> IF n > NBits(d) - p THEN WRes(FALSE, d, p, 0) ELSE WRes(TRUE, d, p + n, 0)
       [] c = 10 -> WRes(TRUE, d, p, Len(NsBits(lo, n)))
       [] c = 11 -> LET q == 8 * (n \div 16) + (n % 16) IN
                    IF n % 16 > 7 \/ q > NBits(d) THEN WRes(FALSE, d, p, 0) ELSE WRes(TRUE, d, q, 0)
       [] c \in {12, 13} -> WRes(FALSE, d, p, 0)
(* observations << ok, value, byte, bit >> \o buffer                           *)
RECURSIVE WriteRun(_, _, _, _)
WriteRun(d, p, ops, acc) ==
  IF ops = <<>> THEN acc
  ELSE LET r == WriteOp(d, p, Head(ops))
       IN WriteRun(r.d, r.p, Tail(ops),
            Append(acc, << IF r.ok THEN 1 ELSE 0, r.v, r.p \div 8, r.p % 8 >> \o r.d))
=============================================================================
