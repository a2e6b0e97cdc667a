-------------------------------- MODULE Bits --------------------------------
(* Words, bit positions, the descriptors of clause 9.2 and the byte-level     *)
(* coding of clause 7.3.1.1 (emulation prevention) of the H.265 standard.     *)
(*                                                                            *)
(* Byte strings are sequences over 0..255.  A bit position p counts bits from *)
(* the most significant bit of the first byte (p = 0).  Unsigned 32-bit words *)
(* are represented by the TLC integer with the same two's complement bit      *)
(* pattern (TLC integers are 32-bit), so -1 is 2^32-1; 64-bit words are pairs *)
(* <<hi, lo>> of such words.                                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

POW2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
           16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152,
           4194304, 8388608, 16777216, 33554432, 67108864, 134217728,
           268435456, 536870912, 1073741824 >>
Pow2(k) == POW2[k + 1]                                       \* 0 <= k <= 30
MinInt  == -2147483647 - 1
MaxU    == -1                                                \* 2^32 - 1

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Iota(n) == [i \in 1..n |-> i]

(* unsigned comparison and halving of words *)
ULE(a, b) == IF (a < 0) = (b < 0) THEN a <= b ELSE b < 0
ULT(a, b) == ULE(a, b) /\ a # b
UHalf(a)  == IF a >= 0 THEN a \div 2 ELSE ((a \div 2) + 2147483647) + 1

(* sum of two words modulo 2^32, without leaving TLC's integers *)
WAdd(a, b) == IF a >= 0 /\ b >= 0
              THEN IF a <= 2147483647 - b THEN a + b
                   ELSE (a - 2147483647 - 1) + (b - 2147483647 - 1)
              ELSE IF a < 0 /\ b < 0
                   THEN IF a >= MinInt - b THEN a + b
                        ELSE (a - MinInt) + (b - MinInt)
                   ELSE a + b

(* -------------------------------------------------------- reading of bits *)
NBits(d) == 8 * Len(d)
BitAt(d, p) == (d[(p \div 8) + 1] \div POW2[8 - (p % 8)]) % 2

(* 1 <= w <= 24 bits at p; the bits exist *)
RECURSIVE GatherBytes(_, _, _, _)
GatherBytes(d, i, j, acc) ==
  IF i > j THEN acc ELSE GatherBytes(d, i + 1, j, acc * 256 + d[i])
ReadSmall(d, p, w) ==
  LET off  == p % 8
      b0   == (p \div 8) + 1
      b1   == ((p + w - 1) \div 8) + 1
      tail == (8 - ((p + w) % 8)) % 8
      head == d[b0] % POW2[9 - off]
      all  == IF b1 = b0 THEN head
              ELSE IF b1 = b0 + 1 THEN head * 256 + d[b1]
              ELSE GatherBytes(d, b0 + 1, b1, head)
  IN all \div POW2[tail + 1]

(* 0 <= w <= 32 bits at p as a word *)
ReadU(d, p, w) ==
  IF w = 0 THEN 0
  ELSE IF w = 1 THEN BitAt(d, p)
  ELSE IF w <= 24 THEN ReadSmall(d, p, w)
  ELSE LET hi == ReadSmall(d, p, w - 16)
           lo == ReadSmall(d, p + w - 16, 16)
       IN (IF hi >= 32768 THEN hi - 65536 ELSE hi) * 65536 + lo

(* 33..64 bits at p as a pair of words *)
ReadUW(d, p, w) == << ReadU(d, p, w - 32), ReadU(d, p + w - 32, 32) >>

(* number of zero bits at p before the first one bit or the end n *)
RECURSIVE Zeros(_, _, _, _)
Zeros(d, p, n, z) ==
  IF p >= n THEN z
  ELSE IF p % 8 = 0 /\ p + 8 <= n /\ d[(p \div 8) + 1] = 0
       THEN Zeros(d, p + 8, n, z + 8)
       ELSE IF BitAt(d, p) = 1 THEN z
       ELSE Zeros(d, p + 1, n, z + 1)

(* ue(v) at p with n bits in all: << ok, value, length >>                     *)
NoUE == << FALSE, 0, 0 >>
ReadUE(d, p, n) ==
  LET z == Zeros(d, p, n, 0)
  IN IF z > 31 \/ p + 2 * z + 1 > n THEN NoUE
     ELSE IF z = 0 THEN << TRUE, 0, 1 >>
     ELSE IF z = 31
          THEN LET r == ReadU(d, p + z + 1, 31)
               IN << TRUE, IF r = 0 THEN 2147483647 ELSE (r - 1) + MinInt, 63 >>
          ELSE << TRUE, (POW2[z + 1] - 1) + ReadU(d, p + z + 1, z), 2 * z + 1 >>

(* the mapping of 9.2.2 for se(v) *)
SEOf(u) == IF u % 2 = 1 THEN UHalf(u) + 1 ELSE - UHalf(u)

(* -------------------------------------------- clause 7.2 predicates (RBSP) *)
(* A read position p in n bits: data is left unless what remains is exactly   *)
(* a one bit followed by zero bits only, all within the last byte.            *)
RECURSIVE AllZero(_, _, _)
AllZero(d, p, n) == IF p >= n THEN TRUE ELSE BitAt(d, p) = 0 /\ AllZero(d, p + 1, n)
MoreData(d, p, n) ==
  IF p >= n THEN FALSE
  ELSE IF n - p > 8 THEN TRUE
  ELSE ~(BitAt(d, p) = 1 /\ AllZero(d, p + 1, n))
(* first position >= p at which no more data is left *)
RECURSIVE DataEndFrom(_, _, _)
DataEndFrom(d, p, n) == IF ~MoreData(d, p, n) THEN p ELSE DataEndFrom(d, p + 1, n)
DataEnd(d, p, n) == IF p >= n THEN p
                    ELSE IF ~MoreData(d, p, n) THEN p
                    ELSE DataEndFrom(d, Max2(p, n - 8), n)

(* rbsp_trailing_bits(): the position after it.  It consumes the stop bit and *)
(* then zero bits up to the byte boundary (stopping early at a one bit).      *)
RECURSIVE ZerosToAlign(_, _, _)
ZerosToAlign(d, p, n) ==
  IF p % 8 = 0 \/ p >= n THEN p
  ELSE IF BitAt(d, p) = 1 THEN p + 1 ELSE ZerosToAlign(d, p + 1, n)
TrailEnd(d, p, n) ==
  IF p >= n THEN p
  ELSE IF BitAt(d, p) = 0 THEN p + 1 ELSE ZerosToAlign(d, p + 1, n)

(* ------------------------------------------------ emulation prevention --- *)
(* 7.3.1.1: the 03 bytes that follow two zero bytes are not part of the RBSP. *)
IsEPB(d, i) == i >= 3 /\ d[i] = 3 /\ d[i-1] = 0 /\ d[i-2] = 0
Unescape(d) ==
  LET keep == SelectSeq(Iota(Len(d)), LAMBDA i : ~IsEPB(d, i))
  IN [k \in 1..Len(keep) |-> d[keep[k]]]
(* 7.4.2: the encoder inserts 03 wherever 00 00 {00,01,02,03} would occur     *)
(* (or, with always, also after a 00 00 that ends the payload)                *)
Escape(d) ==
  FoldLeft(LAMBDA acc, b :
     IF acc.z >= 2 /\ b <= 3
     THEN [o |-> acc.o \o <<3, b>>, z |-> IF b = 0 THEN 1 ELSE 0]
     ELSE [o |-> Append(acc.o, b), z |-> IF b = 0 THEN acc.z + 1 ELSE 0],
     [o |-> <<>>, z |-> 0], d).o

(* ------------------------------------------------ packing bits to bytes --- *)
(* tokens <<value, width>>, width <= 32                                       *)
TokBit(v, w, i) ==          \* i-th bit (0 = most significant) of v in w bits
  LET k == w - 1 - i
  IN IF k = 31 THEN (IF v < 0 THEN 1 ELSE 0)
     ELSE (v \div POW2[k + 1]) % 2
TokBits(v, w) == [i \in 1..w |-> TokBit(v, w, i - 1)]
BitsToBytes(bs) ==
  LET m == (Len(bs) + 7) \div 8
      B(i) == IF i <= Len(bs) THEN bs[i] ELSE 0
  IN [k \in 1..m |-> LET o == 8 * (k - 1) IN
        B(o+1) * 128 + B(o+2) * 64 + B(o+3) * 32 + B(o+4) * 16
      + B(o+5) * 8 + B(o+6) * 4 + B(o+7) * 2 + B(o+8)]
BytesToBits(d) == [i \in 1..(8 * Len(d)) |-> BitAt(d, i - 1)]

(* ue(v) encoding of a word (anything but 2^32-1) as a bit sequence *)
RECURSIVE Log2(_)
Log2(v) == IF v <= 1 THEN 0 ELSE 1 + Log2(v \div 2)
RECURSIVE CeilLog2From(_, _)
CeilLog2From(v, k) == IF k >= 31 \/ Pow2(k) >= v THEN k ELSE CeilLog2From(v, k + 1)
CeilLog2(v) == CeilLog2From(v, 0)
UEBits(u) ==
  IF u = 2147483647 \/ u < 0
  THEN [i \in 1..31 |-> 0] \o <<1>>
       \o TokBits(IF u = 2147483647 THEN 0 ELSE (u - MinInt) + 1, 31)
  ELSE LET z == Log2(u + 1)
       IN [i \in 1..z |-> 0] \o <<1>>
          \o (IF z = 0 THEN <<>> ELSE TokBits(u + 1 - Pow2(z), z))
(* word of an se(v) value *)
UOfSE(v) == IF v > 1073741824 THEN (2 * (v - 1073741824) - 1) + MinInt
            ELSE IF v > 0 THEN (v - 1) + v ELSE IF v > -1073741824 THEN -2 * v
            ELSE (2 * (-v - 1073741824)) + MinInt
SEBits(v) == UEBits(UOfSE(v))
Flatten(q) == FlattenSeq(q)

(* ---------------------------------------------------- pseudo-random draws *)
Rnd(r) == LET v == 16807 * (r % 127773) - 2836 * (r \div 127773)
          IN IF v <= 0 THEN v + 2147483647 ELSE v
Mix(r) == Rnd(1 + (r % 40009) * (((r \div 40009) % 40013) + 13))
H(r, i) == Mix(Rnd(Mix((r % 1000000007) + i * 104729)))      \* i <= 10000
RndBytes(r, n) == [k \in 1..n |-> H(r, 2000 + k) % 256]
=============================================================================
