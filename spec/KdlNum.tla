------------------------------- MODULE KdlNum -------------------------------
(* Arithmetic on digit sequences (most significant digit first): TLC's own   *)
(* integers have 32 bits, KDL's have 128 and its decimals are unbounded.     *)
EXTENDS Integers, Sequences

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 0 THEN StripZeros(Tail(d)) ELSE d
RECURSIVE StripLead(_)
StripLead(d) == IF Len(d) > 0 /\ d[1] = 0 THEN StripLead(Tail(d)) ELSE d
RECURSIVE StripTrail(_)
StripTrail(d) == IF Len(d) > 0 /\ d[Len(d)] = 0 THEN StripTrail(SubSeq(d, 1, Len(d) - 1)) ELSE d

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i > Len(a) THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i + 1)
(* both without leading zeros *)
CmpDigits(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, 1)

(* d * m + c on decimal digits; m, c small *)
RECURSIVE MulAddFrom(_, _, _, _, _)
MulAddFrom(d, i, m, carry, acc) ==
  IF i = 0 THEN IF carry = 0 THEN acc ELSE MulAddFrom(d, 0, m, carry \div 10, <<carry % 10>> \o acc)
  ELSE LET x == d[i] * m + carry IN MulAddFrom(d, i - 1, m, x \div 10, <<x % 10>> \o acc)
MulAdd(d, m, c) == MulAddFrom(d, Len(d), m, c, <<>>)

RECURSIVE ToDecFrom(_, _, _, _)
ToDecFrom(ds, i, radix, acc) == IF i > Len(ds) THEN acc ELSE ToDecFrom(ds, i + 1, radix, MulAdd(acc, radix, ds[i]))
ToDecimal(ds, radix) == StripZeros(ToDecFrom(StripZeros(ds), 1, radix, <<0>>))

I128Max    == <<1,7,0,1,4,1,1,8,3,4,6,0,4,6,9,2,3,1,7,3,1,6,8,7,3,0,3,7,1,5,8,8,4,1,0,5,7,2,7>>
I128MinAbs == <<1,7,0,1,4,1,1,8,3,4,6,0,4,6,9,2,3,1,7,3,1,6,8,7,3,0,3,7,1,5,8,8,4,1,0,5,7,2,8>>

(* ---- decimal fractions: 0.d1d2d3... * 10^e, d without leading or trailing zeros ---- *)
RECURSIVE SmallNum(_, _)
SmallNum(ds, acc) == IF ds = <<>> THEN acc ELSE IF acc > 99999 THEN 999999 ELSE SmallNum(Tail(ds), acc * 10 + Head(ds))
DecVal(neg, int, frac, expNeg, exp) ==
  LET all == int \o frac
      lead == StripLead(all)
      zeros == Len(all) - Len(lead)
      x == SmallNum(exp, 0)
      e == Len(int) - zeros + (IF expNeg THEN -x ELSE x)
      d == StripTrail(lead)
  IN [t |-> "d", n |-> IF neg THEN 1 ELSE 0, d |-> d, e |-> IF d = <<>> THEN 0 ELSE e]

(* digits of |a - b| where both have the same length *)
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, borrow, acc) ==
  IF i = 0 THEN acc
  ELSE LET x == a[i] - b[i] - borrow IN
       IF x < 0 THEN SubFrom(a, b, i - 1, 1, <<x + 10>> \o acc) ELSE SubFrom(a, b, i - 1, 0, <<x>> \o acc)
Pad(d, n) == IF Len(d) >= n THEN SubSeq(d, 1, n) ELSE d \o [i \in 1..(n - Len(d)) |-> 0]
Shift(d, k) == [i \in 1..k |-> 0] \o d
AbsDiff(a, b) == IF CmpFrom(a, b, 1) >= 0 THEN SubFrom(a, b, Len(a), 0, <<>>) ELSE SubFrom(b, a, Len(a), 0, <<>>)

(* Comparison of decimals 0.d1d2... * 10^e (digits without leading or trailing zeros; none for zero). *)
RECURSIVE CmpFrac(_, _, _)
CmpFrac(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF i > Len(a) THEN -1
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrac(a, b, i + 1)
CmpDec(a, b) ==
  IF a.d = <<>> \/ b.d = <<>> THEN (IF a.d = b.d THEN 0 ELSE IF a.d = <<>> THEN -1 ELSE 1)
  ELSE IF a.e # b.e THEN (IF a.e < b.e THEN -1 ELSE 1)
  ELSE CmpFrac(a.d, b.d, 1)

(* Is the observed float o the f64 nearest to decimal v, ties to even?  o.lo and o.hi are the    *)
(* decimals half way to its neighbours (for infinity, lo is half way from the largest f64 to     *)
(* 2^1024), o.ev tells whether its significand is even.                                          *)
FloatOk(v, o) ==
  /\ o.t = "f" /\ o.n = v.n /\ o.c # "nan"
  /\ LET c == CmpDec(v, o.lo) IN c > 0 \/ (c = 0 /\ (o.ev = 1 \/ o.lo.d = <<>>))
  /\ o.c = "inf" \/ (LET c == CmpDec(v, o.hi) IN c < 0 \/ (c = 0 /\ o.ev = 1))

(* Does decimal b, printed from a float with its shortest digits, denote the f64 that decimal a  *)
(* is read as?  Exact when a has at most 15 significant digits and is not near the range limits  *)
(* (then the shortest digits of the nearest f64 are a's own digits); otherwise the two must      *)
(* agree to 10^-15 relative.                                                                     *)
FloatSame(v, o) ==
  /\ o.n = v.n
  /\ IF v.d = <<>> THEN o.t = "d" /\ o.d = <<>>
     ELSE IF v.e > 309 THEN o.t = "f" /\ o.c = "inf"
     ELSE IF v.e < -323 THEN o.t = "d" /\ (o.d = <<>> \/ o.e <= -322)
     ELSE IF v.e < -305 THEN o.t = "d" /\ (o.d = <<>> \/ (o.e - v.e) \in -1..1)
     ELSE IF v.e = 309 THEN
            LET top == <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,8>>  c == CmpFrom(Pad(v.d, 17), top, 1) IN
            IF c > 0 THEN o.t = "f" /\ o.c = "inf" ELSE IF c < 0 THEN o.t = "d" /\ o.e = 309 ELSE TRUE
     ELSE /\ o.t = "d"
          /\ IF Len(v.d) <= 15 THEN o.d = v.d /\ o.e = v.e
             ELSE LET m == IF o.e > v.e THEN o.e ELSE v.e
                      a == Pad(Shift(v.d, m - v.e), 19)
                      b == Pad(Shift(o.d, m - o.e), 19)
                  IN /\ (o.e - v.e) \in -1..1
                     /\ \A i \in 1..15 : AbsDiff(a, b)[i] = 0
=============================================================================
