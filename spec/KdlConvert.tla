----------------------------- MODULE KdlConvert ------------------------------
(* What conversion between the versions owes, in terms of the content that   *)
(* the two readers find before and after.                                    *)
EXTENDS Integers, Sequences

(* ---- which values v1 has a notation for ---------------------------------- *)
(* integers between -(2^63-1) and 2^63-1, and finite floats; digits are       *)
(* sequences without leading zeros                                            *)
MaxV1 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
LOCAL Less(a, b) == \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
DigitsLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ Less(a, b)))
Expressible(v) ==
  CASE v.t = "i" -> DigitsLeq(v.d, MaxV1)
    [] v.t = "f" -> v.c = "fin"
    [] OTHER -> TRUE
RECURSIVE AllExpressible(_)
AllExpressible(ns) ==
  \A i \in DOMAIN ns : /\ \A j \in DOMAIN ns[i].e : Expressible(ns[i].e[j].v)
                       /\ ns[i].c # <<>> => AllExpressible(ns[i].c[1])

ASSUME /\ DigitsLeq(<<>>, MaxV1) /\ DigitsLeq(MaxV1, MaxV1) /\ ~DigitsLeq(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>, MaxV1)
       /\ ~DigitsLeq(<<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, MaxV1)
=============================================================================
