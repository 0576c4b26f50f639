------------------------------ MODULE TraceEq -------------------------------
(* Equality and hashing.                                                     *)
(*   k = "pair": a, b = everything two things consist of (spans left out)    *)
(*   k = "texts": two texts that were read                                   *)
(*   eq = <<a == b, b == a, !(a != b)>>; h = equal hashes                    *)
(*   ord, ops (values): a.partial_cmp(b), b.partial_cmp(a); a < b, <=, >, >=  *)
(*   self = results of comparisons of a and b with themselves and clones     *)
(* The specification's equality is identity of normal forms, so it is an     *)
(* equivalence; agreeing with it on every pair makes the library's one.      *)
EXTENDS TraceBase

(* f64::MAX; the library deliberately identifies infinities with the largest *)
(* numbers, NaN with zero, and the two zeros                                 *)
MaxF64 == [c |-> "fin", d |-> <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,7>>, e |-> 309]
NormVal(v) ==
  IF v.t # "f" THEN v
  ELSE IF v.c = "nan" \/ (v.c = "fin" /\ v.d = <<>>) THEN [t |-> "f", c |-> "fin", n |-> 0, d |-> <<>>, e |-> 0]
  ELSE IF v.c = "inf" THEN [t |-> "f", c |-> "fin", n |-> v.n, d |-> MaxF64.d, e |-> MaxF64.e]
  ELSE v
NormEnt(e) == [e EXCEPT !.v = NormVal(e.v)]
RECURSIVE NormDoc(_)
NormNode(n) == [n EXCEPT !.e = [i \in DOMAIN n.e |-> NormEnt(n.e[i])], !.c = IF n.c = <<>> THEN <<>> ELSE <<NormDoc(n.c[1])>>]
NormDoc(d) == [d EXCEPT !.ns = [i \in DOMAIN d.ns |-> NormNode(d.ns[i])]]
Norm(x) == IF "ns" \in DOMAIN x THEN NormDoc(x)
           ELSE IF "m" \in DOMAIN x THEN NormNode(x)
           ELSE IF "k" \in DOMAIN x THEN NormEnt(x)
           ELSE IF "t" \in DOMAIN x THEN NormVal(x) ELSE x

(* the order of values: by kind, then strings by their characters, numbers   *)
(* by size, false before true; -1, 0, 1                                      *)
Cmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
RECURSIVE CmpSeq(_, _, _)
CmpSeq(a, b, i) ==
  IF i > Len(a) \/ i > Len(b) THEN Cmp(Len(a), Len(b))
  ELSE IF a[i] # b[i] THEN Cmp(a[i], b[i]) ELSE CmpSeq(a, b, i + 1)
Rank(v) == CASE v.t = "s" -> 1 [] v.t = "i" -> 2 [] v.t = "f" -> 3 [] v.t = "b" -> 4 [] v.t = "z" -> 5
Sign(v) == IF v.d \in {<<>>, <<0>>} THEN 0 ELSE IF v.n = 1 THEN -1 ELSE 1
(* integers: digits without leading zeros; floats: 0.d1d2... times 10^e *)
CmpInt(a, b) == IF Len(a.d) # Len(b.d) THEN Cmp(Len(a.d), Len(b.d)) ELSE CmpSeq(a.d, b.d, 1)
CmpFloat(a, b) == IF a.e # b.e THEN Cmp(a.e, b.e) ELSE CmpSeq(a.d, b.d, 1)
CmpNum(a, b) ==
  IF Sign(a) # Sign(b) THEN Cmp(Sign(a), Sign(b))
  ELSE IF Sign(a) = 0 THEN 0
  ELSE Sign(a) * (IF a.t = "i" THEN CmpInt(a, b) ELSE CmpFloat(a, b))
Order(a, b) ==
  IF a.t # b.t THEN Cmp(Rank(a), Rank(b))
  ELSE CASE a.t = "s" -> CmpSeq(a.s, b.s, 1)
         [] a.t = "b" -> Cmp(a.b, b.b)
         [] a.t = "z" -> 0
         [] OTHER -> CmpNum(a, b)

B(x) == IF x THEN 1 ELSE 0
Same == IF Obs.k = "pair" THEN Norm(Obs.a) = Norm(Obs.b) ELSE Text(it, 1) = Text(it, 2)
Equality == \A i \in DOMAIN Obs.eq : Obs.eq[i] = B(Same)
Hashing == Same => Obs.h = 1
Ordering ==
  ("ord" \in DOMAIN Obs) =>
    LET o == Order(Norm(Obs.a), Norm(Obs.b)) IN
    /\ Obs.ord = <<o, -o>>
    /\ (o = 0) = Same
    /\ Obs.ops = <<B(o < 0), B(o <= 0), B(o > 0), B(o >= 0)>>
Reflexive == \A i \in DOMAIN Obs.self : Obs.self[i] = 1
Accepted == Obs.k = "texts" => Results[1].ok /\ Results[2].ok

Report == (Last /\ Accepted) => Say("eq", Equality) /\ Say("hash", Hashing) /\ Say("self", Reflexive) /\ Say("order", Ordering)
=============================================================================
