------------------------------ MODULE KdlSerde ------------------------------
(* How documents are mapped to values of a type and back (kdl::de, kdl::se). *)
(*                                                                           *)
(* Types, as serde sees them ("shapes", k = their kind):                     *)
(*   bool; int (w = its width: i8 ... u128); flt (w = 32 or 64); char; str;  *)
(*   unit; opt, new, seq (of = the inner type); tup (of = several);          *)
(*   map (key, of); rec (f = fields: n = name, of, d = 1 with #[serde        *)
(*   (default)]; deny = 1 with deny_unknown_fields); enum (v = variants:     *)
(*   n = name, p = what it holds: none, one, tup, rec); any (a type that     *)
(*   takes what it's given, as serde_json::Value)                            *)
(* Values (k = their kind): bool (b), int (n, d), flt (f = its bits), str    *)
(*   (s), unit, none, some (o), new (w), seq (q), map (m = pairs), rec (r =  *)
(*   by field), var (i = variant, p = by field)                              *)
(* Documents are those of KdlReader, but floats have b and s, the bits of    *)
(* the f64 and of the f32 nearest to it, and integers have those of the      *)
(* floats they become.  Names are sequences of code points.                  *)
EXTENDS KdlNum, FiniteSets

Err == <<>>
Ok(v) == <<v>>

RECURSIVE DecCps(_)
DecCps(i) == IF i < 10 THEN <<48 + i>> ELSE Append(DecCps(i \div 10), 48 + (i % 10))
Hash == <<35>>
AtSign == <<64>>
TypeSuffix == <<35, 116, 121, 112, 101>>          \* #type
NameField == <<35, 110, 97, 109, 101>>            \* #name
TypeField == TypeSuffix
ArgsField == <<35, 97, 114, 103, 115>>            \* #args
RestField == <<35, 114, 101, 115, 116>>           \* #rest
ArgField(i) == Hash \o DecCps(i)
PropField(x) == Hash \o AtSign \o x
Dash == <<45>>

(* ---- integers ---- *)
IntLimits == [
  i8 |-> <<<<1,2,8>>, <<1,2,7>>>>, u8 |-> <<<<>>, <<2,5,5>>>>,
  i16 |-> <<<<3,2,7,6,8>>, <<3,2,7,6,7>>>>, u16 |-> <<<<>>, <<6,5,5,3,5>>>>,
  i32 |-> <<<<2,1,4,7,4,8,3,6,4,8>>, <<2,1,4,7,4,8,3,6,4,7>>>>, u32 |-> <<<<>>, <<4,2,9,4,9,6,7,2,9,5>>>>,
  i64 |-> <<<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>, <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>>>,
  u64 |-> <<<<>>, <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>>>,
  i128 |-> <<I128MinAbs, I128Max>>,
  u128 |-> <<<<>>, <<3,4,0,2,8,2,3,6,6,9,2,0,9,3,8,4,6,3,4,6,3,3,7,4,6,0,7,4,3,1,7,6,8,2,1,1,4,5,5>>>>]
InInt(w, n, d) == LET l == IntLimits[w] IN
  IF d = <<0>> THEN TRUE ELSE IF n = 1 THEN l[1] # <<>> /\ CmpDigits(d, l[1]) <= 0 ELSE CmpDigits(d, l[2]) <= 0
Wide(n, d) == ~(InInt("i64", n, d) \/ InInt("u64", n, d))
Signed(w) == w \in {"i8", "i16", "i32", "i64", "i128"}

(* a key read as an integer *)
IsDigits(x) == x # <<>> /\ \A i \in DOMAIN x : x[i] \in 48..57
KeyInt(w, x) ==
  LET sign == x # <<>> /\ x[1] \in {43, 45}
      neg == sign /\ x[1] = 45
      digits == IF sign THEN Tail(x) ELSE x
  IN IF ~IsDigits(digits) \/ (neg /\ ~Signed(w)) THEN Err
     ELSE LET d == StripZeros([i \in DOMAIN digits |-> digits[i] - 48])
              n == IF neg /\ d # <<0>> THEN 1 ELSE 0
          IN IF InInt(w, n, d) THEN Ok([k |-> "int", n |-> n, d |-> d]) ELSE Err
TrueCps == <<116, 114, 117, 101>>
FalseCps == <<102, 97, 108, 115, 101>>

(* ---- parts of nodes ---- *)
IsArg(e) == e.k = <<>>
Args(n) == SelectSeq(n.e, IsArg)
(* of properties of the same name, the last one counts *)
PropIdx(n) == SelectSeq([i \in DOMAIN n.e |-> i], LAMBDA i : n.e[i].k # <<>> /\ \A j \in (i + 1)..Len(n.e) : n.e[j].k # n.e[i].k)
Props(n) == LET ix == PropIdx(n) IN [j \in DOMAIN ix |-> n.e[ix[j]]]
NoChildren(n) == n.c = <<>> \/ n.c[1] = <<>>
IsEmpty(n) == n.e = <<>> /\ n.c = <<>>
IsScalar(n) == Len(n.e) = 1 /\ IsArg(n.e[1]) /\ n.c = <<>>
Scalar(n) == n.e[1].v

(* ---- where a value comes from ---- *)
SDoc(ns) == [s |-> "doc", ns |-> ns]
SNode(n) == [s |-> "node", nd |-> n]
SGroup(ns) == [s |-> "group", ns |-> ns]
SVal(v) == [s |-> "val", val |-> v]
SArgs(vs) == [s |-> "args", vals |-> vs]
SName(x) == [s |-> "ident", x |-> x]
SKey(x) == [s |-> "key", x |-> x]
Omitted == [s |-> "omit"]

(* nodes with the same name, in the order of the first of them *)
Firsts(ns) == SelectSeq([i \in DOMAIN ns |-> i], LAMBDA i : \A j \in 1..(i - 1) : ns[j].m # ns[i].m)
Groups(ns) ==
  LET f == Firsts(ns) IN
  [j \in DOMAIN f |->
     LET same == SelectSeq(ns, LAMBDA n : n.m = ns[f[j]].m) IN
     <<ns[f[j]].m, IF Len(same) = 1 THEN SNode(same[1]) ELSE SGroup(same)>>]

(* What a struct or map finds in a node: names and where their values are.  F = <<the set of     *)
(* fields>>, none for maps.  A variant's struct fields may find the entries on the node around.  *)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
If(c, x) == IF c THEN <<x>> ELSE <<>>
NodeEntries(n, outer, F, order) ==
  LET away == outer # <<>> /\ n.e = <<>> /\ n.y = <<>>
      h == IF away THEN outer[1] ELSE n
      fs == IF F = <<>> THEN {} ELSE F[1]
      args == Args(h)
      props == Props(h)
      Own(p) == PropField(p.k[1]) \in fs
      Rest == SelectSeq([i \in DOMAIN args |-> i], LAMBDA i : ArgField(i - 1) \notin fs)
      named == If(NameField \in fs, <<NameField, SName(n.m)>>) \o If(TypeField \in fs /\ h.y # <<>>, <<TypeField, SName(IF h.y = <<>> THEN <<>> ELSE h.y[1])>>)
      indexed == Flatten([i \in DOMAIN args |->
                   If(args[i].y # <<>> /\ (ArgField(i - 1) \o TypeSuffix) \in fs, <<ArgField(i - 1) \o TypeSuffix, SName(IF args[i].y = <<>> THEN <<>> ELSE args[i].y[1])>>)
                   \o If(ArgField(i - 1) \in fs, <<ArgField(i - 1), SVal(args[i].v)>>)])
      all == If(ArgsField \in fs, <<ArgsField, SArgs([i \in DOMAIN args |-> args[i].v])>>)
             \o If(RestField \in fs, <<RestField, SArgs([j \in DOMAIN Rest |-> args[Rest[j]].v])>>)
      keyed == Flatten([i \in DOMAIN props |->
                 LET p == props[i]  f == PropField(p.k[1]) IN
                 If(p.y # <<>> /\ (f \o TypeSuffix) \in fs, <<f \o TypeSuffix, SName(IF p.y = <<>> THEN <<>> ELSE p.y[1])>>)
                 \o (IF f \in fs THEN <<<<f, SVal(p.v)>>>> ELSE IF away THEN <<>> ELSE <<<<p.k[1], SVal(p.v)>>>>)])
      inner == IF n.c = <<>> THEN <<>> ELSE Groups(n.c[1])
      used == {keyed[i][1] : i \in DOMAIN keyed} \cup {inner[i][1] : i \in DOMAIN inner}
      left == SelectSeq(order, LAMBDA x : x \notin used /\ (x = <<>> \/ x[1] # 35))
  IN named \o indexed \o all \o keyed \o inner \o [i \in DOMAIN left |-> <<left[i], Omitted>>]

(* ---- what is given to the type, depending on what the type asks for ---- *)
ValEvent(v) ==
  CASE v.t = "s" -> [ev |-> "str", x |-> v.s]
    [] v.t = "i" -> [ev |-> "int", i |-> v]
    [] v.t = "f" -> [ev |-> "flt", i |-> v]
    [] v.t = "b" -> [ev |-> "bool", b |-> v.b]
    [] v.t = "z" -> [ev |-> "unit"]
NoEvent == [ev |-> "error"]
SeqEvent(srcs) == [ev |-> "seq", of |-> srcs]
MapEvent(entries) == [ev |-> "map", of |-> entries]
ValSeq(vs) == SeqEvent([i \in DOMAIN vs |-> SVal(vs[i])])
NodeSeq(ns) == SeqEvent([i \in DOMAIN ns |-> SNode(ns[i])])
ArgVals(n) == LET a == Args(n) IN [i \in DOMAIN a |-> a[i].v]
NodeSeqEvent(n) == IF Args(n) # <<>> /\ NoChildren(n) THEN ValSeq(ArgVals(n))
                   ELSE IF n.c # <<>> THEN NodeSeq(n.c[1]) ELSE SeqEvent(<<>>)
FieldNames(fs) == [i \in DOMAIN fs |-> fs[i].n]
Range(s) == {s[i] : i \in DOMAIN s}
NodeMapEvent(n, outer, fs) == MapEvent(NodeEntries(n, outer, <<Range(FieldNames(fs))>>, FieldNames(fs)))
NodeAny(n) ==
  IF IsEmpty(n) THEN [ev |-> "bool", b |-> 1]
  ELSE IF IsScalar(n) THEN ValEvent(Scalar(n))
  ELSE IF n.c = <<>> /\ Len(Args(n)) = Len(n.e) THEN ValSeq(ArgVals(n))
  ELSE MapEvent(NodeEntries(n, <<>>, <<>>, <<>>))
IsNone(n) == IsEmpty(n) \/ (IsScalar(n) /\ Scalar(n).t = "z")
(* a variant: its name, and the node (with the one around it), property or bare string it is told by *)
VNode(n, outer) == [ev |-> "variant", x |-> n.m, by |-> [s |-> "node", nd |-> n, outer |-> outer]]
VStr(x) == [ev |-> "variant", x |-> x, by |-> [s |-> "str"]]
NodeEnum(n) ==
  IF IsScalar(n) /\ Scalar(n).t = "s" THEN VStr(Scalar(n).s)
  ELSE IF n.c # <<>> /\ Len(n.c[1]) = 1 THEN VNode(n.c[1][1], <<n>>)
  ELSE IF n.c = <<>> /\ Args(n) = <<>> /\ Len(Props(n)) = 1
    THEN [ev |-> "variant", x |-> Props(n)[1].k[1], by |-> [s |-> "prop", val |-> Props(n)[1].v]]
  ELSE VNode(n, <<>>)

Given(src, sh) ==
  LET k == sh.k IN
  CASE k = "opt" /\ src.s = "omit" -> [ev |-> "none"]
    [] k = "opt" /\ src.s = "doc" -> IF src.ns = <<>> THEN [ev |-> "none"] ELSE [ev |-> "some"]
    [] k = "opt" /\ src.s = "node" -> IF IsNone(src.nd) THEN [ev |-> "none"] ELSE [ev |-> "some"]
    [] k = "opt" /\ src.s = "val" -> IF src.val.t = "z" THEN [ev |-> "none"] ELSE [ev |-> "some"]
    [] k = "opt" /\ src.s = "args" -> IF src.vals = <<>> THEN [ev |-> "none"] ELSE [ev |-> "some"]
    [] k = "opt" -> [ev |-> "some"]
    [] k = "new" -> [ev |-> "new"]
    [] src.s = "doc" ->
         (CASE k \in {"seq", "tup"} -> NodeSeq(src.ns)
            [] k = "unit" -> [ev |-> "unit"]
            [] k = "enum" -> IF Len(src.ns) # 1 THEN NoEvent
                             ELSE IF src.ns[1].m = Dash /\ \A i \in DOMAIN sh.v : sh.v[i].n # Dash THEN NodeEnum(src.ns[1])
                             ELSE VNode(src.ns[1], <<>>)
            [] OTHER -> MapEvent(Groups(src.ns)))
    [] src.s = "node" ->
         (CASE k \in {"seq", "tup"} -> NodeSeqEvent(src.nd)
            [] k = "unit" -> [ev |-> "unit"]
            [] k = "enum" -> NodeEnum(src.nd)
            [] k = "rec" -> NodeMapEvent(src.nd, <<>>, sh.f)
            [] k = "map" -> MapEvent(NodeEntries(src.nd, <<>>, <<>>, <<>>))
            [] OTHER -> NodeAny(src.nd))
    [] src.s = "group" -> NodeSeq(src.ns)
    [] src.s = "args" -> ValSeq(src.vals)
    [] src.s = "omit" -> [ev |-> "bool", b |-> 0]
    [] src.s = "val" -> IF k = "enum" THEN (IF src.val.t = "s" THEN VStr(src.val.s) ELSE NoEvent) ELSE ValEvent(src.val)
    [] src.s \in {"ident", "key"} ->
         IF k = "enum" THEN VStr(src.x)
         ELSE IF src.s = "key" /\ k = "int" /\ KeyInt(sh.w, src.x) # Err THEN [ev |-> "keyint", v |-> KeyInt(sh.w, src.x)[1]]
         ELSE IF src.s = "key" /\ k = "bool" /\ src.x \in {TrueCps, FalseCps} THEN [ev |-> "bool", b |-> IF src.x = TrueCps THEN 1 ELSE 0]
         ELSE [ev |-> "str", x |-> src.x]

(* ---- what the type makes of it ---- *)
AllOk(rs) == \A i \in DOMAIN rs : rs[i] # Err
Firstly(rs) == [i \in DOMAIN rs |-> rs[i][1]]
RECURSIVE PutAll(_, _)
Put(m, kv) == IF \E i \in DOMAIN m : m[i][1] = kv[1] THEN [i \in DOMAIN m |-> IF m[i][1] = kv[1] THEN kv ELSE m[i]] ELSE Append(m, kv)
PutAll(m, kvs) == IF kvs = <<>> THEN m ELSE PutAll(Put(m, Head(kvs)), Tail(kvs))

RECURSIVE Default(_)
Default(sh) ==
  CASE sh.k = "bool" -> [k |-> "bool", b |-> 0]
    [] sh.k = "int" -> [k |-> "int", n |-> 0, d |-> <<0>>]
    [] sh.k = "flt" -> [k |-> "flt", f |-> "0"]
    [] sh.k = "char" -> [k |-> "str", s |-> <<0>>]
    [] sh.k = "str" -> [k |-> "str", s |-> <<>>]
    [] sh.k \in {"unit", "any"} -> [k |-> "unit"]
    [] sh.k = "opt" -> [k |-> "none"]
    [] sh.k = "new" -> [k |-> "new", w |-> Default(sh.of)]
    [] sh.k = "seq" -> [k |-> "seq", q |-> <<>>]
    [] sh.k = "map" -> [k |-> "map", m |-> <<>>]
    [] sh.k = "tup" -> [k |-> "seq", q |-> [i \in DOMAIN sh.of |-> Default(sh.of[i])]]
    [] sh.k = "rec" -> [k |-> "rec", r |-> [i \in DOMAIN sh.f |-> Default(sh.f[i].of)]]
    [] sh.k = "enum" -> [k |-> "unit"]

AnyShape == [k |-> "any"]
StrShape == [k |-> "str"]

(* nd = 1: an omitted field with a default has its default, even inside of a node *)
RECURSIVE De(_, _, _), Fields(_, _, _, _), Tuple(_, _, _), Variant(_, _, _)
De(nd, sh, src) ==
  LET g == Given(src, sh) e == g.ev k == sh.k IN
  CASE e = "error" -> Err
    [] k = "opt" -> IF e = "some" THEN LET r == De(nd, sh.of, src) IN IF r = Err THEN Err ELSE Ok([k |-> "some", o |-> r[1]])
                    ELSE Ok([k |-> "none"])
    [] k = "new" -> LET r == De(nd, sh.of, src) IN IF r = Err THEN Err ELSE Ok([k |-> "new", w |-> r[1]])
    [] k \in {"bool", "any"} /\ e = "bool" -> Ok([k |-> "bool", b |-> g.b])
    [] k = "int" /\ e = "keyint" -> Ok(g.v)
    [] k = "int" /\ e = "int" -> IF InInt(sh.w, g.i.n, g.i.d) /\ (sh.w \in {"i128", "u128"} \/ ~Wide(g.i.n, g.i.d))
                                 THEN Ok([k |-> "int", n |-> g.i.n, d |-> g.i.d]) ELSE Err
    [] k = "any" /\ e = "int" -> Ok([k |-> "int", n |-> g.i.n, d |-> g.i.d])
    [] k = "flt" /\ e = "int" -> IF Wide(g.i.n, g.i.d) THEN Err ELSE Ok([k |-> "flt", f |-> IF sh.w = 32 THEN g.i.s ELSE g.i.b])
    [] k = "flt" /\ e = "flt" -> Ok([k |-> "flt", f |-> IF sh.w = 32 THEN g.i.s ELSE g.i.b])
    [] k = "any" /\ e = "flt" -> Ok([k |-> "flt", f |-> g.i.b])
    [] k \in {"str", "any"} /\ e = "str" -> Ok([k |-> "str", s |-> g.x])
    [] k = "char" /\ e = "str" -> IF Len(g.x) = 1 THEN Ok([k |-> "str", s |-> g.x]) ELSE Err
    [] k \in {"unit", "any"} /\ e = "unit" -> Ok([k |-> "unit"])
    [] k \in {"seq", "any"} /\ e = "seq" ->
         LET rs == [i \in DOMAIN g.of |-> De(nd, IF k = "any" THEN AnyShape ELSE sh.of, g.of[i])] IN
         IF AllOk(rs) THEN Ok([k |-> "seq", q |-> Firstly(rs)]) ELSE Err
    [] k = "tup" /\ e = "seq" -> LET r == Tuple(nd, sh.of, g.of) IN IF r = Err THEN Err ELSE Ok([k |-> "seq", q |-> r[1]])
    [] k \in {"map", "any"} /\ e = "map" ->
         LET ks == [i \in DOMAIN g.of |-> De(nd, IF k = "any" THEN StrShape ELSE sh.key, SKey(g.of[i][1]))]
             vs == [i \in DOMAIN g.of |-> De(nd, IF k = "any" THEN AnyShape ELSE sh.of, g.of[i][2])]
         IN IF AllOk(ks) /\ AllOk(vs) THEN Ok([k |-> "map", m |-> PutAll(<<>>, [i \in DOMAIN ks |-> <<ks[i][1], vs[i][1]>>])]) ELSE Err
    [] k = "rec" /\ e = "map" -> LET r == Fields(nd, sh.f, sh.deny, g.of) IN IF r = Err THEN Err ELSE Ok([k |-> "rec", r |-> r[1]])
    [] k = "rec" /\ e = "seq" ->
         LET rs == [i \in DOMAIN sh.f |-> IF i <= Len(g.of) THEN De(nd, sh.f[i].of, g.of[i]) ELSE IF sh.f[i].d = 1 THEN Ok(Default(sh.f[i].of)) ELSE Err] IN
         IF AllOk(rs) THEN Ok([k |-> "rec", r |-> Firstly(rs)]) ELSE Err
    [] k = "enum" /\ e = "variant" ->
         LET is == {i \in DOMAIN sh.v : sh.v[i].n = g.x} IN
         IF is = {} THEN Err
         ELSE LET i == CHOOSE i \in is : TRUE  r == Variant(nd, sh.v[i].p, g.by) IN
              IF r = Err THEN Err ELSE Ok([k |-> "var", i |-> i - 1, p |-> r[1]])
    [] OTHER -> Err

Tuple(nd, shs, srcs) ==
  IF Len(srcs) < Len(shs) THEN Err
  ELSE LET rs == [i \in DOMAIN shs |-> De(nd, shs[i], srcs[i])] IN IF AllOk(rs) THEN Ok(Firstly(rs)) ELSE Err

Fields(nd, fs, deny, entries) ==
  LET known == Range(FieldNames(fs))
      At(x) == SelectSeq(entries, LAMBDA en : en[1] = x)
      One(f) == LET a == At(f.n) IN
        IF Len(a) > 1 THEN Err
        ELSE IF Len(a) = 1 THEN (IF nd = 1 /\ a[1][2].s = "omit" /\ f.d = 1 THEN Ok(Default(f.of)) ELSE De(nd, f.of, a[1][2]))
        ELSE IF f.d = 1 THEN Ok(Default(f.of))
        ELSE IF f.of.k = "opt" THEN Ok([k |-> "none"]) ELSE Err
      rs == [i \in DOMAIN fs |-> One(fs[i])]
  IN IF (deny = 1 /\ \E i \in DOMAIN entries : entries[i][1] \notin known) \/ ~AllOk(rs) THEN Err ELSE Ok(Firstly(rs))

Variant(nd, p, by) ==
  CASE p.k = "none" -> Ok(<<>>)
    [] p.k = "one" -> IF by.s = "str" THEN Err
                      ELSE LET r == De(nd, p.of, IF by.s = "prop" THEN SVal(by.val) ELSE SNode(by.nd)) IN IF r = Err THEN Err ELSE Ok(<<r[1]>>)
    [] by.s # "node" -> Err
    [] p.k = "tup" -> Tuple(nd, p.of, NodeSeqEvent(by.nd).of)
    [] p.k = "rec" -> Fields(nd, p.f, 0, NodeMapEvent(by.nd, by.outer, p.f).of)

(* ======================= the other way: values to documents ======================= *)
KNull == [t |-> "z"]
KStr(x) == [t |-> "s", s |-> x]
Node(x, y, es, c) == [y |-> y, m |-> x, e |-> es, c |-> c]
Arg(v) == [k |-> <<>>, y |-> <<>>, v |-> v]

(* as one value *)
RECURSIVE SerVal(_, _)
SerVal(sh, v) ==
  CASE v.k = "bool" -> Ok([t |-> "b", b |-> v.b])
    [] v.k = "int" -> IF Wide(v.n, v.d) THEN Err ELSE Ok([t |-> "i", n |-> v.n, d |-> v.d, b |-> "?", s |-> "?"])
    [] v.k = "flt" -> Ok([t |-> "f", b |-> v.f, s |-> v.f])
    [] v.k = "str" -> Ok(KStr(v.s))
    [] v.k \in {"unit", "none"} -> Ok(KNull)
    [] v.k = "some" -> LET r == SerVal(sh.of, v.o) IN IF r = Err \/ r = Ok(KNull) THEN Err ELSE r
    [] v.k = "new" -> SerVal(sh.of, v.w)
    [] v.k = "var" /\ sh.v[v.i + 1].p.k = "none" -> Ok(KStr(sh.v[v.i + 1].n))
    [] OTHER -> Err
SerVals(shs, vs) == LET rs == [i \in DOMAIN vs |-> SerVal(shs[i], vs[i])] IN IF AllOk(rs) THEN Ok(Firstly(rs)) ELSE Err

RECURSIVE IntCps(_)
IntCps(v) == (IF v.n = 1 THEN <<45>> ELSE <<>>) \o [i \in DOMAIN v.d |-> v.d[i] + 48]
RECURSIVE SerKey(_, _)
SerKey(sh, v) ==
  CASE v.k = "bool" -> Ok(IF v.b = 1 THEN TrueCps ELSE FalseCps)
    [] v.k = "int" -> Ok(IntCps(v))
    [] v.k = "str" -> Ok(v.s)
    [] v.k = "some" -> SerKey(sh.of, v.o)
    [] v.k = "new" -> SerKey(sh.of, v.w)
    [] v.k = "var" /\ sh.v[v.i + 1].p.k = "none" -> Ok(sh.v[v.i + 1].n)
    [] OTHER -> Err

(* a name in a # field: none, or a string *)
RECURSIVE SerName(_, _)
SerName(sh, v) == LET r == SerVal(sh, v) IN
  IF r = Err THEN Err ELSE IF r[1].t = "z" THEN Ok(<<>>) ELSE IF r[1].t = "s" THEN Ok(<<r[1].s>>) ELSE Err
(* the arguments in #args and #rest: none, or a sequence *)
RECURSIVE SerArgs(_, _)
SerArgs(sh, v) ==
  CASE v.k = "none" -> Ok(<<>>)
    [] v.k = "new" -> SerArgs(sh.of, v.w)
    [] v.k = "some" -> LET r == SerArgs(sh.of, v.o) IN IF r = Ok(<<>>) THEN Err ELSE r
    [] v.k = "seq" /\ sh.k = "seq" -> SerVals([i \in DOMAIN v.q |-> sh.of], v.q)
    [] v.k = "seq" /\ sh.k = "tup" -> SerVals(sh.of, v.q)
    [] OTHER -> Err

(* told by not being there *)
RECURSIVE Absent(_)
Absent(v) == v.k = "none" \/ (v.k = "bool" /\ v.b = 0) \/ (v.k = "new" /\ Absent(v.w))

IsHash(x) == x # <<>> /\ x[1] = 35
EndsInType(x) == Len(x) >= 5 /\ SubSeq(x, Len(x) - 4, Len(x)) = TypeSuffix
IsIndex(x) == Len(x) > 1 /\ IsDigits(Tail(x))
IndexOf(x) == LET d == StripZeros([i \in 1..(Len(x) - 1) |-> x[i + 1] - 48]) IN IF Len(d) > 6 THEN 999999 ELSE SmallNum(d, 0)
IsPropField(x) == Len(x) >= 2 /\ x[2] = 64 /\ ~EndsInType(x)

(* the entries and the type annotation that the # fields of a struct stand for *)
(* name = the node's, fs = fields, vs = their values; err or <<type, entries>> *)
HashFields(name, fs, vs) ==
  LET Named(x) == {i \in DOMAIN fs : fs[i].n = x}
      The(S) == CHOOSE i \in S : TRUE
      NameOf(x) == IF Named(x) = {} THEN Ok(<<>>) ELSE SerName(fs[The(Named(x))].of, vs[The(Named(x))])
      ArgsOf(x) == IF Named(x) = {} THEN Ok(<<>>) ELSE SerArgs(fs[The(Named(x))].of, vs[The(Named(x))])
      hasArgs == Named(ArgsField) # {}
      hasRest == Named(RestField) # {}
      idx == {i \in DOMAIN fs : IsHash(fs[i].n) /\ IsIndex(fs[i].n)}
      ival == [i \in idx |-> SerVal(fs[i].of, vs[i])]
      props == SelectSeq([i \in DOMAIN fs |-> i], LAMBDA i : IsHash(fs[i].n) /\ IsPropField(fs[i].n))
      pval == [j \in DOMAIN props |-> SerVal(fs[props[j]].of, vs[props[j]])]
      types == {i \in DOMAIN fs : IsHash(fs[i].n) /\ fs[i].n # TypeField /\ EndsInType(fs[i].n)}
      tval == [i \in types |-> SerName(fs[i].of, vs[i])]
      BaseOf(i) == SubSeq(fs[i].n, 1, Len(fs[i].n) - 5)
      TypeFor(x) == LET is == {i \in types : BaseOf(i) = x} IN IF is = {} THEN <<>> ELSE tval[The(is)][1]
      nm == NameOf(NameField)
      ty == NameOf(TypeField)
      as == ArgsOf(ArgsField)
      rs == ArgsOf(RestField)
      fine == nm # Err /\ ty # Err /\ as # Err /\ rs # Err /\ (\A i \in idx : ival[i] # Err) /\ (\A i \in types : tval[i] # Err) /\ AllOk(pval)
      At(j) == {i \in idx : IndexOf(fs[i].n) = j}
      (* without #args: indexed ones at their places, the rest between and after them *)
      total == (Cardinality(idx) + Len(rs[1]))
      restBefore(j) == Cardinality({x \in 0..(j - 1) : At(x) = {}})
      mixed == [j \in 1..total |-> IF At(j - 1) # {} THEN ival[The(At(j - 1))][1] ELSE rs[1][restBefore(j - 1) + 1]]
      mixedOk == \A i \in idx : IndexOf(fs[i].n) < total
      (* with #args: these, and the others agree *)
      argsOk == /\ \A i \in idx : IF IndexOf(fs[i].n) < Len(as[1]) THEN ival[i][1] = as[1][IndexOf(fs[i].n) + 1] ELSE ival[i][1] = KNull
                /\ hasRest => rs[1] = Firstly([x \in 1..Cardinality({j \in DOMAIN as[1] : At(j - 1) = {}}) |->
                      <<as[1][CHOOSE j \in DOMAIN as[1] : At(j - 1) = {} /\ Cardinality({y \in 1..j : At(y - 1) = {}}) = x]>>])
      args == IF hasArgs THEN as[1] ELSE mixed
  IN IF ~fine THEN Err
     ELSE IF Named(NameField) # {} /\ nm[1] # <<name>> THEN Err
     ELSE IF ~(IF hasArgs THEN argsOk ELSE mixedOk) THEN Err
     ELSE IF \E i \in types : tval[i][1] # <<>> /\ ~(\/ \E j \in DOMAIN args : BaseOf(i) = ArgField(j - 1)
                                                    \/ \E j \in DOMAIN props : fs[props[j]].n = BaseOf(i)) THEN Err
     ELSE Ok(<<ty[1],
               [j \in DOMAIN args |-> [k |-> <<>>, y |-> TypeFor(ArgField(j - 1)), v |-> args[j]]]
               \o [j \in DOMAIN props |-> [k |-> <<SubSeq(fs[props[j]].n, 3, Len(fs[props[j]].n))>>, y |-> TypeFor(fs[props[j]].n), v |-> pval[j][1]]]>>)

(* a value as the content of a node; some: it's inside of a Some *)
RECURSIVE SerNode(_, _, _, _), SerChildren(_, _), SerVariant(_, _, _)
SerNode(name, some, sh, v) ==
  CASE v.k \in {"bool", "int", "flt", "str", "unit"} -> LET r == SerVal(sh, v) IN IF r = Err THEN Err ELSE Ok(Node(name, <<>>, <<Arg(r[1])>>, <<>>))
    [] v.k = "none" -> IF some THEN Err ELSE Ok(Node(name, <<>>, <<Arg(KNull)>>, <<>>))
    [] v.k = "some" ->
         LET r == SerNode(name, TRUE, sh.of, v.o) IN
         IF r = Err THEN Err
         ELSE IF r[1].e = <<>> \/ (Len(r[1].e) = 1 /\ r[1].e[1].k = <<>> /\ r[1].e[1].v = KNull)
         THEN Ok([r[1] EXCEPT !.c = IF @ = <<>> THEN <<<<>>>> ELSE @]) ELSE r
    [] v.k = "new" -> SerNode(name, some, sh.of, v.w)
    [] v.k = "seq" -> LET r == SerVals(IF sh.k = "tup" THEN sh.of ELSE [i \in DOMAIN v.q |-> sh.of], v.q) IN
                      IF r = Err THEN Err ELSE Ok(Node(name, <<>>, [i \in DOMAIN r[1] |-> Arg(r[1][i])], <<>>))
    [] v.k = "map" ->
         LET rs == [i \in DOMAIN v.m |-> LET x == SerKey(sh.key, v.m[i][1]) IN IF x = Err THEN Err ELSE SerNode(x[1], FALSE, sh.of, v.m[i][2])] IN
         IF AllOk(rs) THEN Ok(Node(name, <<>>, <<>>, IF rs = <<>> THEN <<>> ELSE <<Firstly(rs)>>)) ELSE Err
    [] v.k = "rec" ->
         LET h == HashFields(name, sh.f, v.r)  c == SerChildren(sh.f, v.r) IN
         IF h = Err \/ c = Err THEN Err ELSE Ok(Node(name, h[1][1], h[1][2], c[1]))
    [] v.k = "var" ->
         LET w == sh.v[v.i + 1] IN
         IF w.p.k = "none" THEN Ok(Node(name, <<>>, <<Arg(KStr(w.n))>>, <<>>))
         ELSE IF w.p.k = "rec" THEN
           LET h == HashFields(w.n, w.p.f, v.p)  c == SerChildren(w.p.f, v.p) IN
           IF h = Err \/ c = Err THEN Err ELSE Ok(Node(name, h[1][1], h[1][2], <<<<Node(w.n, <<>>, <<>>, c[1])>>>>))
         ELSE LET r == SerVariant(w.n, w.p, v.p) IN IF r = Err THEN Err ELSE Ok(Node(name, <<>>, <<>>, <<<<r[1]>>>>))
SerChildren(fs, vs) ==
  LET ix == SelectSeq([i \in DOMAIN fs |-> i], LAMBDA i : ~IsHash(fs[i].n))
      rs == [j \in DOMAIN ix |-> SerNode(fs[ix[j]].n, FALSE, fs[ix[j]].of, vs[ix[j]])]
      there == SelectSeq([j \in DOMAIN ix |-> j], LAMBDA j : ~Absent(vs[ix[j]]))
  IN IF ~AllOk(rs) THEN Err ELSE Ok(IF ix = <<>> THEN <<>> ELSE <<[j \in DOMAIN there |-> rs[there[j]][1]]>>)
SerVariant(name, p, vs) ==
  CASE p.k = "one" -> LET r == SerVal(p.of, vs[1]) IN IF r = Err THEN Err ELSE Ok(Node(name, <<>>, <<Arg(r[1])>>, <<>>))
    [] p.k = "tup" -> LET r == SerVals(p.of, vs) IN IF r = Err THEN Err ELSE Ok(Node(name, <<>>, [i \in DOMAIN r[1] |-> Arg(r[1][i])], <<>>))

(* as a whole document *)
RECURSIVE Ser(_, _)
Ser(sh, v) ==
  CASE v.k \in {"bool", "int", "flt", "str"} -> LET r == SerNode(Dash, FALSE, sh, v) IN IF r = Err THEN Err ELSE Ok(<<r[1]>>)
    [] v.k \in {"unit", "none"} -> Ok(<<>>)
    [] v.k = "some" -> Ser(sh.of, v.o)
    [] v.k = "new" -> Ser(sh.of, v.w)
    [] v.k = "seq" -> LET rs == [i \in DOMAIN v.q |-> SerNode(Dash, FALSE, IF sh.k = "tup" THEN sh.of[i] ELSE sh.of, v.q[i])] IN
                      IF AllOk(rs) THEN Ok(Firstly(rs)) ELSE Err
    [] v.k = "map" ->
         LET rs == [i \in DOMAIN v.m |-> LET x == SerKey(sh.key, v.m[i][1]) IN IF x = Err THEN Err ELSE SerNode(x[1], FALSE, sh.of, v.m[i][2])] IN
         IF AllOk(rs) THEN Ok(Firstly(rs)) ELSE Err
    [] v.k = "rec" ->
         LET rs == [i \in DOMAIN sh.f |-> SerNode(sh.f[i].n, FALSE, sh.f[i].of, v.r[i])]
             there == SelectSeq([i \in DOMAIN sh.f |-> i], LAMBDA i : ~Absent(v.r[i]))
         IN IF AllOk(rs) THEN Ok([j \in DOMAIN there |-> rs[there[j]][1]]) ELSE Err
    [] v.k = "var" ->
         LET w == sh.v[v.i + 1] IN
         IF w.p.k = "none" THEN Ok(<<Node(Dash, <<>>, <<Arg(KStr(w.n))>>, <<>>)>>)
         ELSE IF w.p.k = "rec" THEN
           LET h == HashFields(w.n, w.p.f, v.p)  c == SerChildren(w.p.f, v.p) IN
           IF h = Err \/ c = Err THEN Err ELSE Ok(<<Node(w.n, h[1][1], h[1][2], c[1])>>)
         ELSE LET r == SerVariant(w.n, w.p, v.p) IN IF r = Err THEN Err ELSE Ok(<<r[1]>>)

(* Fields of the document itself are not there when they are false, and are *)
(* missed when there's no default (see known-findings.txt).                 *)
ReadsAbsent(f) == f.d = 1 \/ f.of.k = "opt"
RECURSIVE Unwrap(_, _)
Unwrap(sh, v) == IF v.k = "new" THEN Unwrap(sh.of, v.w) ELSE IF v.k = "some" THEN Unwrap(sh.of, v.o) ELSE <<sh, v>>
LeftOutAtRoot(sh, v) ==
  LET u == Unwrap(sh, v) IN
  u[2].k = "rec" /\ \E i \in DOMAIN u[1].f : Absent(u[2].r[i]) /\ ~ReadsAbsent(u[1].f[i])
=============================================================================
