------------------------------ MODULE GenSerde ------------------------------
(* Types and values of them, built up a field at a time, and the promise     *)
(* that what's written for a value is read back as that value.  Each is      *)
(* printed as a plan for the real serializer, and each document that comes   *)
(* of it as one for the real deserializer of another type.                   *)
EXTENDS KdlSerde, Integers, TLC, TLCExt, Json, IOUtils
K == atoi(IOEnv.KDL_FIELDS)
OneIn == atoi(IOEnv.KDL_ONE_IN)          \* so many of the plans are printed
Picked == OneIn = 1 \/ RandomElement(1..OneIn) = 1

Sh(k) == [k |-> k]
Bool == Sh("bool")  Str == Sh("str")  Unit == Sh("unit")
U8 == [k |-> "int", w |-> "u8"]
Opt(s) == [k |-> "opt", of |-> s]
New(s) == [k |-> "new", of |-> s]
Seq1(s) == [k |-> "seq", of |-> s]
MapOf(s) == [k |-> "map", key |-> Str, of |-> s]
F(n, of) == [n |-> n, of |-> of, d |-> 0]
Rec(fs) == [k |-> "rec", f |-> fs, deny |-> 0]
A == <<97>>  B == <<98>>  CapA == <<65>>
At0 == ArgField(0)  At1 == ArgField(1)  PropP == PropField(<<112>>)
Enum1(p) == [k |-> "enum", v |-> <<[n |-> CapA, p |-> p]>>]
Kinds == [k |-> "enum", v |-> <<[n |-> CapA, p |-> Sh("none")], [n |-> B, p |-> [k |-> "one", of |-> Opt(Bool)]],
                                [n |-> <<67>>, p |-> [k |-> "tup", of |-> <<U8, Opt(Str)>>]],
                                [n |-> <<68>>, p |-> Rec(<<F(At0, Bool), F(A, Opt(Bool))>>)]>>]
Twice(S) == S \cup {Opt(s) : s \in S} \cup {New(s) : s \in S}
ChildTypes == Twice({Bool, Unit, Str, Seq1(U8), Kinds, Rec(<<>>), Rec(<<F(A, Bool)>>), Rec(<<F(PropP, Opt(Bool))>>), MapOf(Bool)})
              \cup {Opt(Opt(Bool)), New(Opt(Str)), Seq1(Opt(Bool)), MapOf(Opt(Unit)), Seq1(Seq1(U8))}
Entry == {Bool, Opt(U8), Str}
Many == {Seq1(Opt(U8)), Opt(Seq1(U8)), New(Seq1(Str))}
Names == {Str, Opt(Str)}
Types(n) ==
  CASE n = A -> ChildTypes
    [] n = B -> {Bool, Opt(Str)}
    [] n \in {At0, At1, PropP} -> Entry
    [] n \in {ArgsField, RestField} -> Many
    [] OTHER -> Names
FieldNamesAll == {A, B, At0, At1, ArgsField, RestField, PropP, TypeField, NameField, At0 \o TypeSuffix, PropP \o TypeSuffix}

RECURSIVE Vals(_), Across(_)
Across(shs) == IF shs = <<>> THEN {<<>>} ELSE {<<v>> \o r : v \in Vals(Head(shs)), r \in Across(Tail(shs))}
Vals(sh) ==
  CASE sh.k = "bool" -> {[k |-> "bool", b |-> 0], [k |-> "bool", b |-> 1]}
    [] sh.k = "int" -> {[k |-> "int", n |-> 0, d |-> <<7>>]}
    [] sh.k = "str" -> {[k |-> "str", s |-> A]}
    [] sh.k = "unit" -> {[k |-> "unit"]}
    [] sh.k = "opt" -> {[k |-> "none"]} \cup {[k |-> "some", o |-> v] : v \in Vals(sh.of)}
    [] sh.k = "new" -> {[k |-> "new", w |-> v] : v \in Vals(sh.of)}
    [] sh.k = "seq" -> LET V == Vals(sh.of) IN {[k |-> "seq", q |-> q] : q \in {<<>>} \cup {<<v>> : v \in V} \cup {<<v, w>> : v, w \in V}}
    [] sh.k = "map" -> {[k |-> "map", m |-> <<>>]} \cup {[k |-> "map", m |-> <<<<[k |-> "str", s |-> B], v>>>>] : v \in Vals(sh.of)}
    [] sh.k = "rec" -> {[k |-> "rec", r |-> r] : r \in Across([i \in DOMAIN sh.f |-> sh.f[i].of])}
    [] sh.k = "enum" -> UNION {LET p == sh.v[i].p IN
         {[k |-> "var", i |-> i - 1, p |-> x] :
            x \in CASE p.k = "none" -> {<<>>}
                    [] p.k = "one" -> {<<v>> : v \in Vals(p.of)}
                    [] p.k = "tup" -> Across(p.of)
                    [] p.k = "rec" -> Across([j \in DOMAIN p.f |-> p.f[j].of])} : i \in DOMAIN sh.v}

(* where the struct is *)
Places == {"root", "field", "some", "variant", "fieldvariant", "somevariant", "entry", "list"}
Placed(pl, sh) ==
  CASE pl = "root" -> sh
    [] pl = "field" -> Rec(<<F(A, sh)>>)
    [] pl = "some" -> Rec(<<F(A, Opt(sh))>>)
    [] pl = "variant" -> Enum1(sh)
    [] pl = "fieldvariant" -> Rec(<<F(A, Enum1(sh))>>)
    [] pl = "somevariant" -> Rec(<<F(A, Opt(Enum1(sh)))>>)
    [] pl = "entry" -> MapOf(sh)
    [] pl = "list" -> Seq1(sh)

VARIABLES fs, pl, v
gvars == <<fs, pl, v>>
Open == "open"
GInit == fs = <<>> /\ pl = Open /\ v = <<>>
AddField == pl = Open /\ Len(fs) < K /\ \E n \in FieldNamesAll \ Range(FieldNames(fs)) : \E t \in Types(n) : fs' = Append(fs, F(n, t)) /\ UNCHANGED <<pl, v>>
(* fields of the document itself are children only *)
Place == pl = Open /\ \E p \in Places : (p = "root" => \A i \in DOMAIN fs : ~IsHash(fs[i].n)) /\ pl' = p /\ UNCHANGED <<fs, v>>
Shape == Placed(pl, Rec(fs))
Choose == pl # Open /\ v = <<>> /\ \E x \in Vals(Shape) : v' = <<x>> /\ UNCHANGED <<fs, pl>>
Doc == Ser(Shape, v[1])
(* another type to read the document as, one of its own fields *)
Others == IF fs = <<>> THEN {} ELSE {Rec(<<F(A, fs[1].of)>>), MapOf(fs[Len(fs)].of), Placed("field", Rec(<<fs[Len(fs)]>>))}
Over == /\ v # <<>> /\ pl # "over"
        /\ Picked => PrintT("PLAN " \o ToJson([sh |-> Shape, v |-> v[1]]))
        /\ Doc # Err /\ Picked => \A o \in Others : PrintT("PLAN " \o ToJson([sh |-> o, doc |-> Doc[1]]))
        /\ pl' = "over" /\ UNCHANGED <<fs, v>>
GSpec == GInit /\ [][AddField \/ Place \/ Choose \/ Over]_gvars

(* ---- what the specification promises ------------------------------------------ *)
Chosen == v # <<>> /\ pl # "over"
RoundTrip == Chosen /\ Doc # Err => De(0, Shape, SDoc(Doc[1])) = Ok(v[1]) \/ LeftOutAtRoot(Shape, v[1])
(* An error is for values that have no place only.  For types without # fields, these are:   *)
(* compound values where there's but an argument, and Some of something that looks like None. *)
RECURSIVE Nothing(_)
Nothing(x) == x.k \in {"none", "unit"} \/ (x.k = "new" /\ Nothing(x.w)) \/ (x.k = "some" /\ Nothing(x.o))
RECURSIVE HasNoneIn(_)
HasNoneIn(x) == x.k = "none" \/ (x.k = "new" /\ HasNoneIn(x.w)) \/ (x.k = "some" /\ HasNoneIn(x.o))
RECURSIVE FitsArg(_, _), Fits(_, _)
FitsArg(sh, x) ==
  CASE x.k \in {"bool", "int", "flt", "str", "unit", "none"} -> TRUE
    [] x.k = "some" -> ~Nothing(x.o) /\ FitsArg(sh.of, x.o)
    [] x.k = "new" -> FitsArg(sh.of, x.w)
    [] x.k = "var" -> sh.v[x.i + 1].p.k = "none"
    [] OTHER -> FALSE
Fits(sh, x) ==
  CASE x.k \in {"bool", "int", "flt", "str", "unit", "none"} -> TRUE
    [] x.k = "some" -> ~HasNoneIn(x.o) /\ Fits(sh.of, x.o)
    [] x.k = "new" -> Fits(sh.of, x.w)
    [] x.k = "seq" -> \A i \in DOMAIN x.q : FitsArg(IF sh.k = "tup" THEN sh.of[i] ELSE sh.of, x.q[i])
    [] x.k = "map" -> \A i \in DOMAIN x.m : Fits(sh.of, x.m[i][2])
    [] x.k = "rec" -> \A i \in DOMAIN x.r : Fits(sh.f[i].of, x.r[i])
    [] x.k = "var" -> LET p == sh.v[x.i + 1].p IN
                      CASE p.k = "none" -> TRUE
                        [] p.k = "one" -> FitsArg(p.of, x.p[1])
                        [] p.k = "tup" -> \A i \in DOMAIN x.p : FitsArg(p.of[i], x.p[i])
                        [] p.k = "rec" -> \A i \in DOMAIN x.p : Fits(p.f[i].of, x.p[i])
Plain == pl \in {"root", "field", "some", "entry"} /\ \A i \in DOMAIN fs : ~IsHash(fs[i].n)
Written == Chosen /\ Plain => (Doc # Err <=> Fits(Shape, v[1]))
=============================================================================
