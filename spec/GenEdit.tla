------------------------------ MODULE GenEdit -------------------------------
(* Editing sessions as behaviours of the specification: the reader reads a   *)
(* source, then any call may be made on any element, at most K times.  Every *)
(* finished session is printed as a plan for the real objects to follow.     *)
(* Checked on the way: what the contract promises of every call.             *)
EXTENDS KdlReader, SourceTree, EditCases, Json, IOUtils

K == atoi(IOEnv.KDL_STEPS)
Wide == IOEnv.KDL_WIDE = "1"      \* more arguments for every call
SText(i, k) == Sources[i].c
SMode(i, k) == "doc"
SN(i) == 1
SIndices == DOMAIN Sources

VARIABLES doc, plan, nid, last
gvars == <<vars, doc, plan, nid, last>>

GInit == Init /\ doc = EmptyDoc /\ plan = <<>> /\ nid = 0 /\ last = RNone
Read == ~Last /\ Next /\ UNCHANGED <<doc, plan, nid, last>>
Load == /\ Last /\ nid = 0
        /\ doc' = SourceDoc(s, Verdict.v, Verdict.gs) /\ nid' = 1 + Sizes(Verdict.v, 1)
        /\ UNCHANGED <<vars, plan, last>>

(* ---- arguments of calls -------------------------------------------------------- *)
(* names and values as they are given to the real call, and as the specification has them *)
Nm(x, c) == [x |-> x, c |-> c]
As(nm) == [x |-> nm.c, c |-> nm.c]
NA == Nm("a", <<97>>)
NK == Nm("k", <<107>>)
ND == Nm("-", <<45>>)
NZ == Nm("z", <<122>>)
NSp == Nm("c d", <<99, 32, 100>>)
KeyNames == IF Wide THEN {NK, NZ, NA, NSp} ELSE {NK, NZ}
Num(n) == [t |-> "i", n |-> 0, d |-> <<n>>]
Shown(v) == [v |-> v, x |-> <<48 + v.d[1]>>]
EntryRec(id, k, v) == [id |-> id, src |-> 0, k |-> k, y |-> <<>>, v |-> v, lead |-> <<>>, kn |-> IF k = <<>> THEN <<>> ELSE k[1], ak |-> <<>>, ae |-> <<>>,
                       h1 |-> <<40>>, yn |-> <<>>, h2 |-> <<41>>, aft |-> <<>>, vt |-> <<48 + v.d[1]>>, trail |-> <<>>, fm |-> 0]
(* what is given to the real call, and what the specification takes it for *)
NewEntries == {[p |-> [v |-> "7"], r |-> EntryRec(nid, <<>>, Num(7))],
               [p |-> [k |-> "k", v |-> "8"], r |-> EntryRec(nid, <<NK.c>>, Num(8))]}
              \cup (IF Wide THEN {[p |-> [t |-> " /*p*/ 9 "], r |-> [EntryRec(nid, <<>>, Num(9)) EXCEPT !.lead = <<32>>]]} ELSE {})
NodeRec(id, m) == [id |-> id, src |-> 0, m |-> m, y |-> <<>>, e |-> <<>>, c |-> <<>>, lead |-> <<>>, h1 |-> <<40>>, yn |-> <<>>, h2 |-> <<41>>, mn |-> m,
                   bc |-> <<>>, bt |-> <<>>, term |-> <<>>, trail |-> <<10>>, fm |-> 1, prev |-> -1, nk |-> 1]
NewNodes == {[p |-> [m |-> "a"], r |-> NodeRec(nid, NA.c), used |-> 1],
             [p |-> [t |-> "- 7 // x"], r |-> [NodeRec(nid, ND.c) EXCEPT !.e = <<EntryRec(nid + 1, <<>>, Num(7))>>], used |-> 2]}
NewDocs == {[p |-> [nodes |-> <<[m |-> "-"]>>], r |-> [EmptyDoc EXCEPT !.nodes = <<NodeRec(nid, ND.c)>>], used |-> 1],
            [p |-> [t |-> "a // x"], r |-> [EmptyDoc EXCEPT !.nodes = <<NodeRec(nid, NA.c)>>], used |-> 1],
            [p |-> [t |-> ""], r |-> EmptyDoc, used |-> 0]}
Keys(n) == {[p |-> [i |-> i], r |-> [t |-> "i", i |-> i]] : i \in 0..(Len(Args(n)) + IF Wide THEN 1 ELSE 0)}
           \cup {[p |-> [s |-> nm.x], r |-> [t |-> "s", s |-> nm.c, x |-> nm.c]] : nm \in KeyNames}

(* ---- calls ----------------------------------------------------------------------- *)
RECURSIVE DocPaths(_, _), NodePaths(_, _)
NodePaths(d, at) == UNION {{Append(at, i)} \cup (IF d.nodes[i].c = <<>> THEN {} ELSE NodePaths(d.nodes[i].c[1], Append(at, i))) : i \in DOMAIN d.nodes}
DocPaths(d, at) == {at} \cup UNION {IF d.nodes[i].c = <<>> THEN {} ELSE DocPaths(d.nodes[i].c[1], Append(at, i)) : i \in DOMAIN d.nodes}
RECURSIVE NodeAt(_, _)
NodeAt(d, p) == IF Len(p) = 1 THEN d.nodes[p[1]] ELSE NodeAt(d.nodes[p[1]].c[1], Tail(p))
DocAt(d, p) == IF p = <<>> THEN d ELSE NodeAt(d, p).c[1]

(* a call: j is the plan for the real objects, r what the specification applies, u the numbers used up *)
C(j, r, u) == [j |-> j, r |-> r, u |-> u]
Halves(ids) == {SelectSeq(ids, LAMBDA x : x % 2 = 0), SelectSeq(ids, LAMBDA x : x % 2 = 1)}
NodeCalls(p) ==
  LET n == NodeAt(doc, p)
      B(o) == [o |-> o, p |-> p]
      X(o, f) == C(B(o) @@ f, B(o) @@ f, 0)
      V(o, f, g) == C(B(o) @@ f @@ [v |-> "5"], B(o) @@ g @@ [v |-> Shown(Num(5))], 0)
      ks == Keys(n)
      present == {k \in ks : Find(n, k.r) # 0}
  IN {C(B("get") @@ [key |-> k.p, how |-> h], B("get") @@ [key |-> k.r], 0) : k \in ks, h \in IF Wide THEN {"get", "get_mut", "entry_mut"} ELSE {"get_mut"}}
     \cup {C(B("index") @@ [key |-> k.p], B("index") @@ [key |-> k.r], 0) : k \in ks}
     \cup {C(B("index_set") @@ [key |-> k.p, v |-> "5"],
             B("index_set") @@ [key |-> k.r, v |-> Shown(Num(5)), e |-> EntryRec(nid, IF k.r.t = "s" THEN <<k.r.s>> ELSE <<>>, Num(5))], 1) : k \in ks}
     \cup {V("set", [key |-> k.p, how |-> "entry_mut"], [key |-> k.r]) : k \in IF Wide THEN ks ELSE present}
     \cup {C(B("insert") @@ [key |-> k.p, e |-> e.p], B("insert") @@ [key |-> k.r, e |-> e.r], 1) : k \in ks, e \in NewEntries}
     \cup {C(B("push") @@ [e |-> e.p], B("push") @@ [e |-> e.r], 1) : e \in NewEntries}
     \cup {C(B("remove") @@ [key |-> k.p], B("remove") @@ [key |-> k.r], 0) : k \in ks}
     \cup {X("retain", [ids |-> h]) : h \in Halves(IdsOf(n.e))}
     \cup {X("sort", [how |-> h]) : h \in {"asc", "desc"}}
     \cup {X("clear", [how |-> ""])}
     \cup (IF Wide THEN {X(o, [how |-> ""]) : o \in {"len", "iter", "kids"}} ELSE {})
     \cup {X("vremove", [i |-> i]) : i \in DOMAIN n.e}
     \cup (IF Len(n.e) < 2 THEN {} ELSE {X("vswap", [i |-> 1, j |-> Len(n.e)])})
     \cup {C(B("entry_name") @@ [key |-> k.p, how |-> h, name |-> "z"], B("entry_name") @@ [key |-> k.r, how |-> h, name |-> As(NZ)], 0)
             : k \in present, h \in IF Wide THEN {"none", "set", "value"} ELSE {"none", "set"}}
     \cup {C(B("entry_ty") @@ [key |-> k.p, how |-> "set", ty |-> "z"], B("entry_ty") @@ [key |-> k.r, ty |-> As(NZ)], 0) : k \in IF Wide THEN present ELSE {}}
     \cup {C(B("entry_clear") @@ [key |-> k.p], B("entry_clear") @@ [key |-> k.r, new |-> [kn |-> <<>>, yn |-> <<>>, vt |-> <<>>]], 0) : k \in IF Wide THEN present ELSE {}}
     \cup {C(B("name") @@ [name |-> "z", how |-> "set"], B("name") @@ [name |-> As(NZ)], 0)}
     \cup {C(B("ty") @@ [ty |-> "z", how |-> "set"], B("ty") @@ [ty |-> As(NZ)], 0), X("noty", [how |-> ""])}
     \cup {C(B("kids_set") @@ [d |-> d.p, how |-> "set"], B("kids_set") @@ [d |-> d.r], d.used) : d \in NewDocs}
     \cup {X("kids_clear", [how |-> "clear"]), X("kids_ensure", [how |-> ""])}
DocCalls(p) ==
  LET d == DocAt(doc, p)
      B(o) == [o |-> o, p |-> p]
      X(o, f) == C(B(o) @@ f, B(o) @@ f, 0)
  IN {C(B(o) @@ [name |-> nm.x], B(o) @@ [name |-> As(nm)], 0) : o \in {"dget", "darg", "dargs", "ddash"}, nm \in IF Wide THEN {NA, ND, NZ} ELSE {NA, ND}}
     \cup {C(B("dset") @@ [name |-> nm.x, v |-> "5"], B("dset") @@ [name |-> As(nm), v |-> Shown(Num(5))], 0) : nm \in {NA, ND}}
     \cup {C(B("dpush") @@ [n |-> n.p], B("dpush") @@ [n |-> n.r], n.used) : n \in NewNodes}
     \cup {C(B("dinsert") @@ [i |-> i, n |-> n.p], B("dinsert") @@ [i |-> i, n |-> n.r], n.used) : i \in 1..Len(d.nodes), n \in NewNodes}
     \cup {X("dremove", [i |-> i]) : i \in DOMAIN d.nodes}
     \cup (IF Len(d.nodes) < 2 THEN {} ELSE {X("dswap", [i |-> 1, j |-> Len(d.nodes)])})
     \cup {X("dretain", [ids |-> h]) : h \in Halves(IdsOf(d.nodes))}
     \cup {X("dclear", [how |-> ""])}
Calls == UNION {NodeCalls(p) : p \in NodePaths(doc, <<>>)} \cup UNION {DocCalls(p) : p \in DocPaths(doc, <<>>)}

Do(c) == LET x == Apply(doc, c.r, c.r.p) IN
         /\ doc' = x.d /\ last' = x.r /\ plan' = Append(plan, c.j) /\ nid' = nid + c.u
         /\ UNCHANGED vars
Step == nid > 0 /\ Len(plan) < K /\ \E c \in Calls : Do(c)
Over == nid > 0 /\ Len(plan) = K /\ PrintT("PLAN " \o ToJson(<<Sources[it].x>> \o plan)) /\ nid' = -1 /\ UNCHANGED <<vars, doc, plan, last>>
GNext == Read \/ Load \/ Step \/ Over
(* for long sessions: one call of all that are possible *)
StepAny == nid > 0 /\ Len(plan) < K /\ Do(RandomElement(Calls))
GAny == Read \/ Load \/ StepAny \/ Over
GAnySpec == GInit /\ [][GAny]_gvars
GSpec == GInit /\ [][GNext]_gvars

(* ---- what the contract promises of every call ---------------------------------------- *)
RECURSIVE AllIds(_)
NodeIds(n) == <<n.id>> \o IdsOf(n.e) \o (IF n.c = <<>> THEN <<>> ELSE AllIds(n.c[1]))
RECURSIVE Concat(_, _)
Concat(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o Concat(q, i + 1)
AllIds(d) == Concat([i \in DOMAIN d.nodes |-> NodeIds(d.nodes[i])], 1)
(* elements never merge or appear twice *)
Distinct == nid > 0 => LET q == AllIds(doc) IN Cardinality(Among(q)) = Len(q) /\ \A i \in DOMAIN q : q[i] < nid
(* the text of the state can be printed: some text has exactly its pieces *)
PanicKeeps == [][(last' = RPanic /\ plan' # plan) => doc' = doc]_gvars
(* an argument index reaches the argument of that rank; a name the last such property *)
Lookups == nid > 0 => \A p \in NodePaths(doc, <<>>) :
  LET n == NodeAt(doc, p) IN
    /\ \A i \in 1..Len(Args(n)) : Find(n, [t |-> "i", i |-> i - 1]) = Args(n)[i]
    /\ \A i \in DOMAIN n.e : n.e[i].k # <<>> => LET f == Find(n, [t |-> "s", s |-> n.e[i].k[1]]) IN f >= i /\ n.e[f].k = n.e[i].k
Op == plan'[Len(plan')]
(* every entry of a node other than the one a call is made on stays as it is *)
RECURSIVE EntryRecs(_)
EntryRecs(d) == UNION {{d.nodes[i].e[j] : j \in DOMAIN d.nodes[i].e} \cup (IF d.nodes[i].c = <<>> THEN {} ELSE EntryRecs(d.nodes[i].c[1])) : i \in DOMAIN d.nodes}
Touching == {"index_set", "set", "each", "entry_name", "entry_ty", "entry_clear", "dset"}
FrameOk == LET old == EntryRecs(doc)  new == EntryRecs(doc') IN
  \* at most one entry changes, and only under calls that change entries
  LET changed == {e \in new : e.id < nid /\ e \notin old} IN
  IF Op.o \in Touching \ {"each"} THEN Cardinality(changed) <= 1 ELSE changed = {}
FrameKept == [][plan' # plan => FrameOk]_gvars
(* what a call returns it took from, or put into, the document *)
RemoveOk == (plan' # plan /\ Op.o \in {"remove", "vremove", "dremove"} /\ last'.k = "ids" /\ last'.x # <<>>)
            => last'.x[1] \notin Among(AllIds(doc'))
Removes == [][RemoveOk]_gvars
SortOk == (plan' # plan /\ Op.o = "sort") =>
  LET a == NodeAt(doc, Op.p).e  b == NodeAt(doc', Op.p).e IN
    /\ Among(IdsOf(a)) = Among(IdsOf(b)) /\ Len(a) = Len(b)
    /\ \A i, j \in DOMAIN b : i < j =>
         LET x == IF Op.how = "desc" THEN KeyLess(b[i].k, b[j].k) ELSE KeyLess(b[j].k, b[i].k) IN
         /\ ~x
         /\ b[i].k = b[j].k => (CHOOSE u \in DOMAIN a : a[u] = b[i]) < (CHOOSE u \in DOMAIN a : a[u] = b[j])
Sorts == [][SortOk]_gvars
=============================================================================
