------------------------------ MODULE KdlEdit -------------------------------
(***************************************************************************)
(* The sequential contract of the editing API: what a document is while it *)
(* is being edited, what every call does to it and what the call returns,  *)
(* and what the edited document prints as.                                 *)
(*                                                                         *)
(* An element is its content together with the pieces of text it is        *)
(* printed from; id tells elements apart, src says whether the element     *)
(* comes from the source text.                                             *)
(*   entry: k (name, optional), y (type, optional), v (value); pieces      *)
(*     lead kn ak "=" ae h1 yn h2 aft vt trail                             *)
(*   node:  m (name), y, e (entries), c (child block, optional); pieces    *)
(*     lead h1 yn h2 mn entries bc "{" block "}" bt term trail             *)
(*     prev: the node before it in its source, 0 for the first, -1 if it   *)
(*           is new; nk: it had no child block                             *)
(*   block (or document): nodes; pieces lead nodes trail; last: its last   *)
(*     node in the source                                                  *)
(*   fm = 0: the element has no formatting of its own                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- lookups ------------------------------------------------------------- *)
EKey(e) == e.k # <<>>
Args(n) == SelectSeq([i \in DOMAIN n.e |-> i], LAMBDA i : n.e[i].k = <<>>)
PropsNamed(n, s) == {i \in DOMAIN n.e : n.e[i].k = <<s>>}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
(* position of the entry a key stands for; 0 when there is none: an index    *)
(* counts arguments from 0, a name means the last property with that name    *)
Find(n, key) ==
  IF key.t = "i" THEN LET a == Args(n) IN IF key.i < Len(a) THEN a[key.i + 1] ELSE 0
  ELSE LET P == PropsNamed(n, key.s) IN IF P = {} THEN 0 ELSE MaxOf(P)
NodesNamed(d, s) == {i \in DOMAIN d.nodes : d.nodes[i].m = s}
FindNode(d, s) == LET P == NodesNamed(d, s) IN IF P = {} THEN 0 ELSE MinOf(P)

(* ---- sequences ------------------------------------------------------------ *)
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
InsertAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Swap(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
IdsOf(q) == [i \in DOMAIN q |-> q[i].id]
Among(ids) == {ids[i] : i \in DOMAIN ids}

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                     ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i + 1)
(* no name comes before every name; names by their code points *)
KeyLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE LessFrom(a[1], b[1], 1)
(* stable insertion sort *)
RECURSIVE PutSorted(_, _, _)
PutSorted(q, x, desc) ==
  IF q = <<>> THEN <<x>>
  ELSE LET l == q[Len(q)]
           after == IF desc THEN KeyLess(l.k, x.k) ELSE KeyLess(x.k, l.k)
       IN IF after THEN Append(PutSorted(SubSeq(q, 1, Len(q) - 1), x, desc), l) ELSE Append(q, x)
RECURSIVE SortedTo(_, _, _)
SortedTo(q, i, desc) == IF i = 0 THEN <<>> ELSE PutSorted(SortedTo(q, i - 1, desc), q[i], desc)
Sorted(q, desc) == SortedTo(q, Len(q), desc)

(* ---- results ---------------------------------------------------------------- *)
RNone == [k |-> "none", x |-> <<>>]
RIds(x) == [k |-> "ids", x |-> x]
RVals(x) == [k |-> "vals", x |-> x]
RN(n) == [k |-> "n", x |-> <<n>>]
RPanic == [k |-> "panic", x |-> <<>>]
Opt1(n, i) == IF i = 0 THEN <<>> ELSE <<n.e[i].id>>

(* ---- edits of elements -------------------------------------------------------- *)
SetVal(e, v) == [e EXCEPT !.v = v.v, !.vt = v.x]
Named(e, nm) == [e EXCEPT !.k = <<nm.c>>, !.kn = nm.x]
Unnamed(e) == [e EXCEPT !.k = <<>>, !.kn = <<>>]
Typed(x, ty) == [x EXCEPT !.y = <<ty.c>>, !.yn = ty.x]
Untyped(n) == [n EXCEPT !.y = <<>>, !.yn = <<>>]
Bare(e, new) == [e EXCEPT !.fm = 0, !.lead = <<>>, !.kn = new.kn, !.ak = <<>>, !.ae = <<>>, !.h1 = <<40>>, !.yn = new.yn,
                          !.h2 = <<41>>, !.aft = <<>>, !.vt = new.vt, !.trail = <<>>]
(* with the texts of a format around it *)
Laid(e, f) == [e EXCEPT !.fm = 1, !.lead = f.lead, !.ak = f.ak, !.ae = f.ae, !.h1 = <<40>> \o f.b, !.h2 = f.a \o <<41>>,
                        !.aft = f.aft, !.vt = f.vt, !.trail = f.trail]
EmptyDoc == [src |-> 0, lead |-> <<>>, trail |-> <<>>, fm |-> 0, nodes |-> <<>>, last |-> -1]

NodeOps == {"get", "index", "index_set", "set", "insert", "push", "remove", "retain", "sort", "clear", "len", "iter", "kids",
            "vinsert", "vremove", "vswap", "each", "entry_name", "entry_ty", "entry_clear", "name", "ty", "noty",
            "kids_set", "kids_clear", "kids_ensure", "efmt", "nfmt"}
DocOps == {"dget", "dlist", "dfmt", "darg", "dargs", "ddash", "dset", "dpush", "dinsert", "dremove", "dswap", "dretain", "dclear"}

(* what a call on node n does: the node afterwards, and what the call returns *)
OnNode(n, op) ==
  LET o == op.o
      at == IF o \in {"get", "index", "index_set", "set", "insert", "remove", "entry_name", "entry_ty", "entry_clear", "efmt"} THEN Find(n, op.key) ELSE 0
      R(m, r) == [n |-> m, r |-> r]
  IN
  CASE o = "get" -> R(n, RIds(Opt1(n, at)))
    [] o = "index" -> R(n, IF at = 0 THEN RPanic ELSE RVals(<<n.e[at].v>>))
    [] o = "index_set" ->
         IF at # 0 THEN R([n EXCEPT !.e[at] = SetVal(@, op.v)], RNone)
         ELSE IF op.key.t = "i" THEN R(n, RPanic)
         ELSE R([n EXCEPT !.e = Append(@, op.e)], RNone)
    [] o = "set" -> IF at = 0 THEN R(n, RN(0)) ELSE R([n EXCEPT !.e[at] = SetVal(@, op.v)], RN(1))
    [] o = "insert" ->
         IF op.key.t = "s"
         THEN IF op.e.k \notin {<<>>, <<op.key.s>>} THEN R(n, RPanic)
              ELSE LET x == IF op.e.k = <<>> THEN Named(op.e, [c |-> op.key.s, x |-> op.key.x]) ELSE op.e IN
                   IF at = 0 THEN R([n EXCEPT !.e = Append(@, x)], RIds(<<>>))
                   ELSE R([n EXCEPT !.e[at] = x], RIds(<<n.e[at].id>>))
         ELSE IF op.e.k # <<>> \/ op.key.i > Len(Args(n)) THEN R(n, RPanic)
              ELSE IF at = 0 THEN R([n EXCEPT !.e = Append(@, op.e)], RIds(<<>>))
              ELSE R([n EXCEPT !.e = InsertAt(@, at, op.e)], RIds(<<>>))
    [] o = "push" -> R([n EXCEPT !.e = Append(@, op.e)], RNone)
    [] o = "remove" ->
         IF at # 0 THEN R([n EXCEPT !.e = RemoveAt(@, at)], RIds(<<n.e[at].id>>))
         ELSE R(n, IF op.key.t = "i" THEN RPanic ELSE RIds(<<>>))
    [] o = "retain" -> R([n EXCEPT !.e = SelectSeq(@, LAMBDA x : x.id \in Among(op.ids))], RNone)
    [] o = "sort" -> R([n EXCEPT !.e = Sorted(@, op.how = "desc")], RNone)
    [] o = "clear" -> R([n EXCEPT !.e = <<>>], RNone)
    [] o = "len" -> R(n, RN(Len(n.e)))
    [] o = "iter" -> R(n, RIds(IdsOf(n.e)))
    [] o = "kids" -> R(n, RIds(IF n.c = <<>> THEN <<>> ELSE IdsOf(n.c[1].nodes)))
    [] o = "vinsert" -> R([n EXCEPT !.e = InsertAt(@, op.i, op.e)], RNone)
    [] o = "vremove" -> R([n EXCEPT !.e = RemoveAt(@, op.i)], RIds(<<n.e[op.i].id>>))
    [] o = "vswap" -> R([n EXCEPT !.e = Swap(@, op.i, op.j)], RNone)
    [] o = "each" -> R([n EXCEPT !.e = [i \in DOMAIN n.e |-> SetVal(n.e[i], op.v)]], RNone)
    [] o = "entry_name" -> R(IF at = 0 THEN n ELSE [n EXCEPT !.e[at] = IF op.how = "none" THEN Unnamed(@) ELSE Named(@, op.name)], RNone)
    [] o = "entry_ty" -> R(IF at = 0 THEN n ELSE [n EXCEPT !.e[at] = Typed(@, op.ty)], RNone)
    [] o = "entry_clear" -> R(IF at = 0 THEN n ELSE [n EXCEPT !.e[at] = Bare(@, op.new)], RNone)
    [] o = "efmt" -> R(IF at = 0 THEN n ELSE [n EXCEPT !.e[at] = Laid(@, op.f)], RNone)
    [] o = "nfmt" -> R([n EXCEPT !.fm = 1, !.lead = op.f.lead, !.h1 = <<40>> \o op.f.b, !.h2 = op.f.a \o <<41>> \o op.f.aft,
                                 !.bc = op.f.bc, !.bt = op.f.bt, !.term = op.f.term, !.trail = op.f.trail, !.nk = IF n.c = <<>> THEN 1 ELSE 0], RNone)
    [] o = "name" -> R([n EXCEPT !.m = op.name.c, !.mn = op.name.x], RNone)
    [] o = "ty" -> R(Typed(n, op.ty), RNone)
    [] o = "noty" -> R(Untyped(n), RNone)
    [] o = "kids_set" -> R([n EXCEPT !.c = <<op.d>>], RNone)
    [] o = "kids_clear" -> R([n EXCEPT !.c = <<>>], RNone)
    [] o = "kids_ensure" -> LET m == IF n.c = <<>> THEN [n EXCEPT !.c = <<EmptyDoc>>] ELSE n IN R(m, RN(Len(m.c[1].nodes)))

DashArgs(n) ==
  LET ds == IF n.c = <<>> THEN <<>> ELSE SelectSeq(n.c[1].nodes, LAMBDA x : x.m = <<45>> /\ Args(x) # <<>>)
  IN [i \in DOMAIN ds |-> ds[i].e[Args(ds[i])[1]].v]
OnDoc(d, op) ==
  LET o == op.o
      at == IF o \in {"dget", "darg", "dargs", "ddash", "dset"} THEN FindNode(d, op.name.c) ELSE 0
      a1 == IF at = 0 THEN 0 ELSE Find(d.nodes[at], [t |-> "i", i |-> 0])
      R(m, r) == [n |-> m, r |-> r]
  IN
  CASE o = "dget" -> R(d, RIds(IF at = 0 THEN <<>> ELSE <<d.nodes[at].id>>))
    [] o = "dlist" -> R(d, RIds(IdsOf(d.nodes)))
    [] o = "darg" -> R(d, RVals(IF a1 = 0 THEN <<>> ELSE <<d.nodes[at].e[a1].v>>))
    [] o = "dargs" -> R(d, RVals(IF at = 0 THEN <<>> ELSE LET a == Args(d.nodes[at]) IN [i \in DOMAIN a |-> d.nodes[at].e[a[i]].v]))
    [] o = "ddash" -> R(d, RVals(IF at = 0 THEN <<>> ELSE DashArgs(d.nodes[at])))
    [] o = "dset" -> IF a1 = 0 THEN R(d, RN(0)) ELSE R([d EXCEPT !.nodes[at].e[a1] = SetVal(@, op.v)], RN(1))
    [] o = "dfmt" -> R([d EXCEPT !.fm = 1, !.lead = op.f.lead, !.trail = op.f.trail, !.last = -1], RNone)
    [] o = "dpush" -> R([d EXCEPT !.nodes = Append(@, op.n)], RNone)
    [] o = "dinsert" -> R([d EXCEPT !.nodes = InsertAt(@, op.i, op.n)], RNone)
    [] o = "dremove" -> R([d EXCEPT !.nodes = RemoveAt(@, op.i)], RIds(<<d.nodes[op.i].id>>))
    [] o = "dswap" -> R([d EXCEPT !.nodes = Swap(@, op.i, op.j)], RNone)
    [] o = "dretain" -> R([d EXCEPT !.nodes = SelectSeq(@, LAMBDA x : x.id \in Among(op.ids))], RNone)
    [] o = "dclear" -> R([d EXCEPT !.nodes = <<>>], RNone)

(* a call on the element that a path (positions of nodes) leads to *)
RECURSIVE Apply(_, _, _)
Apply(d, op, p) ==
  IF p = <<>> THEN LET x == OnDoc(d, op) IN [d |-> x.n, r |-> x.r]
  ELSE LET n == d.nodes[p[1]]
           x == IF Len(p) = 1 /\ op.o \in NodeOps THEN OnNode(n, op)
                ELSE LET y == Apply(n.c[1], op, Tail(p)) IN [n |-> [n EXCEPT !.c = <<y.d>>], r |-> y.r]
       IN [d |-> [d EXCEPT !.nodes[p[1]] = x.n], r |-> x.r]
(* ---- the text of a document: pieces, and what may be put between them --------- *)
(* [i |-> "lit", x]: this text; "glue": one of these texts; "blank": any     *)
(* blanks; "or": one of two lists of items                                    *)
Lit(x) == <<[i |-> "lit", x |-> x]>>
Nl1 == <<10>>
Sp1 == <<32>>
(* what separates nodes that did not follow each other before *)
NodeGlue == <<[i |-> "glue", x |-> {<<>>, Nl1, <<10, 10>>}]>>
SpaceGlue == <<[i |-> "glue", x |-> {<<>>, Sp1}]>>
Blanks == <<[i |-> "blank", x |-> {}]>>

EntryText(e) ==
  Lit(e.lead \o (IF e.k = <<>> THEN <<>> ELSE e.kn \o e.ak \o <<61>> \o e.ae)
      \o (IF e.y = <<>> THEN <<>> ELSE e.h1 \o e.yn \o e.h2) \o e.aft \o e.vt \o e.trail)
RECURSIVE EntriesText(_, _)
EntriesText(es, i) == IF i > Len(es) THEN <<>>
                      ELSE (IF es[i].lead = <<>> THEN SpaceGlue ELSE <<>>) \o EntryText(es[i]) \o EntriesText(es, i + 1)
RECURSIVE NodeText(_), BlockText(_), NodesText(_, _)
NodeText(n) ==
  LET head == (IF n.fm = 0 THEN Blanks ELSE Lit(n.lead))
              \o Lit((IF n.y = <<>> THEN <<>> ELSE n.h1 \o n.yn \o n.h2) \o n.mn) \o EntriesText(n.e, 1)
      block == IF n.c = <<>> THEN <<>>
               ELSE Lit(n.bc) \o (IF n.nk = 1 \/ n.fm = 0 THEN SpaceGlue ELSE <<>>)
                    \o Lit(<<123>>) \o BlockText(n.c[1]) \o Lit(<<125>>)
      end == Lit(n.term \o n.trail)
      \* where a node that had no block before gets one: next to what is before its terminator
      rest == IF n.c # <<>> /\ n.nk = 1 /\ n.bt # <<>> THEN <<[i |-> "or", x |-> {block \o Lit(n.bt), Lit(n.bt) \o NodeGlue \o block}]>>
              ELSE IF n.c = <<>> /\ n.nk = 0 /\ n.bt # <<>> THEN SpaceGlue \o Lit(n.bt)
              ELSE block \o Lit(n.bt)
  IN head \o rest \o end
NodesText(d, i) ==
  IF i > Len(d.nodes) THEN <<>>
  ELSE LET n == d.nodes[i]
           follows == IF i = 1 THEN n.prev = 0 /\ d.src = 1 ELSE n.prev = d.nodes[i - 1].id
       IN (IF follows THEN <<>> ELSE NodeGlue) \o NodeText(n) \o NodesText(d, i + 1)
DocText(d) ==
  Lit(d.lead) \o NodesText(d, 1)
  \o (IF d.nodes = <<>> \/ d.nodes[Len(d.nodes)].id = d.last THEN <<>> ELSE NodeGlue) \o Lit(d.trail)
BlockText(d) ==
  (IF d.fm = 0 THEN Lit(Nl1) ELSE <<>>) \o DocText(d)
  \o (IF d.src = 0 THEN NodeGlue ELSE <<>>) \o (IF d.fm = 0 THEN Blanks ELSE <<>>)

HasAt(t, p, x) == p + Len(x) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(x) - 1) = x
BlankChar(c) == c = 32 \/ c = 10
RECURSIVE BlankEnds(_, _)
BlankEnds(t, p) == {p} \cup (IF p <= Len(t) /\ BlankChar(t[p]) THEN BlankEnds(t, p + 1) ELSE {})
(* the positions in t at which a text made of the items can end, when it starts at one in P *)
RECURSIVE Ends(_, _, _, _)
Ends(items, i, t, P) ==
  IF i > Len(items) \/ P = {} THEN P
  ELSE LET a == items[i]
           Q == CASE a.i = "lit" -> {p + Len(a.x) : p \in {p \in P : HasAt(t, p, a.x)}}
                  [] a.i = "glue" -> UNION {{p + Len(g) : p \in {p \in P : HasAt(t, p, g)}} : g \in a.x}
                  [] a.i = "blank" -> UNION {BlankEnds(t, p) : p \in P}
                  [] a.i = "or" -> UNION {Ends(l, 1, t, P) : l \in a.x}
       IN Ends(items, i + 1, t, Q)
Prints(d, t) == Len(t) + 1 \in Ends(DocText(d), 1, t, {1})
=============================================================================
