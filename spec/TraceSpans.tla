----------------------------- MODULE TraceSpans -----------------------------
(* Spans.  The specification knows where each element starts and ends in     *)
(* code points; the library reports byte offsets and lengths.                *)
(*   u = length in bytes of each code point of the text                      *)
(*   ds = span of the document; in doc, per node: ns (node), ms (name), ys   *)
(*   (type), cs (child block); per entry: es, ks (key), ys (type)            *)
EXTENDS TraceBase

RECURSIVE SumTo(_, _, _)
SumTo(u, i, acc) == IF i > Len(u) THEN acc ELSE SumTo(u, i + 1, Append(acc, acc[Len(acc)] + u[i]))
(* bytes before position p, for every position up to the end *)
Offsets == SumTo(Obs.u, 1, <<0>>)

At0(off, p) == off[p]
Is(off, sp, a, b) == sp[1] = off[a] /\ sp[1] + sp[2] = off[b]
End(sp) == sp[1] + sp[2]
Inside(a, b) == b[1] <= a[1] /\ End(a) <= End(b)
IsBoundary(off, x) == \E i \in DOMAIN off : off[i] = x
OnBoundaries(off, sp) == IsBoundary(off, sp[1]) /\ IsBoundary(off, End(sp))

Opt(off, sps, ps) == Len(sps) = Len(ps) /\ (ps # <<>> => Is(off, sps[1], ps[1][1], ps[1][2]))

EntrySpans(off, e, o) ==
  /\ Is(off, o.es, e.st, e.en)
  /\ Opt(off, o.ks, e.kp)
  /\ Opt(off, o.ys, e.yp)
RECURSIVE NodeSpans(_, _, _), ListSpans(_, _, _, _)
NodeSpans(off, n, o) ==
  /\ o.ns[1] = off[n.st]
  /\ End(o.ns) >= off[n.en] /\ End(o.ns) <= off[n.te]
  /\ OnBoundaries(off, o.ns)
  /\ Is(off, o.ms, n.mp[1], n.mp[2])
  /\ Opt(off, o.ys, n.yp)
  /\ \A i \in DOMAIN n.e : EntrySpans(off, n.e[i], o.e[i])
  /\ n.c # <<>> => /\ Inside(o.cs[1], o.ns) /\ OnBoundaries(off, o.cs[1])
                   /\ o.cs[1][1] >= off[n.cp[1][1]] /\ End(o.cs[1]) <= off[n.cp[1][2]]
                   /\ ListSpans(off, n.c[1], o.c[1], o.cs[1])
(* the nodes of a block: in order, disjoint, inside the block's span *)
ListSpans(off, ns, os, block) ==
  /\ \A i \in DOMAIN ns : NodeSpans(off, ns[i], os[i]) /\ Inside(os[i].ns, block)
  /\ \A i \in 1..(Len(os) - 1) : End(os[i].ns) <= os[i + 1].ns[1]

(* an element parsed on its own: its own span covers the text it was parsed from, *)
(* the spans of its parts are exact                                              *)
SoleNodeSpans(off, n, o) ==
  /\ o.ns[1] <= off[n.st] /\ End(o.ns) >= off[n.en] /\ OnBoundaries(off, o.ns) /\ End(o.ns) <= off[Len(off)]
  /\ Is(off, o.ms, n.mp[1], n.mp[2])
  /\ Opt(off, o.ys, n.yp)
  /\ \A i \in DOMAIN n.e : EntrySpans(off, n.e[i], o.e[i])
  /\ n.c # <<>> => ListSpans(off, n.c[1], o.c[1], o.cs[1])
SoleEntrySpans(off, e, o) ==
  /\ o.es[1] <= off[e.st] /\ End(o.es) >= off[e.en] /\ OnBoundaries(off, o.es) /\ End(o.es) <= off[Len(off)]
  /\ Opt(off, o.ks, e.kp) /\ Opt(off, o.ys, e.yp)

Both == ctl = "ok" /\ Obs.ok = 1
SpansOk ==
  /\ (Both /\ mode = "node" /\ NodesMatch(stk[1].nodes, Obs.doc)) => SoleNodeSpans(Offsets, stk[1].nodes[1], Obs.doc[1])
  /\ (Both /\ mode = "entry" /\ EntMatch(stk[1].nodes, Obs.doc)) => SoleEntrySpans(Offsets, stk[1].nodes, Obs.doc)
  /\ (Both /\ mode = "ident") => (Obs.ds[1] = 0 /\ Obs.ds[2] = Offsets[Len(Offsets)])
  /\ (Both /\ mode = "doc" /\ NodesMatch(stk[1].nodes, Obs.doc)) =>
    LET off == Offsets IN
    /\ OnBoundaries(off, Obs.ds) /\ End(Obs.ds) <= off[Len(off)]
    /\ ListSpans(off, stk[1].nodes, Obs.doc, Obs.ds)

Report == Last => Say("panic", Obs.ok # 2) /\ Say("spans", SpansOk)
=============================================================================
