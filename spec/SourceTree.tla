----------------------------- MODULE SourceTree -----------------------------
(* A document as the reader read it, as the state an editing session starts  *)
(* from: every element with the pieces of its text.  Elements are numbered   *)
(* in the order node, its entries, its children.                             *)
EXTENDS KdlLex, KdlEdit

Sub(t, a, b) == SubSeq(t, a, b - 1)
SrcEntry(t, e, from, id) ==
  LET eq == IF e.kp = <<>> THEN 0 ELSE NodeSpaceEnd(t, e.kp[1][2])
      afterEq == IF e.kp = <<>> THEN e.st ELSE NodeSpaceEnd(t, eq + 1)       \* the `(` or the value
      close == IF e.yp = <<>> THEN 0 ELSE NodeSpaceEnd(t, e.yp[1][2])       \* the `)`
  IN [id |-> id, src |-> 1, k |-> e.k, y |-> e.y, v |-> e.v, fm |-> 1,
      lead |-> Sub(t, from, e.st), trail |-> <<>>,
      kn |-> IF e.kp = <<>> THEN <<>> ELSE Sub(t, e.kp[1][1], e.kp[1][2]),
      ak |-> IF e.kp = <<>> THEN <<>> ELSE Sub(t, e.kp[1][2], eq),
      ae |-> IF e.kp = <<>> THEN <<>> ELSE Sub(t, eq + 1, afterEq),
      h1 |-> IF e.yp = <<>> THEN <<40>> ELSE Sub(t, afterEq, e.yp[1][1]),
      yn |-> IF e.yp = <<>> THEN <<>> ELSE Sub(t, e.yp[1][1], e.yp[1][2]),
      h2 |-> IF e.yp = <<>> THEN <<41>> ELSE Sub(t, e.yp[1][2], close + 1),
      aft |-> IF e.yp = <<>> THEN <<>> ELSE Sub(t, close + 1, e.vp),
      vt |-> Sub(t, e.vp, e.en)]

RECURSIVE Size(_), Sizes(_, _)
Sizes(ns, i) == IF i > Len(ns) THEN 0 ELSE Size(ns[i]) + Sizes(ns, i + 1)
Size(n) == 1 + Len(n.e) + (IF n.c = <<>> THEN 0 ELSE Sizes(n.c[1], 1))

RECURSIVE SrcNode(_, _, _, _, _), SrcNodes(_, _, _, _, _), SrcBlock(_, _, _, _, _, _)
SrcNode(t, n, from, id, prev) ==
  LET lastEn == IF n.e = <<>> THEN n.mp[2] ELSE n.e[Len(n.e)].en IN
  [id |-> id, src |-> 1, m |-> n.m, y |-> n.y, fm |-> 1, prev |-> prev, nk |-> IF n.c = <<>> THEN 1 ELSE 0,
   e |-> [i \in DOMAIN n.e |-> SrcEntry(t, n.e[i], IF i = 1 THEN n.mp[2] ELSE n.e[i - 1].en, id + i)],
   c |-> IF n.c = <<>> THEN <<>>
         ELSE <<SrcBlock(t, n.c[1], n.cg, n.cp[1][2] - 1, n.cp[1][1] + 1, id + Len(n.e) + 1)>>,
   lead |-> Sub(t, from, n.st),
   h1 |-> IF n.yp = <<>> THEN <<40>> ELSE Sub(t, n.st, n.yp[1][1]),
   yn |-> IF n.yp = <<>> THEN <<>> ELSE Sub(t, n.yp[1][1], n.yp[1][2]),
   h2 |-> IF n.yp = <<>> THEN <<41>> ELSE Sub(t, n.yp[1][2], n.mp[1]),
   mn |-> Sub(t, n.mp[1], n.mp[2]),
   bc |-> IF n.c = <<>> THEN <<>> ELSE Sub(t, lastEn, n.cp[1][1]),
   bt |-> IF n.c = <<>> THEN Sub(t, lastEn, n.te) ELSE Sub(t, n.en, n.te),
   term |-> Sub(t, n.te, n.tn), trail |-> <<>>]
SrcNodes(t, ns, i, id, acc) ==
  IF i > Len(ns) THEN acc
  ELSE SrcNodes(t, ns, i + 1, id + Size(ns[i]),
                Append(acc, SrcNode(t, ns[i], IF i = 1 /\ t[1] = 65279 /\ ns[1].g = 1 THEN 2 ELSE ns[i].g, id, IF acc = <<>> THEN 0 ELSE acc[Len(acc)].id)))
(* the block with nodes ns, from position from; its last gap is [gs, to) *)
SrcBlock(t, ns, gs, to, from, id) ==
  LET nodes == SrcNodes(t, ns, 1, id, <<>>)
      bom == from = 1 /\ t # <<>> /\ t[1] = 65279
  IN IF ns = <<>> THEN [src |-> 1, fm |-> 1, nodes |-> <<>>, lead |-> Sub(t, from, to), trail |-> <<>>, last |-> 0]
     ELSE [src |-> 1, fm |-> 1, nodes |-> nodes, lead |-> IF bom THEN <<65279>> ELSE <<>>,
           trail |-> Sub(t, gs, to), last |-> nodes[Len(nodes)].id]
SourceDoc(t, ns, gs) == SrcBlock(t, ns, gs, Len(t) + 1, 1, 1)
=============================================================================
