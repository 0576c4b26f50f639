----------------------------- MODULE TraceEdit ------------------------------
(* Editing sessions on the real objects.  t[1] is the source; step i of ops  *)
(* records the call, what it returned (r) and the content of the document    *)
(* afterwards (doc), t[i + 1] the text of the document then (sessions about  *)
(* content and results only leave these texts out).  read: the source was    *)
(* accepted, with content doc.  Steps are followed until the objects leave   *)
(* the course of the specification.                                          *)
EXTENDS TraceBase, SourceTree

Ops == Obs.ops
Start0 == SourceDoc(Text(it, 1), Results[1].v, Results[1].gs)

(* ---- content and results (P08) ----------------------------------------------- *)
SameEntry(e, o) == e.id = o.id /\ e.k = o.k /\ e.y = o.y /\ ValMatch(e.v, o.v)
RECURSIVE SameDoc(_, _)
SameNode(n, o) ==
  /\ n.id = o.id /\ n.m = o.m /\ n.y = o.y
  /\ Len(n.e) = Len(o.e) /\ \A i \in DOMAIN n.e : SameEntry(n.e[i], o.e[i])
  /\ Len(n.c) = Len(o.c) /\ (n.c # <<>> => SameDoc(n.c[1], o.c[1]))
SameDoc(d, os) == Len(d.nodes) = Len(os) /\ \A i \in DOMAIN os : SameNode(d.nodes[i], os[i])

SameResult(r, o) ==
  /\ r.k = o.k
  /\ CASE r.k = "panic" -> TRUE
       [] r.k = "vals" -> Len(r.x) = Len(o.x) /\ \A i \in DOMAIN r.x : ValMatch(r.x[i], o.x[i])
       [] OTHER -> r.x = o.x

(* ---- a step: content and results, then the text (P09) ---------------------------- *)
Course(i, x) ==
  LET same == SameDoc(x.d, Ops[i].doc)
      got == SameResult(x.r, Ops[i].r)
  IN Say("tree", same) /\ Say("result", got) /\ same
TextOk(i, d) ==
  TNTexts(it) > 1 =>
    /\ Say("printable", Mode(it, i + 1) = "doc")
    /\ Mode(it, i + 1) = "doc" =>
         /\ Say("valid", Results[i + 1].ok)
         /\ Say("content", Results[i + 1].ok => NodesMatch(Results[i + 1].v, Ops[i].doc))
         /\ Say("text", Prints(d, Text(it, i + 1)))
RECURSIVE Follow(_, _)
Follow(d, i) ==
  \/ i > Len(Ops)
  \/ Ops[i].r.k = "lost" /\ Say("result", FALSE)
  \/ Ops[i].r.k # "lost" /\ LET x == Apply(d, Ops[i], Ops[i].p) IN Course(i, x) => TextOk(i, x.d) /\ Follow(x.d, i + 1)
Report == Last =>
  /\ Say("source", Results[1].ok /\ Obs.read)
  /\ (Results[1].ok /\ Obs.read) => IF SameDoc(Start0, Obs.doc) THEN Follow(Start0, 1) ELSE Say("tree", FALSE)
=============================================================================
