----------------------------- MODULE TraceBase -----------------------------
(* Recorded runs of the library, one record per line of the trace file, and  *)
(* the comparison of what the library returned with what the specification's *)
(* reader made of the same texts.                                            *)
(*   t = [[m, x], ...]  the texts of the record: how to read them, and their *)
(*                      code points                                          *)
(* and further fields depending on the record's kind, used by the modules    *)
(* that extend this one.                                                     *)
EXTENDS KdlReader, Json, IOUtils

TraceFile == IOEnv.KDL_TRACE
Log == ndJsonDeserialize(TraceFile)
TText(i, k) == Log[i].t[k].x
TMode(i, k) == Log[i].t[k].m
TNTexts(i) == Len(Log[i].t)
TIndices == DOMAIN Log
Obs == Log[it]

(* ---- observed content equals the content the specification read ---- *)
ValMatch(v, o) == IF v.t = "d" THEN FloatOk(v, o)
                  ELSE IF v.t = "f" THEN o.t = "f" /\ o.c = v.c /\ o.n = v.n
                  ELSE o = v
EntMatch(e, o) == e.k = o.k /\ e.y = o.y /\ ValMatch(e.v, o.v)
RECURSIVE NodesMatch(_, _)
NodeMatch(n, o) ==
  /\ n.m = o.m /\ n.y = o.y
  /\ Len(n.e) = Len(o.e) /\ \A i \in DOMAIN n.e : EntMatch(n.e[i], o.e[i])
  /\ Len(n.c) = Len(o.c) /\ (n.c # <<>> => NodesMatch(n.c[1], o.c[1]))
NodesMatch(ns, os) == Len(ns) = Len(os) /\ \A i \in DOMAIN ns : NodeMatch(ns[i], os[i])

(* ---- two texts read by the specification have the same content ---- *)
ValSame(a, b) ==
  \/ a = b
  \/ a.t = "d" /\ b.t \in {"d", "f"} /\ FloatSame(a, b)   \* a as written by hand, b as printed
EntSame(a, b) == a.k = b.k /\ a.y = b.y /\ ValSame(a.v, b.v)
RECURSIVE NodesSame(_, _)
NodeSame(a, b) ==
  /\ a.m = b.m /\ a.y = b.y
  /\ Len(a.e) = Len(b.e) /\ \A i \in DOMAIN a.e : EntSame(a.e[i], b.e[i])
  /\ Len(a.c) = Len(b.c) /\ (a.c # <<>> => NodesSame(a.c[1], b.c[1]))
NodesSame(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : NodeSame(x[i], y[i])

(* reports every disagreement, so that one run lists them all *)
Say(name, cond) == cond \/ PrintT("MISMATCH " \o name \o " " \o ToString(it))
=============================================================================
