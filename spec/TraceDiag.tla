----------------------------- MODULE TraceDiag ------------------------------
(* Outcome of parse entry points on any text.                                *)
(*   ok = 1 accepted, 0 rejected, 2 panicked, 3 did not return in time,      *)
(*        4 the process died                                                 *)
(*   dg = diagnostics: <<offset, length, severity is error, has a message or *)
(*        label, holds the exact input, <<the places of its labels, the rest *)
(*        of what it shows is what its fields say>> >> in bytes              *)
(*   same = the error holds the exact input                                  *)
(*   d = the entry point.  A record of kind "huge" carries only its outcome.  *)
(*   u = length in bytes of each code point                                  *)
EXTENDS TraceBase

RECURSIVE SumTo(_, _, _)
SumTo(u, i, acc) == IF i > Len(u) THEN acc ELSE SumTo(u, i + 1, Append(acc, acc[Len(acc)] + u[i]))
Boundaries == LET o == SumTo(Obs.u, 1, <<0>>) IN {o[i] : i \in DOMAIN o}

Returns == Obs.ok \in {0, 1}
(* diagnostics of a document say what is wrong *)
ForDocument == Obs.d \in {"doc-v2", "doc", "doc-v1", "v1-to-v2", "v2-to-v1"}
DiagOk(d, bs) ==
  /\ d[1] \in bs /\ d[1] + d[2] \in bs      \* inside the input, on character boundaries
  /\ d[5] = 1
  /\ d[6] = <<<<<<d[1], d[2]>>>>, 1>>         \* shown with one label, at its span
  /\ ForDocument => d[4] = 1
ErrorOk ==
  (Obs.k = "diag" /\ Obs.ok = 0) =>
    /\ Obs.same = 1
    /\ \E i \in DOMAIN Obs.dg : Obs.dg[i][3] = 1
    /\ LET bs == Boundaries IN \A i \in DOMAIN Obs.dg : DiagOk(Obs.dg[i], bs)

Report == Last => Say("returns", Returns) /\ Say("diagnostics", ErrorOk)
=============================================================================
