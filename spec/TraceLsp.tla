------------------------------ MODULE TraceLsp ------------------------------
(* Sessions recorded from the real server.  t: the texts; lib: what the      *)
(* library reports for each (offset, length, severity, message); ev: the     *)
(* messages with the replies r = [k, dg], dg: line, column, line, column,    *)
(* severity, message; end: how the server ended; more: replies nobody asked  *)
(* for; told: what the server announced about changes (whole texts or        *)
(* edits; the client goes by it), opened documents, saved ones, diagnostics  *)
(* and UTF-16 columns.                                                       *)
EXTENDS TraceBase, KdlLsp

Ev == Obs.ev
Expected(x) == LET t == Text(it, x) IN [i \in DOMAIN Obs.lib[x] |->
  LET d == Obs.lib[x][i] IN <<AtByte(t, d[1], 1), AtByte(t, d[1] + d[2], 1), d[3], d[4]>>]
Reported(x, r) == LET t == Text(it, x) IN [i \in DOMAIN r.dg |->
  LET d == r.dg[i] IN <<AtPosition(t, d[1], d[2]), AtPosition(t, d[3], d[4]), d[5], d[6]>>]
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])

ReportOk(d, r) ==
  CASE d.k = "absent" -> Say("report", r.dg = <<>>)
    [] d.k = "text" -> /\ Say("report", SameBag(Reported(d.x, r), Expected(d.x)))
                       /\ Say("valid", Results[d.x].ok => r.dg = <<>>)
    [] OTHER -> TRUE
RECURSIVE Follow(_, _)
Follow(st, i) ==
  i > Len(Ev) \/
  LET m == Ev[i]
      right == m.r.k = ReplyKind(st, m)
  IN /\ Say("answers", right)
     /\ (right /\ m.r.k = "report") => ReportOk(st.docs[m.u], m.r)
     /\ Follow(After(st, m), i + 1)
Report == Last =>
  /\ Follow(Fresh({Ev[i].u : i \in DOMAIN Ev}), 1)
  /\ Say("announces", Obs.told[1] # 0 /\ Obs.told[2] = 1 /\ Obs.told[4] = 1 /\ Obs.told[5] = 1)
  /\ Say("lives", Obs.end = "ok" /\ Obs.more = 0)
=============================================================================
