------------------------------- MODULE KdlLsp -------------------------------
(* The language server as a state machine: what it knows of each document,   *)
(* and which replies it may give.  A message is [o, u, xs]: its kind, the    *)
(* document it is about, and texts (by number).                              *)
EXTENDS Naturals, Sequences

Absent == [k |-> "absent", x |-> 0]                 \* not open
Holds(x) == [k |-> "text", x |-> x]                 \* its latest text
Unclear == [k |-> "unclear", x |-> 0]               \* changed without being open: the protocol rules that out
Fresh(us) == [phase |-> "new", docs |-> [u \in us |-> Absent]]

(* each change holds a whole text; the last one stands *)
Became(d, m) ==
  CASE m.o = "open" -> Holds(m.xs[1])
    [] m.o = "close" -> Absent
    [] m.xs = <<>> -> d
    [] d.k = "text" -> Holds(m.xs[Len(m.xs)])
    [] OTHER -> Unclear

Notices == {"open", "change", "save", "close"}
After(st, m) ==
  CASE m.o = "init" /\ st.phase = "new" -> [st EXCEPT !.phase = "running"]
    [] m.o = "shut" /\ st.phase = "running" -> [st EXCEPT !.phase = "down"]
    [] m.o \in Notices /\ st.phase = "running" -> [st EXCEPT !.docs[m.u] = Became(@, m)]
    [] OTHER -> st

(* ---- replies: every request gets exactly one -------------------------------- *)
Requests == {"init", "shut", "diag", "ask", "bad"}
ReplyKind(st, m) ==
  CASE m.o \notin Requests -> "none"
    [] m.o = "init" -> IF st.phase = "new" THEN "value" ELSE "error"
    [] m.o = "shut" -> IF st.phase = "running" THEN "value" ELSE "error"
    [] m.o = "diag" -> IF st.phase = "running" THEN "report" ELSE "error"
    [] OTHER -> "error"

(* ---- positions: lines that end at \n, \r\n or \r; columns in UTF-16 units ---- *)
Bytes(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Units(c) == IF c < 65536 THEN 1 ELSE 2
EndsLine(t, p) == t[p] = 10 \/ (t[p] = 13 /\ ~(p < Len(t) /\ t[p + 1] = 10))
(* between \r and \n is still the end of the line *)
Settle(t, p) == IF p > 1 /\ p <= Len(t) /\ t[p - 1] = 13 /\ t[p] = 10 THEN p - 1 ELSE p
RECURSIVE AtByte(_, _, _), LineStart(_, _, _), Advance(_, _, _)
(* the place (1 before the first character) that a byte offset denotes; 0: none *)
AtByte(t, o, p) == IF o = 0 THEN Settle(t, p) ELSE IF p > Len(t) \/ o < Bytes(t[p]) THEN 0 ELSE AtByte(t, o - Bytes(t[p]), p + 1)
LineStart(t, l, p) == IF l = 0 THEN p ELSE IF p > Len(t) THEN 0 ELSE LineStart(t, IF EndsLine(t, p) THEN l - 1 ELSE l, p + 1)
Advance(t, n, p) == IF n = 0 \/ p > Len(t) \/ t[p] \in {10, 13} THEN p ELSE IF n < Units(t[p]) THEN 0 ELSE Advance(t, n - Units(t[p]), p + 1)
(* the place that a line and a column denote *)
AtPosition(t, l, c) == LET s == LineStart(t, l, 1) IN IF s = 0 THEN 0 ELSE Settle(t, Advance(t, c, s))
=============================================================================
