------------------------------- MODULE GenLsp -------------------------------
(* Sessions as behaviours of the specification: any message about any of the *)
(* documents, K times, with a request for every document's diagnostics after *)
(* each.  Finished sessions are printed as plans for the real server.        *)
EXTENDS KdlLsp, Integers, FiniteSets, TLC, TLCExt, Json, IOUtils
K == atoi(IOEnv.KDL_STEPS)
Wide == IOEnv.KDL_WIDE = "1"
Us == IF Wide THEN {"file:///a.kdl", "file:///b.kdl", "untitled:1"} ELSE {"file:///a.kdl", "file:///b.kdl"}
Texts ==
  << <<97, 32, 49, 10>>,                                                       \* a 1
     <<233, 32, 34, 128512, 34, 32, 49, 46, 13, 10, 32, 98, 32, 128512, 61, 13, 99, 32, 35, 110, 111>>,
     <<47, 42, 133, 11, 128512, 42, 47, 32, 35, 110, 111, 8232, 123, 10>>,
     <<>> >>
Xs == IF Wide THEN 1..4 ELSE 1..3

VARIABLES st, plan, seen
gvars == <<st, plan, seen>>
M(o, u, xs) == [o |-> o, u |-> u, xs |-> xs]
Messages == UNION {
  {M("open", u, <<x>>) : x \in Xs} \cup {M("change", u, <<x>>) : x \in Xs} \cup {M("change", u, <<x, y>>) : x, y \in Xs \ {1}}
  \cup {M("change", u, <<>>), M("save", u, <<>>), M("close", u, <<>>)} \cup {M("save", u, <<x>>) : x \in Xs}
  \cup (IF Wide THEN {M(o, u, <<>>) : o \in {"note", "badnote", "ask", "bad"}} ELSE {}) : u \in Us}
(* changes and saves of a document that is not open are no part of the protocol *)
Allowed(m) == m.o \in {"change", "save"} => st.docs[m.u].k = "text"
Sent(m) == [o |-> m.o, u |-> m.u, xs |-> [i \in DOMAIN m.xs |-> Texts[m.xs[i]]]]
Do(m) ==
  /\ st' = After(st, m)
  /\ plan' = Append(plan, m)
  \* what a reader of the protocol would say the documents are now
  /\ seen' = [seen EXCEPT ![m.u] = IF m.o = "close" THEN 0 ELSE IF m.o \in Notices /\ m.xs # <<>> THEN m.xs[Len(m.xs)] ELSE @]
GInit == st = After(Fresh(Us), [o |-> "init", u |-> "", xs |-> <<>>]) /\ plan = <<>> /\ seen = [u \in Us |-> 0]
Step == Len(plan) < K /\ \E m \in Messages : Allowed(m) /\ Do(m)
StepAny == Len(plan) < K /\ Do(RandomElement({m \in Messages : Allowed(m)}))
UriSeq == IF Wide THEN <<"file:///a.kdl", "file:///b.kdl", "untitled:1">> ELSE <<"file:///a.kdl", "file:///b.kdl">>
Bare(o, u) == [o |-> o, u |-> u, xs |-> <<>>]
Asked(i) == <<Sent(plan[i])>> \o [j \in DOMAIN UriSeq |-> Bare("diag", UriSeq[j])]
RECURSIVE Flat(_)
Flat(i) == IF i > K THEN <<>> ELSE Asked(i) \o Flat(i + 1)
Over == /\ Len(plan) = K
        /\ PrintT("PLAN " \o ToJson(<<Bare("init", "")>> \o Flat(1) \o <<Bare("shut", "")>>))
        /\ plan' = Append(plan, M("end", "", <<>>)) /\ UNCHANGED <<st, seen>>
GSpec == GInit /\ [][Step \/ Over]_gvars
GSpecAny == GInit /\ [][StepAny \/ Over]_gvars

(* ---- what the specification promises ------------------------------------------ *)
TypeOK == st.phase \in {"new", "running", "down"} /\ \A u \in Us : st.docs[u].k \in {"absent", "text"}
(* the answer depends on the latest text alone *)
Latest == \A u \in Us : st.docs[u] = IF seen[u] = 0 THEN Absent ELSE Holds(seen[u])
(* other documents are not touched *)
Apart == [][\A u \in Us : (Len(plan') > Len(plan) /\ plan'[Len(plan')].u # u) => st'.docs[u] = st.docs[u]]_gvars
(* positions and offsets denote the same places *)
RECURSIVE Before(_, _), ColFrom(_, _, _)
Before(t, p) == IF p = 1 THEN 0 ELSE Before(t, p - 1) + Bytes(t[p - 1])
Positions == \A x \in DOMAIN Texts : \A p \in 1..(Len(Texts[x]) + 1) :
  LET t == Texts[x]
      ls == {q \in 1..p : q = 1 \/ EndsLine(t, q - 1)}
      start == CHOOSE q \in ls : \A r \in ls : r <= q
  IN /\ AtByte(t, Before(t, p), 1) = Settle(t, p)
     /\ AtPosition(t, Cardinality(ls) - 1, ColFrom(t, start, p)) = Settle(t, p)
ColFrom(t, a, b) == IF a >= b THEN 0 ELSE Units(t[a]) + ColFrom(t, a + 1, b)
=============================================================================
