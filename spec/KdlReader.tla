----------------------------- MODULE KdlReader ------------------------------
(***************************************************************************)
(* A KDL v2 reader as a pushdown state machine over a text.                *)
(* One action per grammar element; the stack holds one frame per open      *)
(* child block.  The machine ends in ctl = "ok" with the tree the text     *)
(* denotes, or in ctl = "err" when the text is not a document.             *)
(*                                                                         *)
(*   frame  = [kind, nodes, cur, open, gs]                                 *)
(*     kind : "doc" | "kids" | "sdkids"  (document, child block, and       *)
(*            slashdash'd child block, whose content is discarded)         *)
(*     nodes: completed nodes of this block, in order                      *)
(*     cur  : the node being read in this block                            *)
(*                                                                         *)
(* A session reads the texts of one record one after another, so that      *)
(* properties can relate them (source and formatted text, for example).    *)
(* Mode(i, k) says what the k-th text of record i is read as: a document,  *)
(* one node, one entry or one identifier.                                  *)
(***************************************************************************)
EXTENDS KdlLex, TLC

CONSTANT Text(_, _)      \* Text(i, k): the k-th text of record i, a sequence of code points
CONSTANT Mode(_, _)      \* "doc" | "node" | "entry" | "ident" | "skip"
CONSTANT NTexts(_)       \* how many texts record i has (at least one)
CONSTANT Indices         \* the records

VARIABLES it,    \* record
          tx,    \* which of its texts is being read
          pos,   \* position in that text
          ctl,   \* control state
          stk,   \* frames of the open blocks
          res    \* results for the texts before: [ok, v]
vars == <<it, tx, pos, ctl, stk, res>>

NoNode == [none |-> TRUE]
(* gs: where the gap before the next node starts; open: position of the brace *)
Frame(kind, open, p) == [kind |-> kind, nodes |-> <<>>, cur |-> NoNode, open |-> open, gs |-> p]
Top == stk[Len(stk)]
SetTop(f) == [stk EXCEPT ![Len(stk)] = f]
Depth == Len(stk)
s == Text(it, tx)
mode == Mode(it, tx)

Init == /\ it \in Indices
        /\ tx = 1
        /\ pos = 1
        /\ ctl = "start"
        /\ stk = <<Frame("doc", 0, 1)>>
        /\ res = <<>>

Verdicts == {"ok", "err"}
Running == ctl \notin Verdicts
Fail == ctl' = "err" /\ UNCHANGED <<it, tx, pos, stk, res>>
Go(p, c) == pos' = p /\ ctl' = c /\ UNCHANGED <<it, tx, res>>

(* A byte-order mark may be the very first code point of a document. *)
Start == /\ ctl = "start" /\ mode \in {"doc", "node"}
         /\ Go(IF mode = "doc" /\ At(s, 1) = 65279 THEN 2 ELSE 1, "line")
         /\ UNCHANGED stk

(* A text that is only carried along. *)
Skip == ctl = "start" /\ mode = "skip" /\ Go(1, "ok") /\ UNCHANGED stk

(* One identifier: any string, and nothing else. *)
StartIdent ==
  /\ ctl = "start" /\ mode = "ident"
  /\ LET t == StringTok(s, 1) IN
     IF t.ok /\ At(s, t.end) = EOF THEN Go(t.end, "ok") /\ stk' = SetTop([Top EXCEPT !.nodes = t.v]) ELSE Fail

(* One entry: line space and slashdash'd entries may come before it, line space after it. *)
StartEntry == ctl = "start" /\ mode = "entry" /\ UNCHANGED stk
              /\ LET p == LineSpaceEnd(s, 1) IN IF p = 0 THEN Fail ELSE Go(p, "entry")
SoleElidedEntry ==
  /\ ctl = "entry" /\ IsDash(s, pos)
  /\ LET q == LineSpaceEnd(s, pos + 2)
         e == IF q = 0 \/ IsDash(s, q) THEN Bad ELSE EntryTok(s, q)
         r == IF e.ok THEN NodeSpaceEnd(s, e.end) ELSE 0
     IN IF r > e.end THEN Go(r, "entry") /\ UNCHANGED stk ELSE Fail
SoleEntry ==
  /\ ctl = "entry" /\ ~IsDash(s, pos)
  /\ LET e == EntryTok(s, pos)
         q == IF e.ok THEN LineSpaceEnd(s, e.end) ELSE 0
     IN IF q > 0 /\ At(s, q) = EOF THEN Go(q, "ok") /\ stk' = SetTop([Top EXCEPT !.nodes = e.v]) ELSE Fail

(* ---- between nodes: ctl = "line" --------------------------------------- *)
LineEnd == LineSpaceEnd(s, pos)

EndDocument ==
  /\ ctl = "line" /\ LineEnd > 0 /\ At(s, LineEnd) = EOF /\ Depth = 1 /\ mode = "doc"
  /\ Go(LineEnd, "ok") /\ UNCHANGED stk

(* after the only node of a text read as one node *)
EndSoleNode ==
  /\ ctl = "sole"
  /\ IF LineEnd > 0 /\ At(s, LineEnd) = EOF THEN Go(LineEnd, "ok") /\ UNCHANGED stk ELSE Fail

(* name and optional type of a node at p *)
HeadTok(p) ==
  LET t == IF At(s, p) = 40 THEN TypeTok(s, p) ELSE Good(p, <<>>)
      q == IF t.ok THEN NodeSpaceEnd(s, t.end) ELSE 0
      n == IF q = 0 THEN Bad ELSE IF At(s, p) # 40 /\ q # p THEN Bad ELSE StringTok(s, q)
  IN IF ~n.ok THEN Bad
     ELSE Good(n.end, [y |-> IF At(s, p) = 40 THEN <<t.v.ty>> ELSE <<>>,
                       yp |-> IF At(s, p) = 40 THEN <<<<t.v.st, t.v.en>>>> ELSE <<>>,
                       m |-> n.v, mp |-> <<q, n.end>>, st |-> p])
Begin(h, elided) ==
  [none |-> FALSE, y |-> h.y, yp |-> h.yp, m |-> h.m, mp |-> h.mp,
   g |-> Top.gs,          \* start of the gap before the node
   st |-> h.st,           \* first position of the node
   en |-> h.mp[2],        \* position after its last name, entry or block
   te |-> 0, tn |-> 0,    \* start of its terminator, position after it
   e |-> <<>>, c |-> <<>>, cp |-> <<>>, cg |-> 0, elided |-> elided]

IsHeadStart(p) == At(s, p) # EOF /\ At(s, p) # 125 /\ ~IsDash(s, p)

BeginNode ==
  /\ ctl = "line" /\ LineEnd > 0 /\ IsHeadStart(LineEnd)
  /\ LET h == HeadTok(LineEnd) IN
     IF h.ok THEN Go(h.end, "ents") /\ stk' = SetTop([Top EXCEPT !.cur = Begin(h.v, FALSE)]) ELSE Fail

BeginElidedNode ==
  /\ ctl = "line" /\ LineEnd > 0 /\ IsDash(s, LineEnd)
  /\ LET r == LineSpaceEnd(s, LineEnd + 2) IN
     IF r = 0 \/ ~IsHeadStart(r) THEN Fail
     ELSE LET h == HeadTok(r) IN
          IF h.ok THEN Go(h.end, "ents") /\ stk' = SetTop([Top EXCEPT !.cur = Begin(h.v, TRUE)]) ELSE Fail

(* '}' closes the block: its nodes become the children of the node one frame below *)
CloseBlock ==
  /\ ctl = "line" /\ LineEnd > 0 /\ At(s, LineEnd) = 125 /\ Depth > 1
  /\ LET below == stk[Depth - 1]
         isKids == Top.kind = "kids"
         n == IF isKids THEN [below.cur EXCEPT !.c = <<Top.nodes>>, !.cp = <<<<Top.open, LineEnd + 1>>>>, !.cg = Top.gs, !.en = LineEnd + 1]
              ELSE below.cur
     IN /\ stk' = Append(SubSeq(stk, 1, Depth - 2), [below EXCEPT !.cur = n])
        /\ Go(LineEnd + 1, IF isKids THEN "after0" ELSE IF n.c = <<>> THEN "sdkids" ELSE "after")

LineError ==
  /\ ctl = "line"
  /\ \/ LineEnd = 0
     \/ At(s, LineEnd) = EOF /\ Depth > 1
     \/ At(s, LineEnd) = 125 /\ Depth = 1
     \/ At(s, LineEnd) = EOF /\ mode = "node"
  /\ Fail

(* ---- inside a node ------------------------------------------------------ *)
(* "ents"  : after the name or an entry                                      *)
(* "sdkids": after a slashdash'd block, before any real block: no entries    *)
(* "after0": right after the real block; "after": after a later slashdash'd  *)
(*           block                                                           *)
InNode == ctl \in {"ents", "sdkids", "after0", "after"}
Sp == NodeSpaceEnd(s, pos)
HadSpace == Sp > pos

Finish(f, te, tn) ==
  IF f.cur.elided THEN [f EXCEPT !.cur = NoNode]
  ELSE [f EXCEPT !.nodes = Append(@, [f.cur EXCEPT !.te = te, !.tn = tn]), !.cur = NoNode, !.gs = tn]
TermEnd(p) == \* position after the terminator at p, 0 when there is none
  IF At(s, p) = 59 THEN p + 1
  ELSE IF NlLen(s, p) > 0 THEN p + NlLen(s, p)
  ELSE IF IsLineC(s, p) THEN LineCommentEnd(s, p)
  ELSE IF At(s, p) = EOF THEN p
  ELSE IF At(s, p) = 125 /\ Depth > 1 THEN p
  ELSE 0

EndNode ==
  /\ InNode /\ Sp > 0 /\ TermEnd(Sp) > 0
  /\ Go(TermEnd(Sp), IF mode = "node" /\ Depth = 1 /\ ~Top.cur.elided THEN "sole" ELSE "line")
  /\ stk' = SetTop(Finish(Top, Sp, TermEnd(Sp)))

OpenBlock ==
  /\ ctl \in {"ents", "sdkids"} /\ Sp > 0 /\ At(s, Sp) = 123
  /\ Go(Sp + 1, "line")
  /\ stk' = Append(stk, Frame("kids", Sp, Sp + 1))

(* position of what a slashdash at Sp comments out *)
DashTarget == LineSpaceEnd(s, Sp + 2)
DashHere == InNode /\ Sp > 0 /\ IsDash(s, Sp)
OpenElidedBlock ==
  /\ DashHere /\ (HadSpace \/ ctl = "after0") /\ DashTarget > 0 /\ At(s, DashTarget) = 123
  /\ Go(DashTarget + 1, "line")
  /\ stk' = Append(stk, Frame("sdkids", DashTarget, DashTarget + 1))

ElidedEntry ==
  /\ DashHere /\ HadSpace /\ ctl = "ents" /\ DashTarget > 0 /\ At(s, DashTarget) # 123
  /\ LET e == EntryTok(s, DashTarget) IN
     IF e.ok THEN Go(e.end, "ents") /\ UNCHANGED stk ELSE Fail

Entry ==
  /\ ctl = "ents" /\ Sp > 0 /\ TermEnd(Sp) = 0 /\ At(s, Sp) # 123 /\ ~IsDash(s, Sp) /\ HadSpace
  /\ LET e == EntryTok(s, Sp) IN
     IF e.ok THEN /\ Go(e.end, "ents")
                  /\ stk' = SetTop([Top EXCEPT !.cur.e = Append(@, e.v), !.cur.en = e.end])
     ELSE Fail

NodeError ==
  /\ InNode
  /\ \/ Sp = 0
     \/ /\ Sp > 0 /\ TermEnd(Sp) = 0
        /\ IF IsDash(s, Sp)
           THEN \/ DashTarget = 0
                \/ At(s, DashTarget) = 123 /\ ~(HadSpace \/ ctl = "after0")
                \/ At(s, DashTarget) # 123 /\ ~(HadSpace /\ ctl = "ents")
           ELSE IF At(s, Sp) = 123 THEN ctl \in {"after0", "after"}
           ELSE ~(ctl = "ents" /\ HadSpace)
  /\ Fail

(* ---- sessions ------------------------------------------------------------- *)
Verdict == [ok |-> ctl = "ok", v |-> IF ctl = "ok" THEN stk[1].nodes ELSE <<>>, gs |-> stk[1].gs]
Last == ~Running /\ tx = NTexts(it)
NextText ==
  /\ ~Running /\ tx < NTexts(it)
  /\ tx' = tx + 1 /\ pos' = 1 /\ ctl' = "start" /\ stk' = <<Frame("doc", 0, 1)>>
  /\ res' = Append(res, Verdict) /\ UNCHANGED it
(* results of all texts, once the session is over *)
Results == Append(res, Verdict)

(* the only step left once the session is over; anything else stuck is a deadlock TLC reports *)
Halt == Last /\ UNCHANGED vars

Next == \/ Halt \/ NextText \/ Skip \/ Start \/ StartIdent \/ StartEntry \/ SoleElidedEntry \/ SoleEntry
        \/ EndDocument \/ EndSoleNode \/ BeginNode \/ BeginElidedNode \/ CloseBlock \/ LineError
        \/ EndNode \/ OpenBlock \/ OpenElidedBlock \/ ElidedEntry \/ Entry \/ NodeError

Spec == Init /\ [][Next]_vars

(* ---- properties of the machine itself ----------------------------------- *)
TypeOK == /\ ctl \in {"start", "line", "ents", "sdkids", "after0", "after", "entry", "sole", "ok", "err"}
          /\ pos \in 1..(Len(s) + 1)
          /\ tx \in 1..NTexts(it) /\ Len(res) = tx - 1
          /\ Depth >= 1 /\ stk[1].kind = "doc"
          /\ \A i \in 2..Depth : stk[i].kind \in {"kids", "sdkids"} /\ ~stk[i - 1].cur.none
(* every step consumes text or moves on to the next text *)
Monotone == [][pos' >= pos \/ tx' > tx]_vars
=============================================================================
