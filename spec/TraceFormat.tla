---------------------------- MODULE TraceFormat -----------------------------
(* Formatting.  A record holds two texts: what was formatted (t[1]) and what *)
(* came out of it (t[2]); the reader reads both.                             *)
(*   k = "auto": autoformat_config with lvl, ind, nc, keep                   *)
(*       again = text after formatting once more, in memory                  *)
(*       reread = text after reading t[2] back and formatting that           *)
(*       then = after formatting that with another configuration, in memory  *)
(*             and read back first                                           *)
(*       keep = by the configuration, or by a mark on every entry            *)
(*       v1 = a build that reads v1 too, in which kept strings may change     *)
(*       partly = the formatting of some elements was dropped before         *)
(*   k = "clear": clear_format_recursive                                     *)
(*       eq = [the cleared document equals the cleared reading of its own    *)
(*             text, and the one built from the content with constructors],  *)
(*       others = their texts                                                *)
(*   ok = 1, or 2 when a call panicked                                       *)
EXTENDS TraceBase

S1 == Text(it, 1)
S2 == Text(it, 2)

(* ---- what lies between the elements of a text --------------------------- *)
(* what autoformatting may move or drop: blanks, line continuations,         *)
(* semicolons and the byte-order mark                                        *)
Layout(c) == IsSpace(c) \/ IsNl(c) \/ c \in {92, 59, 65279}
NotLayout(c) == ~Layout(c)
Strip(t) == SelectSeq(t, NotLayout)
Between(t, a, b) == Strip(SubSeq(t, a, b - 1))      \* [a, b)

(* the comments (and slashdashed things) around the nodes of a block:        *)
(* before each node, and between the end of each node and the end of its     *)
(* terminator; last the end of the block                                     *)
RECURSIVE Around(_, _, _, _)
Around(t, ns, from, to) ==
  [gaps |-> [i \in DOMAIN ns |-> Between(t, ns[i].g, ns[i].st)],
   tails |-> [i \in DOMAIN ns |-> Between(t, ns[i].en, ns[i].tn)],
   last |-> Between(t, from, to),
   kids |-> [i \in DOMAIN ns |-> IF ns[i].c = <<>> THEN <<>>
                                 ELSE <<Around(t, ns[i].c[1], ns[i].cg, ns[i].cp[1][2] - 1)>>]]

RECURSIVE Empty(_)
Empty(a) == /\ a.last = <<>>
            /\ \A i \in DOMAIN a.gaps : a.gaps[i] = <<>> /\ a.tails[i] = <<>>
            /\ \A i \in DOMAIN a.kids : a.kids[i] = <<>> \/ Empty(a.kids[i][1])
(* the kept comments, in order: an empty block is no place for a difference *)
RECURSIVE SameAround(_, _)
SameAround(a, b) ==
  /\ a.gaps = b.gaps /\ a.tails = b.tails /\ a.last = b.last
  /\ \A i \in DOMAIN a.kids : IF a.kids[i] = <<>> THEN b.kids[i] = <<>> ELSE b.kids[i] # <<>> /\ SameAround(a.kids[i][1], b.kids[i][1])

(* all of it in the order of the text: without a terminator of its own, what *)
(* follows a node may count as part of the next gap after formatting         *)
RECURSIVE Flat(_, _)
Flat(a, i) ==
  IF i > Len(a.gaps) THEN a.last
  ELSE a.gaps[i] \o (IF a.kids[i] = <<>> THEN <<>> ELSE Flat(a.kids[i][1], 1)) \o a.tails[i] \o Flat(a, i + 1)

(* nothing but blanks (and punctuation) between the parts of every node *)
Blank(t, a, b) == \A i \in a..(b - 1) : IsSpace(t[i]) \/ IsNl(t[i]) \/ t[i] \in {59, 61, 40, 41, 123, 125}
EntryBlank(t, e) ==
  /\ e.kp = <<>> \/ Blank(t, e.kp[1][2], IF e.yp = <<>> THEN e.vp ELSE e.yp[1][1])
  /\ e.yp = <<>> \/ (Blank(t, e.yp[1][2], e.vp) /\ (e.kp = <<>> => Blank(t, e.st, e.yp[1][1])))
RECURSIVE NodesBlank(_, _)
NodeBlank(t, n) ==
  /\ Blank(t, n.g, n.st) /\ Blank(t, n.en, n.tn)
  /\ n.yp = <<>> \/ (Blank(t, n.st, n.yp[1][1]) /\ Blank(t, n.yp[1][2], n.mp[1]))
  /\ \A i \in DOMAIN n.e : EntryBlank(t, n.e[i]) /\ Blank(t, IF i = 1 THEN n.mp[2] ELSE n.e[i - 1].en, n.e[i].st)
  /\ n.c = <<>> \/ /\ Blank(t, IF n.e = <<>> THEN n.mp[2] ELSE n.e[Len(n.e)].en, n.cp[1][1])
                   /\ Blank(t, n.cg, n.cp[1][2]) /\ NodesBlank(t, n.c[1])
NodesBlank(t, ns) == \A i \in DOMAIN ns : NodeBlank(t, ns[i])

(* ---- where nodes stand ---------------------------------------------------- *)
RECURSIVE LineStart(_, _)
LineStart(t, p) == IF p = 1 \/ IsNl(t[p - 1]) THEN p ELSE LineStart(t, p - 1)
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN <<>> ELSE x \o Times(x, n - 1)
Indented(t, p, n) == SubSeq(t, LineStart(t, p), p - 1) = Times(Obs.ind, n)
(* a node takes one line, up to the end of its last entry or to its `{`;     *)
(* entries that are kept as they are may have newlines in them               *)
OneLine(t, a, b) == \A p \in a..(b - 1) : ~IsNl(t[p])
HeadEnd(n) == CASE Obs.keep = 1 -> n.mp[2]
                [] n.c # <<>> -> n.cp[1][1] + 1
                [] n.e # <<>> -> n.e[Len(n.e)].en
                [] OTHER -> n.mp[2]
RECURSIVE Placed(_, _, _)
Placed(t, ns, n) ==
  \A i \in DOMAIN ns :
    /\ Indented(t, ns[i].st, n)
    /\ i > 1 => \E p \in ns[i - 1].en..(ns[i].st - 1) : IsNl(t[p])
    /\ OneLine(t, ns[i].st, HeadEnd(ns[i]))
    /\ ns[i].c # <<>> =>
         /\ Placed(t, ns[i].c[1], n + 1)
         /\ ns[i].c[1] # <<>> => Indented(t, ns[i].cp[1][2] - 1, n)

(* with entry_autoformate_keep, values are written as before, after what was *)
(* before their entries; but strings are brought up to date where v1 is read, *)
(* and so is what is before an entry by itself                               *)
Updated(e) == Obs.v1 = 1 /\ e.v.t = "s"
SameEntry(e1, b1, e2, b2) == /\ Updated(e1) \/ SubSeq(S1, e1.vp, e1.en - 1) = SubSeq(S2, e2.vp, e2.en - 1)
                             /\ \/ Obs.v1 = 1 /\ Obs.k = "kept"
                                \/ SubSeq(S1, b1, e1.st - 1) = SubSeq(S2, b2, e2.st - 1)
EntryFrom(n, i) == IF i = 1 THEN n.mp[2] ELSE n.e[i - 1].en
RECURSIVE SameEntries(_, _)
SameEntries(as, bs) ==
  \A i \in DOMAIN as :
    /\ \A j \in DOMAIN as[i].e : SameEntry(as[i].e[j], EntryFrom(as[i], j), bs[i].e[j], EntryFrom(bs[i], j))
    /\ as[i].c # <<>> => SameEntries(as[i].c[1], bs[i].c[1])

(* ---- verdicts -------------------------------------------------------------- *)
R1 == Results[1]
R2 == Results[2]
A1 == Around(S1, R1.v, R1.gs, Len(S1) + 1)
A2 == Around(S2, R2.v, R2.gs, Len(S2) + 1)
Fine == Obs.ok = 1 /\ R1.ok
Auto == Fine /\ Obs.k = "auto"
Clear == Fine /\ Obs.k = "clear"

M == Mode(it, 1)
Tree == M \in {"doc", "node"}
ContentKept == Fine => R2.ok /\ CASE Tree -> NodesSame(R1.v, R2.v) [] M = "entry" -> EntSame(R1.v, R2.v) [] M = "ident" -> R1.v = R2.v
Again == Auto => Obs.again = S2 /\ Obs.reread = S2 /\ Obs.then[1] = Obs.then[2]
LaidOut == (Auto /\ R2.ok) => Placed(S2, R2.v, Obs.lvl)
CommentsKept == (Auto /\ R2.ok /\ Obs.nc = 0) => IF Obs.partly = 1 THEN Flat(A1, 1) = Flat(A2, 1) ELSE SameAround(A1, A2)
CommentsGone == (Auto /\ R2.ok /\ Obs.nc = 1) => IF Obs.keep = 1 THEN Empty(A2) ELSE NodesBlank(S2, R2.v) /\ Blank(S2, R2.gs, Len(S2) + 1)
Cleared == (Clear /\ R2.ok) =>
  CASE Tree -> NodesBlank(S2, R2.v) /\ Blank(S2, R2.gs, Len(S2) + 1)
    [] M = "entry" -> EntryBlank(S2, R2.v) /\ R2.v.st = 1 /\ R2.v.en = Len(S2) + 1
    [] M = "ident" -> TRUE
Canonical == Clear => \A i \in DOMAIN Obs.eq : Obs.eq[i] = 1 /\ Obs.others[i] = S2

Kept == (Fine /\ R2.ok) =>
  CASE Auto /\ Tree /\ Obs.keep = 1 -> SameEntries(R1.v, R2.v)
    [] Obs.k = "kept" -> SameEntry(R1.v, 1, R2.v, 1)
    [] OTHER -> TRUE

Report == Last => /\ Say("panic", Obs.ok # 2) /\ Say("content", ContentKept) /\ Say("again", Again) /\ Say("layout", LaidOut)
                  /\ Say("comments", CommentsKept) /\ Say("no-comments", CommentsGone)
                  /\ Say("cleared", Cleared) /\ Say("canonical", Canonical)
                  /\ Say("kept", ContentKept => Kept)
=============================================================================
