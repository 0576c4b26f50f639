---------------------------- MODULE TraceReader -----------------------------
(* Binds KdlReader to recorded calls of the library's parse functions.       *)
(*   t = <<one text>>, ok = 1/0/2 (accepted, rejected, panicked)             *)
(*   doc = the content returned (document: nodes; node: <<node>>; entry;     *)
(*         identifier: its code points)                                      *)
(*   out = <<printed text>> when accepted                                    *)
(*   pieces = for documents: <<leading, node texts..., trailing>> lengths    *)
EXTENDS TraceBase

Content ==
  CASE mode \in {"doc", "node"} -> NodesMatch(stk[1].nodes, Obs.doc)
    [] mode = "entry" -> EntMatch(stk[1].nodes, Obs.doc)
    [] mode = "ident" -> stk[1].nodes = Obs.doc

NoPanic == Obs.ok # 2
VerdictOk == Obs.ok = (IF ctl = "ok" THEN 1 ELSE 0)
Both == ctl = "ok" /\ Obs.ok = 1
TreeOk == Both => Content
(* printing gives the text back *)
PrintOk == Obs.ok = 1 => Obs.out = s
(* len() counts the bytes of the text *)
SX == INSTANCE SequencesExt
Bytes(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
LenOk == Obs.ok = 1 => Obs.len = <<SX!FoldLeft(LAMBDA n, c : n + Bytes(c), 0, Obs.out), IF Obs.out = <<>> THEN 1 ELSE 0>>
(* the printed pieces follow each other, and each contains its own node *)
RECURSIVE PieceStarts(_, _, _)
PieceStarts(ps, i, acc) == IF i > Len(ps) THEN acc ELSE PieceStarts(ps, i + 1, Append(acc, acc[Len(acc)] + ps[i]))
PiecesOk ==
  (Both /\ mode = "doc") =>
    LET ps == Obs.pieces  st == PieceStarts(ps, 1, <<1>>)  ns == stk[1].nodes IN
    /\ Len(ps) = Len(ns) + 2
    /\ st[Len(st)] = Len(s) + 1
    /\ \A i \in DOMAIN ns : st[i + 1] <= ns[i].st /\ ns[i].tn <= st[i + 2]

Report == Last => /\ Say("panic", NoPanic)
                  /\ (Obs.ok = 2 \/ (/\ Say("verdict", VerdictOk) /\ Say("tree", TreeOk)
                                     /\ Say("print", PrintOk) /\ Say("length", LenOk) /\ Say("pieces", PiecesOk)))
=============================================================================
