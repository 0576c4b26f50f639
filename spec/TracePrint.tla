----------------------------- MODULE TracePrint -----------------------------
(* Values, identifiers and trees assembled through constructors print as     *)
(* valid KDL that denotes them.                                              *)
(*   t = <<the printed text>>, doc = the content that was printed            *)
EXTENDS TraceBase

Content ==
  CASE mode \in {"doc", "node"} -> NodesMatch(stk[1].nodes, Obs.doc)
    [] mode = "entry" -> EntMatch(stk[1].nodes, Obs.doc)
    [] mode = "ident" -> stk[1].nodes = Obs.doc
(* k = "access": what a value's accessors say: is_string, is_integer,        *)
(* is_float, is_bool, is_null; as_string, as_integer, as_float, as_bool      *)
Kinds == <<"s", "i", "f", "b", "z">>
Access ==
  Obs.k = "access" => \A i \in 1..5 :
    /\ Obs.kinds[i] = IF Obs.doc.v.t = Kinds[i] THEN 1 ELSE 0
    /\ Obs.as[i] = IF Obs.doc.v.t = Kinds[i] /\ i < 5 THEN <<Obs.doc.v>> ELSE <<>>
Done == Obs.ok = 1 /\ Obs.k = "made"
Report == Last => /\ Say("panic", Obs.ok # 2) /\ Say("access", Access)
                  /\ (Done => Say("valid", ctl = "ok"))
                  /\ (Done /\ ctl = "ok" => Say("content", Content))
=============================================================================
