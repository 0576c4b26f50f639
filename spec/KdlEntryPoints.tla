--------------------------- MODULE KdlEntryPoints ----------------------------
(* Which result a parse entry point owes, as a function of what the two      *)
(* readers make of the text.                                                 *)
(*   v2, v1 \in {"yes", "no", "any"}: the text is valid, is not, or the      *)
(*   reader gives no answer (the v1 parser is a crate of its own, and may    *)
(*   panic)                                                                  *)
(*   build: whether the build falls back to v1                               *)
(*   what:  the kind of thing parsed                                         *)
EXTENDS Naturals

Answers == {"yes", "no", "any"}
Kinds == {"doc", "node", "entry", "ident"}

(* parse, and FromStr *)
Owed(fallback, v2, v1) ==
  CASE v2 = "yes" -> "v2"
    [] v2 = "no" /\ ~fallback -> "error"
    [] v2 = "no" /\ v1 = "yes" -> "v1"
    [] v2 = "no" /\ v1 = "no" -> "error"
    [] OTHER -> "any"
(* whose errors are reported when both reject: a document's may be either,   *)
(* everything else reports the v2 ones                                       *)
ErrorsOf(what, fallback) == IF what = "doc" /\ fallback THEN {"v2", "v1"} ELSE {"v2"}

ASSUME \A f \in BOOLEAN, a \in {"yes", "no"}, b \in {"yes", "no"} :
  /\ Owed(f, a, b) = "error" <=> (a = "no" /\ (~f \/ b = "no"))
  /\ Owed(f, a, b) = "v2" <=> a = "yes"
=============================================================================
