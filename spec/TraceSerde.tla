----------------------------- MODULE TraceSerde ------------------------------
(* Binds KdlSerde to recorded calls of kdl::de::from_str and                 *)
(* kdl::se::to_string.                                                       *)
(*   k = "de": the type sh, the text's content doc (taken = 0: the text      *)
(*       isn't a document), what from_str returned: ok = 1/0/2, v = <<value>>*)
(*       and, for errors, the place err = <<offset, length>> (none: <<>>)    *)
(*       within the text of so many bytes                                    *)
(*   k = "ser": the type sh, the value v written: ok; then t[1] = the text,  *)
(*       back = <<what from_str returned for it>>, none for an error;        *)
(*       same = 1: to_document's text is the same                            *)
(*   fixed = 1: one of the cases of the known findings, which are judged     *)
(*       without allowing for them                                           *)
EXTENDS TraceBase, KdlSerde

IsDe == Obs.k = "de"
IsSer == Obs.k = "ser"
Free == Obs.fixed = 0

(* ---- reading ---- *)
Mapped(nd) == IF Obs.taken = 0 THEN Err ELSE De(nd, Obs.sh, SDoc(Obs.doc))
ReadOk == (IsDe /\ Obs.ok \in {0, 1}) =>
  LET got == IF Obs.ok = 1 THEN Obs.v ELSE Err IN
  got = Mapped(1) \/ (Free /\ got = Mapped(0))
PlaceOk == (IsDe /\ Obs.ok = 0 /\ Obs.err # <<>>) => Obs.err[1] >= 0 /\ Obs.err[1] + Obs.err[2] <= Obs.bytes

(* ---- writing ---- *)
WriteOk == (IsSer /\ Obs.ok = 0) => Ser(Obs.sh, Obs.v) = Err
ValidOk == (IsSer /\ Obs.ok = 1) => Results[1].ok
SameOk == (IsSer /\ Obs.ok = 1) => Obs.same = 1
BackOk == (IsSer /\ Obs.ok = 1) => Obs.back = Ok(Obs.v) \/ (Free /\ LeftOutAtRoot(Obs.sh, Obs.v))

Report == Last => /\ Say("panic", Obs.ok # 2) /\ Say("mapping", ReadOk) /\ Say("place", PlaceOk)
                  /\ Say("written", WriteOk) /\ Say("valid", ValidOk) /\ Say("back", BackOk) /\ Say("document", SameOk)
=============================================================================
