---------------------------- MODULE TraceConvert -----------------------------
(* Conversions between the versions.                                         *)
(*   k = "up": v1_to_v2.  src = the v1 text, ref = what the v1 parser reads  *)
(*       in it (ok, doc), t[1] = the text returned                           *)
(*   k = "down": v2_to_v1.  t[1] = the v2 text, out = the text returned,     *)
(*       ref = what the v1 parser reads in that; t[2] = the same converted   *)
(*       back with ensure_v2                                                 *)
(*   ok = 1, 0 (an error), 2 (a panic)                                       *)
(*   steps = the same through parse and ensure: content before and after,    *)
(*       text, text after a second ensure                                    *)
(*   k = "made": a document that did not come from a text of one version:    *)
(*       doc = its content, afters = after ensure_v2 and ensure_v1, t[1] =   *)
(*       the text after ensure_v2, out and ref = after ensure_v1             *)
EXTENDS TraceBase, KdlConvert

R1 == Results[1]
R2 == Results[2]
Up == Obs.k = "up"
Down == Obs.k = "down"
Made == Obs.k = "made"

(* ---- v1 to v2 ---- *)
UpVerdict == (Up /\ Obs.ref.ok \in {0, 1}) => Obs.ok = Obs.ref.ok
UpValid == (Up /\ Obs.ok = 1) => R1.ok
UpContent == (Up /\ Obs.ok = 1 /\ Obs.ref.ok = 1 /\ R1.ok) => NodesMatch(R1.v, Obs.ref.doc)
UpSteps == (Up /\ Obs.ok = 1 /\ Obs.ref.ok = 1) =>
  /\ Obs.steps.before = Obs.ref.doc /\ Obs.steps.after = Obs.steps.before
  /\ Obs.steps.out = Text(it, 1) /\ Obs.steps.twice = Obs.steps.out

(* ---- v2 to v1 ---- *)
Source == Down /\ R1.ok
DownVerdict == Down => Obs.ok = (IF R1.ok THEN 1 ELSE 0)
Expressed == Source /\ Obs.ok = 1 /\ AllExpressible(Obs.steps.after)
DownValid == Expressed => Obs.ref.ok = 1
DownContent == (Expressed /\ Obs.ref.ok = 1) => NodesMatch(R1.v, Obs.ref.doc)
DownSteps == (Source /\ Obs.ok = 1) => /\ NodesMatch(R1.v, Obs.steps.after) /\ Obs.steps.out = Obs.out /\ Obs.steps.twice = Obs.out
(* there and back *)
DownBack == Expressed => R2.ok /\ NodesSame(R1.v, R2.v)

(* ---- assembled documents ---- *)
MadeSteps == (Made /\ Obs.ok = 1) => Obs.afters = <<Obs.doc, Obs.doc>>
Writable == Made /\ Obs.ok = 1 /\ AllExpressible(Obs.doc)
MadeValid == (Made /\ Obs.ok = 1) => (R1.ok /\ (Writable => Obs.ref.ok = 1))
MadeContent == (Made /\ Obs.ok = 1) => /\ R1.ok => NodesMatch(R1.v, Obs.doc)
                                       /\ (Writable /\ Obs.ref.ok = 1) => Obs.ref.doc = Obs.doc

(* a text that the v1 parser itself, which is not this code, panics on *)
Excused == Up /\ Obs.ref.ok = 2
Report == Last => /\ Say("panic", Obs.k = "none" \/ Excused \/ Obs.ok # 2)
                  /\ Say("verdict", UpVerdict /\ DownVerdict) /\ Say("valid", UpValid /\ DownValid /\ MadeValid) /\ Say("content", UpContent /\ DownContent /\ MadeContent)
                  /\ Say("steps", UpSteps /\ DownSteps /\ MadeSteps) /\ Say("back", DownBack)
=============================================================================
