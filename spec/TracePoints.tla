---------------------------- MODULE TracePoints ------------------------------
(* The parse entry points of the library against KdlEntryPoints.             *)
(*   t[1] = the text, t[2] = the same within a document (an entry: of a      *)
(*          node `n`)                                                        *)
(*   d    = doc, node, entry or ident: which parse functions were called     *)
(*   full = whether the build falls back to v1                               *)
(*   parse, from = what parse and FromStr returned: ok (0, 1; 2 panicked),   *)
(*          doc.c the content, doc.x the same with spans, out the text       *)
(*          printed, err the diagnostics                                     *)
(*   v1   = the same of parse_v1; kv1 = ok and content as the v1 parser      *)
(*          itself has them (ok = 3: not in this build)                      *)
(*   v2   = what KdlDocument::parse_v2 made of t[2]                          *)
EXTENDS TraceBase, KdlEntryPoints

R1 == Results[1]
R2 == Results[2]
Full == Obs.full = 1
V2Says == IF R1.ok THEN "yes" ELSE "no"
V1Says == CASE Obs.kv1.ok = 1 -> "yes" [] Obs.kv1.ok = 0 -> "no" [] OTHER -> "any"
What == Obs.d

Same(v, o) ==
  CASE What \in {"doc", "node"} -> NodesMatch(v, o)
    [] What = "entry" -> EntMatch(v, o)
    [] What = "ident" -> v = o

Owes == Owed(Full, V2Says, V1Says)
Chosen ==
  CASE Owes = "v2" -> Obs.parse.ok = 1 /\ Same(R1.v, Obs.parse.doc.c) /\ Obs.parse.out = Text(it, 1)
    [] Owes = "v1" -> Obs.parse.ok = 1 /\ Obs.parse.doc.c = Obs.kv1.doc /\ Obs.parse = Obs.v1
    [] Owes = "error" -> Obs.parse.ok = 0
    [] OTHER -> TRUE
FromStrIsParse == Obs.from = Obs.parse
(* parse_v1 is the v1 parser *)
V1Agrees == Obs.kv1.ok \in {0, 1} => /\ Obs.v1.ok = Obs.kv1.ok
                                     /\ Obs.v1.ok = 1 => Obs.v1.doc.c = Obs.kv1.doc
(* parse_v2 accepts what v2 accepts, also where there is a fallback; and     *)
(* where v2 wins, parse returns that very document                           *)
V2Agrees == Obs.v2.ok = 1 <=> R2.ok
DocSame == (What = "doc" /\ (R1.ok \/ ~Full)) => Obs.parse = Obs.v2
ErrorSource ==
  (Owes = "error" /\ Obs.parse.ok = 0) =>
    CASE What = "doc" -> Obs.parse.err = Obs.v2.err \/ ("v1" \in ErrorsOf(What, Full) /\ Obs.parse.err = Obs.v1.err)
      [] OTHER -> Full => Obs.parse.err # Obs.v1.err
(* a single node or entry, in a document *)
Within ==
  (Owes = "v2" /\ R2.ok /\ Obs.parse.ok = 1 /\ Obs.v2.ok = 1) =>
    CASE What = "node" -> (Len(R2.v) = 1) => Obs.v2.doc.c = Obs.parse.doc.c
      [] What = "entry" -> (Len(R2.v) = 1 /\ Len(R2.v[1].e) = 1 /\ R2.v[1].c = <<>>) =>
            Len(Obs.v2.doc.c) = 1 /\ Len(Obs.v2.doc.c[1].e) = 1 /\ Obs.v2.doc.c[1].e[1] = Obs.parse.doc.c
      [] What = "ident" -> (Len(R2.v) = 1 /\ R2.v[1].e = <<>> /\ R2.v[1].y = <<>>) =>
            Len(Obs.v2.doc.c) = 1 /\ Obs.v2.doc.c[1].m = Obs.parse.doc.c
      [] OTHER -> TRUE
(* and one alone is accepted where it is accepted in a document *)
Alone == (What = "node" /\ R2.ok /\ Len(R2.v) = 1 /\ R1.ok) => Obs.parse.ok = 1

Report == Last => /\ Say("chosen", Chosen) /\ Say("from-str", FromStrIsParse) /\ Say("v1", V1Agrees) /\ Say("v2", V2Agrees)
                  /\ Say("document", DocSame) /\ Say("errors", ErrorSource) /\ Say("within", Within) /\ Say("alone", Alone)
=============================================================================
