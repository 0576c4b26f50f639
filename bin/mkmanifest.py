#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "P01": "Texts enumerated exhaustively over 30 tokens up to 3 plus seeded generation; the printed text and the printed pieces are compared with the source and with the positions KdlReader.tla assigns.",
 "P02": "KdlReader.tla (pushdown machine) gives the verdict for each text; exhaustive over 30 tokens up to length 3, characters up to 3, code points in 21 contexts, plus generated and mutated texts.",
 "P03": "The tree KdlReader.tla builds is compared with the tree the library returned for the same text.",
 "P04": "KdlNum.tla does unbounded digit arithmetic: integers exactly, floats by comparing the written decimal with the midpoints to the neighbouring f64.",
}
NOTE.update({
 "P10": "Code-point positions of every element in KdlReader.tla are turned into byte offsets and compared with the spans the library reports.",
 "P11": "Outcome and diagnostics of 15 parse entry points on nested, truncated, mutated and random texts, judged by TraceDiag.tla; hangs and stack overflows are caught by a watchdog and by separate processes.",
})
NOTE.update({
 "P05": "Values, entries, nodes and trees assembled through the constructors and setters; TracePrint.tla reads the printed text with KdlReader and compares the tree with the one that was assembled.",
 "P06": "TraceFormat.tla reads source and result with KdlReader: same tree, same comments in order, line and indent of every node and closing brace, second run unchanged; 24 configurations.",
 "P07": "TraceFormat.tla: the text after clear_format reads as the same tree, has no comment or slashdash, and is the same for every layout of the same content.",
 "P12": "TraceEq.tla decides equality of both sides from their structure and compares with ==, symmetric ==, hashes and clones.",
})
NOTE.update({
 "P08": "KdlEdit.tla specifies every reading and editing call on documents and nodes; every pair of calls on small documents and long random walks through it are replayed on the real objects, and random histories recorded from them are followed by TraceEdit.tla (content, element identity, results, panics).",
 "P09": "The same histories; after every call the printed text must read (KdlReader) as the edited content and consist of the untouched pieces of the source in order, with only the permitted glue between (KdlEdit!DocText).",
})
NOTE.update({
 "P13": "v1_to_v2, v2_to_v1, ensure_v1 and ensure_v2 on generated texts of both versions and on assembled documents: KdlReader reads the v2 side, the v1 parser crate (not part of this repository) the v1 side, and TraceConvert.tla compares content, verdict, repeated conversion and the way back.",
 "P14": "KdlEntryPoints.tla says which result each of parse, from_str, parse_v1 and parse_v2 owes, in both feature configurations; KdlReader gives the v2 verdict, the v1 parser crate the v1 verdict.",
 "P17": "KdlLsp.tla specifies the server (document store, reports, positions in UTF-16); every session of three messages, long random walks through it and random sessions are run against the real kdl-lsp process over stdio, and its answers are judged by TraceLsp.tla.",
})
NOTE.update({
 "P15": "KdlSerde.tla specifies what each type is given at each place of a document and makes of it; from_str is run for types described by data (their visitors ask and take as derived ones do) and for derived types on all small documents, on documents that fit the type more or less, and on documents TLC derives from other types' values; TraceSerde.tla compares values.",
 "P16": "KdlSerde.tla writes values as documents; TLC checks for all types of one or two fields at eight places that what is written reads back (GenSerde.tla), and each value is replayed through to_string and from_str, as are random values of random and derived types; TraceSerde.tla judges errors, validity (KdlReader), the value read back and to_document.",
})
TECH = "explicit TLA+ specification checked with TLC; recorded runs of the library are validated against it, and behaviours it generates are replayed"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "model_checking", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": "check under construction: the specification for it is not bound to the code yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "hooks": {"guard": "none", "enable": "no hooks: the public API suffices", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
