"""What each property's check runs."""
from vlib import *


def read(c, mode, corpus, name, names, seed=None, kind="v2"):
    t = c.harness(kind, ["parse", mode, corpus, c.seed if seed is None else seed], name)
    return c.judge("TraceReader", t, name, names)


def P01(c):
    build()
    k = c.n(1, 12)
    names = {"print", "pieces", "length", "panic"}
    read(c, "doc", "cases,tok:3", "doc-exhaustive", names)
    for i in range(k):
        read(c, "doc", "gen:8000,long:300,mut:4000,str:1000", "doc-%d" % i, names, c.seed + i)
        read(c, "node", "node:4000", "node-%d" % i, names, c.seed + i)
        read(c, "entry", "ent:5000", "entry-%d" % i, names, c.seed + i)
        read(c, "ident", "ident:3000", "ident-%d" % i, names, c.seed + i)
    return c.finish()


def P02(c):
    build()
    k = c.n(1, 12)
    names = {"verdict", "panic"}
    read(c, "doc", "cases,tok:3,cp" + (",chr:4" if c.thorough() else ",chr:3"), "doc-exhaustive", names)
    for m in ("node", "entry", "ident"):
        read(c, m, "tok:%d" % c.n(2, 3), m + "-exhaustive", names)
    for i in range(k):
        read(c, "doc", "gen:4000,mut:12000,tokr:12000,str:3000,num:2000", "doc-%d" % i, names, c.seed + i)
        read(c, "node", "node:3000", "node-%d" % i, names, c.seed + i)
        read(c, "entry", "ent:3000", "entry-%d" % i, names, c.seed + i)
        read(c, "ident", "ident:2000", "ident-%d" % i, names, c.seed + i)
    return c.finish()


def P03(c):
    build()
    k = c.n(1, 12)
    names = {"tree", "panic"}
    read(c, "doc", "cases,tok:3", "doc-exhaustive", names)
    for i in range(k):
        read(c, "doc", "gen:10000,long:300,mut:4000,str:8000", "doc-%d" % i, names, c.seed + i)
        read(c, "node", "node:3000", "node-%d" % i, names, c.seed + i)
        read(c, "entry", "ent:3000", "entry-%d" % i, names, c.seed + i)
        read(c, "ident", "ident:2000", "ident-%d" % i, names, c.seed + i)
    return c.finish()


def P04(c):
    build()
    k = c.n(1, 12)
    names = {"verdict", "tree", "panic"}
    for i in range(k):
        read(c, "doc", "num:16000" + (",nex:%d" % c.n(4, 5) if i == 0 else ""), "num-%d" % i, names, c.seed + i)
    return c.finish()


def P10(c):
    build()
    names = {"spans", "panic"}
    for i in range(c.n(1, 12)):
        t = c.harness("v2", ["parse", "spans-doc", ("cases,tok:3," if i == 0 else "") + "gen:12000,long:400,mut:3000,str:2000", c.seed + i], "doc-%d" % i)
        c.judge("TraceSpans", t, "doc-%d" % i, names)
        for m, corpus in (("node", "node:3000"), ("entry", "ent:3000"), ("ident", "ident:1500")):
            t = c.harness("v2", ["parse", "spans-" + m, corpus, c.seed + i], "%s-%d" % (m, i))
            c.judge("TraceSpans", t, "%s-%d" % (m, i), names)
    return c.finish()


EPS_V2 = ("doc-v2", "node", "entry", "ident")
EPS_FULL = ("doc", "doc-v1", "node", "node-v1", "entry", "entry-v1", "ident", "ident-v1", "v1-to-v2", "v2-to-v1")


def P11(c):
    build(("v2", "full"))
    names = {"returns", "diagnostics"}
    for i in range(c.n(1, 10)):
        s = c.seed + i
        files = []
        for kind, eps in (("v2", EPS_V2), ("full", EPS_FULL)):
            for ep in eps:
                main = ep in ("doc-v2", "doc", "doc-v1")
                corpus = "nest:100,cases,wide:300,tok:%d,bytes:3000,mut:%d,tokr:1500,num:800,str:800,node:500,ent:500,ident:200" % (3 if ep == "doc-v2" and i == 0 else 2, 6000 if main else 1500)
                files.append(c.harness(kind, ["diag", ep, corpus, s], "%s-%s-%d" % (kind, ep, i)))
        merged = c.merge(files, "diag-%d" % i)
        c.judge("TraceDiag", merged, "diag-%d" % i, names)
    huge(c, names)
    return c.finish()


def huge(c, names):
    """Long texts without nesting, each in a process of its own with the ordinary 8 MB stack."""
    from concurrent.futures import ThreadPoolExecutor
    out = []
    jobs = []
    for ep in ("doc-v2", "node", "entry"):
        for name in sh([exe("v2"), "huge", ep, "list"]).stdout.split():
            jobs.append((ep, name))

    def one(j):
        ep, name = j
        o = os.path.join(c.work, "huge-%s-%s.ndjson" % j)
        ok, msg = None, ""
        try:
            r = sh(["bash", "-c", "ulimit -s 8192; exec \"$@\"", "x", exe("v2"), "huge", ep, name, o], timeout=120)
            if r.returncode != 0:
                ok, msg = 4, r.stdout[-300:]
        except subprocess.TimeoutExpired:
            ok = 3
        if ok is None:
            return open(o).read()
        return json.dumps({"k": "huge", "d": "%s huge %s" % j, "t": [{"m": "skip", "x": []}], "ok": ok, "dg": [], "same": 1, "u": [], "msg": msg}) + "\n"
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(one, jobs))
    p = os.path.join(c.work, "huge.ndjson")
    with open(p, "w") as f:
        f.writelines(out)
    c.judge("TraceDiag", p, "huge", names)


def fmt(c, what, mode, corpus, name, names, seed, kind="v2"):
    t = c.harness(kind, [what, mode, corpus, seed], name)
    return c.judge("TraceFormat", t, name, names)


def P06(c):
    build(("v2", "full"))
    names = {"panic", "content", "again", "layout", "comments", "no-comments", "cleared", "canonical", "kept"}
    for i in range(c.n(1, 12)):
        s = c.seed + i
        fmt(c, "auto", "doc", ("cases,tok:3," if i == 0 else "") + "gen:9000,long:400,mut:3000,str:1000", "doc-%d" % i, names, s)
        fmt(c, "auto", "node", "node:2000", "node-%d" % i, names, s)
        fmt(c, "auto", "entry", "ent:2000", "entry-%d" % i, names, s)
        fmt(c, "auto", "ident", "ident:1000", "ident-%d" % i, names, s)
        fmt(c, "auto", "doc", "cases,gen:3000,str:1000", "doc-full-%d" % i, names, s + 1000, "full")
    return c.finish()


def P07(c):
    build()
    names = {"panic", "content", "cleared", "canonical"}
    for i in range(c.n(1, 12)):
        s = c.seed + i
        fmt(c, "clear", "doc", ("cases,tok:3," if i == 0 else "") + "gen:9000,long:400,mut:3000,str:3000", "doc-%d" % i, names, s)
        fmt(c, "clear", "node", "node:2000", "node-%d" % i, names, s)
        fmt(c, "clear", "entry", "ent:3000", "entry-%d" % i, names, s)
        fmt(c, "clear", "ident", "ident:2000", "ident-%d" % i, names, s)
    return c.finish()


def P05(c):
    build()
    names = {"panic", "valid", "content"}
    for i in range(c.n(1, 12)):
        for what, n in (("strings", 6000), ("values", 6000), ("entries", 8000), ("nodes", 5000), ("trees", 5000), ("mixed", 4000)):
            t = c.harness("v2", ["made", what, n, c.seed + i], "%s-%d" % (what, i))
            c.judge("TracePrint", t, "%s-%d" % (what, i), names)
    return c.finish()


def P12(c):
    build()
    names = {"eq", "hash", "self", "order"}
    for i in range(c.n(1, 12)):
        for what, n in (("values", 4000), ("trees", 8000), ("texts", 9000)):
            t = c.harness("v2", ["eq", what, n, c.seed + i], "%s-%d" % (what, i))
            c.judge("TraceEq", t, "%s-%d" % (what, i), names)
    return c.finish()


def edits(c, what, names, quick, thorough):
    """Editing sessions: every short one over small documents, long random walks through the
    specification, and random ones over generated documents."""
    build()

    def replay(plans, name):
        t = c.harness("v2", ["replay", what, plans], name)
        c.judge("TraceEdit", t, name, names, show=edit_plan)
    pairs, walks, rnd = c.n(quick, thorough)
    replay(c.behaviours_of("GenEdit", "GenEdit.cfg", "pairs", {"KDL_STEPS": "2", "KDL_WIDE": "0"}, limit=pairs), "pairs-t")
    replay(c.behaviours_of("GenEdit", "GenEditAny.cfg", "walks", {"KDL_STEPS": "8", "KDL_WIDE": "1"}, simulate=(walks, 100)), "walks-t")
    for i in range(c.n(1, 12)):
        t = c.harness("v2", ["edit", what, rnd, c.seed + i], "random-%d" % i)
        c.judge("TraceEdit", t, "random-%d" % i, names, show=edit_plan)


def edit_plan(r):
    return "edit %r: %s" % (untext(r["t"][0]["x"]), r["d"])


def P08(c):
    build()
    c.judge("TracePrint", c.harness("v2", ["made", "values", c.n(6000, 60000), c.seed], "accessors"), "accessors", {"access"})
    edits(c, "content", {"source", "tree", "result"}, (15000, 120, 16000), (None, 1500, 20000))
    return c.finish()


def P09(c):
    edits(c, "text", {"source", "printable", "valid", "content", "text"}, (5000, 80, 8000), (60000, 1000, 12000))
    return c.finish()


def lsp_plan(r):
    return "session %s" % " ".join(m["o"] + ("" if not m.get("u") else "<%s>" % m["u"]) + ("=%r" % [x if isinstance(x, str) else untext(x) for x in m["xs"]] if m.get("xs") else "") for m in json.loads(r["d"])) + (" -> %s" % r["end"] if r["end"] != "ok" else "")


def P17(c):
    build(("full", "lsp"))
    names = {"answers", "report", "valid", "lives", "announces"}
    server = os.path.join(VERIF, "build", "lsp", "release", "kdl-lsp")

    def sessions(plans, name):
        t = c.harness("full", ["lsp-replay", server, plans], name)
        c.judge("TraceLsp", t, name, names, show=lsp_plan)
    sessions(c.behaviours_of("GenLsp", "GenLsp.cfg", "all", {"KDL_STEPS": str(c.n(3, 4)), "KDL_WIDE": "0"}), "all-t")
    sessions(c.behaviours_of("GenLsp", "GenLspAny.cfg", "walks", {"KDL_STEPS": "25", "KDL_WIDE": "1"}, simulate=c.n((60, 30), (600, 30))), "walks-t")
    for i in range(c.n(1, 8)):
        t = c.harness("full", ["lsp", server, c.n(6000, 20000), c.seed + i], "random-%d" % i)
        c.judge("TraceLsp", t, "random-%d" % i, names, show=lsp_plan)
    return c.finish()


def P13(c):
    build(("full",))
    names = {"panic", "verdict", "valid", "content", "steps", "back"}
    for i in range(c.n(1, 12)):
        for what, corpus in (("up", ("cases,tok:3," if i == 0 else "") + "v1:9000,gen:1500,mut:1000"),
                             ("down", ("cases,tok:3," if i == 0 else "") + "gen:9000,mut:2000,str:2000,num:2000,v1:500"), ("made", 9000)):
            t = c.harness("full", ["convert", what, corpus, c.seed + i], "%s-%d" % (what, i))
            c.judge("TraceConvert", t, "%s-%d" % (what, i), names)
    return c.finish()


def P14(c):
    build(("v2", "full"))
    names = {"chosen", "from-str", "v1", "v2", "document", "errors", "within", "alone"}
    for i in range(c.n(1, 12)):
        for kind in ("v2", "full"):
            for mode, corpus in (("doc", ("cases,tok:%d," % c.n(2, 3) if i == 0 else "") + "v1:3000,gen:2000,mut:2000,str:500,num:500"), ("node", ("tok:2," if i == 0 else "") + "v1node:2500,node:2500"),
                                 ("entry", ("tok:2," if i == 0 else "") + "v1ent:2500,ent:2500"), ("ident", ("tok:2," if i == 0 else "") + "v1ident:1500,ident:1500")):
                name = "%s-%s-%d" % (kind, mode, i)
                t = c.harness(kind, ["points", mode, corpus, c.seed + i], name)
                c.judge("TracePoints", t, name, names)
    return c.finish()


def serde_plans(c, docs, names, show):
    """Values of types (and documents of them, for other types), as TLC builds them up."""
    def run(name, fields, one_in, simulate=None, limit=None):
        plans = c.behaviours_of("GenSerde", "GenSerde.cfg", name, {"KDL_FIELDS": str(fields), "KDL_ONE_IN": str(one_in)}, simulate=simulate, limit=limit)
        with open(plans) as f:
            lines = [l for l in f if ('"doc":' in l) == docs]
        with open(plans, "w") as f:
            f.writelines(lines)
        c.judge("TraceSerde", c.harness("full", ["serde-replay", plans], name + "-t"), name + "-t", names, show=show)
    run("one", 1, 1)
    if c.thorough():
        run("two", 2, 10)
    run("three", 3, 1, simulate=c.n((400, 9), (4000, 9)))


def serde_case(rec):
    return rec["d"]


def P15(c):
    build(("full",))
    names = {"panic", "mapping", "place"}

    def run(what, n, seed, name):
        c.judge("TraceSerde", c.harness("full", ["serde", what, n, seed], name), name, names, show=serde_case)
    run("known-de", 1, 1, "known")
    run("small", 1, 1, "small")
    serde_plans(c, True, names, serde_case)
    for i in range(c.n(1, 12)):
        run("de", 40000, c.seed + i, "de-%d" % i)
        run("derived", 10000, c.seed + i, "derived-%d" % i)
    return c.finish()


def P16(c):
    build(("full",))
    names = {"panic", "written", "valid", "back", "document"}

    def run(what, n, seed, name):
        c.judge("TraceSerde", c.harness("full", ["serde", what, n, seed], name), name, names, show=serde_case)
    run("known-ser", 1, 1, "known")
    serde_plans(c, False, names, serde_case)
    for i in range(c.n(1, 12)):
        run("ser", 40000, c.seed + i, "ser-%d" % i)
        run("derived", 10000, c.seed + i, "derived-%d" % i)
    return c.finish()
