"""Shared machinery of the checks: build the harness, run it, run TLC, report."""
import json, os, random, re, subprocess, sys, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LEVELS = "model_checking"


class ToolError(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS"):
        if k not in (env or {}):
            e.pop(k, None)
    return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def build(kinds=("v2",)):
    """Builds the harness (and with it the library) from /repo's working tree."""
    for k in kinds:
        cmd = ["cargo", "build", "--offline", "--release", "-q"]
        cwd = os.path.join(VERIF, "harness")
        if k == "full":
            cmd += ["--features", "full"]
        elif k == "lsp":
            cwd = os.path.join(REPO, "tools/kdl-lsp")
        r = sh(cmd, env={"CARGO_TARGET_DIR": os.path.join(VERIF, "build", k)}, cwd=cwd)
        if r.returncode != 0:
            raise ToolError("build of %s failed:\n%s" % (k, r.stdout[-3000:]))


def exe(kind):
    return os.path.join(VERIF, "build", kind, "release", "kdlh")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.distinct = self.traces = self.behaviours = 0
        self.actions = {}
        self.violations = []
        self.known_hit = {}
        self.notes = []
        self.samples = []
        self.work = os.path.join(WORK, "%s-%s" % (prop, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.known = load_known(prop)
        self.runs = []

    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    # -- running -----------------------------------------------------------
    def harness(self, kind, args, name, timeout=800):
        out = os.path.join(self.work, name + ".ndjson")
        r = sh([exe(kind)] + [str(a) for a in args] + [out], timeout=timeout)
        if r.returncode != 0:
            raise ToolError("harness %s failed (%d):\n%s" % (args, r.returncode, r.stdout[-2000:]))
        return out

    def merge(self, files, name):
        out = os.path.join(self.work, name + ".ndjson")
        with open(out, "wb") as f:
            for x in files:
                with open(x, "rb") as g:
                    shutil.copyfileobj(g, f)
                os.remove(x)
        return out

    def tlc(self, module, trace=None, cfg="Trace.cfg", name=None, workers=8, timeout=850, extra=(), env=None, count_traces=True):
        """Runs TLC; returns its output.  Any result but a clean finish is a tool error."""
        name = name or module
        meta = os.path.join(self.work, "md-" + name)
        e = dict(env or {})
        if trace:
            e["KDL_TRACE"] = trace
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-Xss256m", "-Xmx14g", "-cp", TLA, "tlc2.TLC", "-workers", str(workers),
               "-config", cfg, "-metadir", meta, "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
        r = sh(cmd, timeout=timeout, env=e, cwd=SPEC)
        with open(os.path.join(self.work, name + ".tlc.log"), "w") as f:
            f.write(r.stdout)
        shutil.rmtree(meta, ignore_errors=True)
        if r.returncode != 0:
            raise ToolError("TLC on %s ended with %d:\n%s" % (module, r.returncode, r.stdout[-4000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", r.stdout)
        if m:
            self.states += int(m[1])
            self.distinct += int(m[2])
        elif "-simulate" in extra:
            m = re.search(r"(?:The number of states generated|Progress): (\d+)", r.stdout)
            if m:
                self.states += int(m[1])
                self.distinct += int(m[1])
        else:
            raise ToolError("TLC on %s did not explore everything:\n%s" % (module, r.stdout[-2000:]))
        return r.stdout

    def behaviours_of(self, module, cfg, name, env, simulate=None, limit=None, workers=8):
        """Lets TLC explore (or, with simulate = (walks per worker, depth), walk at random through) a
        specification that prints its finished behaviours as PLAN lines; returns a file of these."""
        extra = [] if simulate is None else ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        out = self.tlc(module, name=name, cfg=cfg, extra=extra, env=env, workers=workers)
        plans = sorted({json.loads(l)[5:] for l in out.splitlines() if l.startswith('"PLAN ')})
        if not plans:
            raise ToolError("no behaviours from " + module)
        self.behaviours += len(plans)
        n = len(plans)
        if limit and n > limit:
            plans = random.Random(self.seed).sample(plans, limit)
        p = os.path.join(self.work, name + ".plans")
        with open(p, "w") as f:
            f.writelines(x + "\n" for x in plans)
        self.runs.append({"spec": module, "behaviours": n, "replayed": len(plans), "mode": "random walks" if simulate else "exhaustive"})
        return p

    def judge(self, module, trace, name, names=None, chunk=60000, show=None, cfg="Trace.cfg"):
        """Checks a recorded trace file against a trace specification, in chunks."""
        total = 0
        with open(trace) as f:
            part, i = [], 0
            while True:
                line = f.readline()
                if line:
                    part.append(line)
                if len(part) == chunk or (not line and part):
                    total += self._judge_part(module, part, "%s-%d" % (name, i), names, show, cfg)
                    part, i = [], i + 1
                if not line:
                    break
        if total == 0:
            raise ToolError("no records in " + trace)
        self.traces += total
        self.runs.append({"spec": module, "corpus": name, "records": total})
        return total

    def _judge_part(self, module, lines, name, names, show, cfg):
        p = os.path.join(self.work, name + ".part.ndjson")
        with open(p, "w") as f:
            f.writelines(lines)
        out = self.tlc(module, trace=p, name=name, cfg=cfg)
        m = re.search(r"Finished computing initial states: (\d+) distinct", out)
        if not m or int(m[1]) != len(lines):
            raise ToolError("TLC did not start from every record of %s: %s" % (name, out[-1500:]))
        seen = set()
        for m in re.finditer(r"MISMATCH (\S+) (\d+)", out):
            what, i = m[1], int(m[2])
            if (what, i) in seen:
                continue
            seen.add((what, i))
            if names is not None and what not in names:
                continue
            self.report(what, json.loads(lines[i - 1]), show)
        if len(self.samples) < 20:
            for l in lines[:: max(1, len(lines) // 4)][:4]:
                r = json.loads(l)
                self.samples.append((show or describe)(r))
        os.remove(p)
        return len(lines)

    # -- reporting ---------------------------------------------------------
    def report(self, what, rec, show=None):
        key = (show or describe)(rec)
        for k in self.known:
            if k["what"] == what and k["match"] == key:
                self.known_hit[k["match"]] = k
                return
        self.violations.append({"what": what, "input": key, "record": rec})

    def finish(self, extra=None, assumptions=None, level="model_checking"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "states": self.distinct, "transitions": self.states,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples[:20],
            "runs": self.runs,
        }
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 1), "assumptions": assumptions or [],
              "violations": [{"what": v["what"], "input": v["input"][:500]} for v in self.violations[:50]]}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
        if self.violations:
            rp = os.path.join(self.work, "violations.ndjson")
            with open(rp, "w") as f:
                for v in self.violations:
                    f.write(json.dumps(v) + "\n")
            for v in self.violations[:10]:
                print("  %s: %s" % (v["what"], v["input"][:300]))
            print("%d disagreements in all" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s traces=%d states=%d wall=%.0fs" % (self.prop, self.traces, self.distinct, time.time() - self.t0))
        for fn in os.listdir(self.work):
            if fn.endswith(".ndjson"):
                os.remove(os.path.join(self.work, fn))
        return 0


def untext(x):
    return "".join(map(chr, x))


def describe(rec):
    if rec.get("at"):
        return "panic at " + rec["at"]
    if "t" in rec:
        return rec.get("k", "") + " " + " | ".join("%s %r" % (t["m"], untext(t["x"])) for t in rec["t"][:1]) + (" " + rec["d"] if "d" in rec else "")
    return json.dumps(rec)[:300]


def load_known(prop):
    """known-findings.txt: lines 'known: property=<id> what=<name> match=<json string> -- <text>'"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) what=(\S+) match=(\"(?:[^\"\\]|\\.)*\") -- (.*)", l.rstrip("\n"))
            if m and m[1] == prop:
                out.append({"what": m[2], "match": json.loads(m[3]), "text": m[4]})
    return out
