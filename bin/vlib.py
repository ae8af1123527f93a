"""Building the harness, running it, judging its records with TLC, reporting."""
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
CORES = os.cpu_count() or 4


class ToolError(Exception):
    """The check itself could not be carried out (exit 2)."""


class Violation(Exception):
    def __init__(self, why, replay):
        super().__init__(why)
        self.why, self.replay = why, replay


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def build(package=HARNESS, release=False):
    """Build a harness crate against /repo's working tree; path of the binary."""
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "+stable", "build", "--offline", "--quiet"] + (["--release"] if release else [])
    try:
        r = sh(cmd, 600, cwd=package, env=env)
    except subprocess.TimeoutExpired:
        raise ToolError("build timed out")
    if r.returncode != 0:
        raise ToolError("build failed:\n" + r.stdout[-4000:])
    return os.path.join(package, "target", "release" if release else "debug", os.path.basename(package))


IO_KINDS = ["ConnectionReset", "WouldBlock", "TimedOut", "UnexpectedEof", "BrokenPipe", "InvalidData", "Other", "WriteZero",
            "OutOfMemory", "InvalidInput", "Unsupported", "NotFound", "PermissionDenied", "os5", "os11", "os28", "os32", "os104"]


def nesting(text):
    """How deeply the brackets of some JSON are nested (at most)."""
    if text.count("[") + text.count("{") <= 250:
        return 0
    n = most = 0
    for x in re.findall(r'"(?:[^"\\]|\\.)*"|[\[{]|[\]}]', text):
        if x in "[{":
            n += 1
            most = max(most, n)
        elif x in "]}":
            n -= 1
    return most


def flat(x):
    """Deep trees as lists of their nodes: Tree of Format.tla grows them again."""
    if isinstance(x, list):
        return [flat(y) for y in x]
    if not isinstance(x, dict):
        return x
    if "k" in x and isinstance(x.get("c"), list):
        if nesting(json.dumps(x)) <= 60:
            return x
        nodes, counts = [], []

        def walk(y):
            for z in y["c"]:
                walk(z)
            nodes.append(dict(y, c=[]))
            counts.append(len(y["c"]))
        walk(x)
        return {"flat": nodes, "nc": counts}
    return {k: flat(v) for k, v in x.items()}


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = 0
        self.steps = 0
        self.samples = []
        self.parts = []
        self._bin = {}
        self.release = False
        self.reports = False

    def rng(self, name):
        h = hashlib.sha256(("%d/%s/%s" % (self.seed, self.prop, name)).encode()).digest()
        return int.from_bytes(h[:8], "little")

    def harness(self, release=False):
        if release not in self._bin:
            self._bin[release] = build(release=release)
        return self._bin[release]

    def close(self):
        if os.path.realpath(self.dir).startswith(os.path.realpath(tempfile.gettempdir()) + os.sep):
            shutil.rmtree(self.dir, ignore_errors=True)

    def replay(self, name, content):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.prop, name))
        with open(path, "w") as f:
            json.dump(content, f, indent=1)
        return path

    # ------------------------------------------------------------ harness

    def vary(self, cases):
        """How streams fail: with which kind of error, and whether for good."""
        for i, c in enumerate(cases):
            for j, r in enumerate(c.get("runs", [c])):
                r.setdefault("ek", IO_KINDS[(i + 5 * j) % len(IO_KINDS)])
                r.setdefault("heal", (i // 2 + j) % 3 > 0)

    def execute(self, name, cases, binary=None, mem=6 << 30, timeout=300):
        """Results of the cases on the real code, in order. None: it died."""
        if binary is None:
            self.vary(cases)
        binary = binary or self.harness(self.release)
        n = max(1, min(CORES, (len(cases) + 49) // 50))
        chunks = [list(range(k, len(cases), n)) for k in range(n)]

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        def work(k):
            idx = chunks[k]
            inp = os.path.join(self.dir, "%s.%d.in" % (name, k))
            with open(inp, "w") as f:
                for i in idx:
                    f.write(json.dumps(cases[i]) + "\n")
            got = []
            while len(got) < len(idx):
                outp = os.path.join(self.dir, "%s.%d.out" % (name, k))
                if os.path.exists(outp):
                    os.unlink(outp)
                how = ""
                errf = os.path.join(self.dir, "%s.%d.err" % (name, k))
                with open(errf, "w") as ef:
                    p = subprocess.Popen([binary, inp, outp, str(len(got))], stdout=subprocess.DEVNULL,
                                         stderr=ef, preexec_fn=limits)
                    try:
                        rc = p.wait(timeout=timeout)
                        how = "exit %d" % rc
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.wait()
                        rc, how = 1, "hang"
                lines = []
                if os.path.exists(outp):
                    with open(outp, "rb") as f:
                        data = f.read()
                    lines = data.split(b"\n")
                    lines = lines[:-1]
                got += [json.loads(x) for x in lines]
                if len(got) < len(idx):
                    with open(errf, errors="replace") as f:
                        err = f.read()[-2000:]
                    if "panicked at src/" in err or "harness: " in err:
                        raise ToolError("harness failed: " + err)
                    got.append({"died": how, "stderr": err[-400:]})
                    if sum(1 for g in got if "died" in g) >= 2:
                        # no need to try the rest
                        got += [None] * (len(idx) - len(got))
            return got

        res = [None] * len(cases)
        with ThreadPoolExecutor(n) as ex:
            for k, got in enumerate(ex.map(work, range(n))):
                for i, g in zip(chunks[k], got):
                    res[i] = g
        for g in res:
            if g is not None and any(x in json.dumps(g) for x in ("harness: ", "panicked at src/")):
                raise ToolError("bad plan: " + json.dumps(g)[:2000])
        return res

    # ---------------------------------------------------------------- TLC

    def tlc(self, module, cfg=None, env=(), workers=CORES, timeout=800, args=(), heap="8g"):
        meta = tempfile.mkdtemp(dir=self.dir)
        cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp",
               TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC",
               "-config", cfg or module + ".cfg", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-deadlock", *args, module + ".tla"]
        e = dict(os.environ, **dict(env))
        try:
            r = sh(cmd, timeout, cwd=SPEC, env=e)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        out = r.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace("states generated ", "states generated, "))
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        return r.returncode, out

    def judge(self, name, module, cases, results, cfg=None):
        """Check recorded results against a trace specification."""
        for i, (c, g) in enumerate(zip(cases, results)):
            if g is not None and "died" in g:
                raise Violation("the code under test died (%s)" % g["died"],
                                self.replay(name, {"case": c, "result": g}))
        path = os.path.join(self.dir, name + ".ndjson")
        kept = []
        with open(path, "w") as f:
            for c, g in zip(cases, results):
                if g is None:
                    continue
                line = json.dumps(dict(c, res=g))
                if nesting(line) > 200:
                    line = json.dumps(flat(dict(c, res=g)))
                if nesting(line) > 250:
                    raise ToolError("too deep for TLC: " + line[:300])
                kept.append((c, g))
                f.write(line + "\n")
        s0, t0 = self.states, time.time()
        rc, out = self.tlc(module, cfg, env={"CASES": path})
        if rc == 0:
            self.traces += len(kept)
            self.parts.append({"name": name, "module": module, "cases": len(kept), "states": self.states - s0,
                               "tlc_s": round(time.time() - t0, 1)})
            return
        m = re.findall(r"^/\\ c = (\d+)$", out, re.M)
        w = re.findall(r'^/\\ why = "(.*)"$', out, re.M)
        if rc == 12 and m and w and "is violated" in out:
            c, g = kept[int(m[-1]) - 1]
            steps = re.findall(r"^/\\ l = (-?\d+)$", out, re.M)
            runs = re.findall(r"^/\\ r = (\d+)$", out, re.M)
            if w[-1].startswith("workload:"):
                raise ToolError("%s: %s: %s" % (name, w[-1], json.dumps(c)[:2000]))
            raise Violation(w[-1], self.replay(name, {
                "module": module, "why": w[-1], "run": runs[-1:] and int(runs[-1]),
                "step": steps[-2:-1] and int(steps[-2]) + 1, "case": c, "result": g}))
        raise ToolError("TLC failed on %s (%d):\n%s" % (module, rc, out[-5000:]))

    def model(self, name, module, cfg=None, **kw):
        """Model-check a specification by itself; failing is a tool error,
        since it says nothing about the code."""
        s0, t0 = self.states, time.time()
        rc, out = self.tlc(module, cfg, **kw)
        if rc != 0:
            raise ToolError("model %s is wrong (%d):\n%s" % (module, rc, out[-5000:]))
        self.parts.append({"name": name, "module": module, "states": self.states - s0,
                           "tlc_s": round(time.time() - t0, 1)})
        return out

    def sample(self, x):
        if len(self.samples) < 3:
            t = json.dumps(x)
            self.samples.append(t if len(t) < 3000 else t[:3000] + "...")

    def run(self, name, module, cases, binary=None, cfg=None, fix=None, **kw):
        if not cases:
            raise ToolError("no cases for " + name)
        if self.reports and module == "TraceCoder":
            # also record what the coder reports of itself
            for c in cases:
                if not any(r["twin"] or r["reuses"] or r["log"] != "none" for r in c["runs"]):
                    for r in c["runs"]:
                        r.update(rep=True, log="ok")
        res = self.execute(name, cases, binary, **kw)
        if fix:
            cases, res = fix(cases, res)
        self.sample({"workload": name, "case": cases[0], "result": res[0]})
        self.judge(name, module, cases, res, cfg)

    def evidence(self, violations, notes):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples,
                           "parts": self.parts, "method": notes},
              "assumptions": ["TLC and the TLA+ specification in spec/ are right",
                              "the harness in harness/ calls the real code as the plans say and records truthfully"],
              "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main(checks, notes):
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    rc = 0
    try:
        checks[prop](ctx)
        if not ctx.quick:
            # once more, without overflow checks and debug assertions
            ctx.release, ctx.quick, ctx.seed = True, True, seed + 1000
            ctx.__dict__.pop("graph", None)
            checks[prop](ctx)
        ctx.evidence(0, notes[prop])
        print("OK property=%s states=%d traces=%d %.1fs" % (prop, ctx.states, ctx.traces, time.time() - ctx.t0))
    except Violation as v:
        print("%s: %s" % (prop, v.why))
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        ctx.evidence(1, notes[prop])
        rc = 1
    except ToolError as e:
        print("TOOL ERROR in check %s: %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.close()
    sys.exit(rc)
