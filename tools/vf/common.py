"""Shared machinery of the checks: building, running TLC, reporting."""
import atexit, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
TLA_LIB = "/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    pass


class Run:
    """One run of one check."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        if not os.environ.get("VF_KEEP"):
            atexit.register(shutil.rmtree, self.work, True)
        self.states = self.transitions = self.validated = 0
        self.coverage, self.samples, self.assumptions = {}, [], []
        self.violations = []          # (title, detail)
        self.known_hit = {}           # finding id -> example
        self.known = load_known(prop)
        self.findings = load_known(None)

    def note(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def violate(self, title, detail):
        self.violations.append((title, detail))

    def hit(self, kid, example):
        self.known_hit.setdefault(kid, example)

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def count(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    # ------------------------------------------------------------------
    def finish(self):
        ok = True
        for kid, k in self.known.items():
            if kid in self.known_hit:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, kid, k["what"]))
        replay = None
        if self.violations:
            ok = False
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(replay, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                           "count": len(self.violations),
                           "violations": [{"title": t, "detail": d} for t, d in self.violations[:25]]},
                          f, indent=1, default=str)
            for t, _ in self.violations[:8]:
                print("  " + t)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "samples": self.samples}
        cov.update(self.coverage)
        cov["known_findings_exercised"] = sorted(self.known_hit)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if not ok:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        self.note("states=%d transitions=%d validated=%d violations=%d" % (
            self.states, self.transitions, self.validated, len(self.violations)))
        return 0 if ok else 1


def load_known(prop):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        data = json.load(f)
    return {k["id"]: k for k in data["known"] if prop is None or prop in k["properties"]}


# ----------------------------------------------------------------------
def env(**extra):
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.pop("RUSTFLAGS", None)
    e.update(extra)
    return e


def target_dir():
    return os.environ.get("VF_TARGET") or os.path.join(VERIF, ".target")


def sh(cmd, timeout=600, inp=None, check=True, **kw):
    try:
        p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=kw.pop("env", env()), **kw)
    except subprocess.TimeoutExpired:
        raise ToolError("timed out: %s" % " ".join(map(str, cmd))[:200])
    if check and p.returncode != 0:
        raise ToolError("%s: exit %d\n%s" % (" ".join(map(str, cmd))[:200], p.returncode,
                                             p.stderr.decode(errors="replace")[-3000:]))
    return p


_built = {}


def harness():
    """Builds the harness against /repo's current working tree."""
    if "wfh" not in _built:
        td = target_dir()
        sh(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"),
           env=env(CARGO_TARGET_DIR=td), timeout=800)
        _built["wfh"] = os.path.join(td, "debug", "wfh")
    return _built["wfh"]


def wfh(cmd, items, args=(), timeout=600):
    """Runs a harness command over JSON items (each gets an id); returns results in order."""
    exe = harness()
    items = list(items)
    if not items:
        return []
    chunks = [items[i::JOBS] for i in range(JOBS)]
    procs = []
    from concurrent.futures import ThreadPoolExecutor

    def one(ch):
        if not ch:
            return []
        inp = "\n".join(json.dumps(x) for x in ch).encode()
        p = sh([exe, cmd, *args], inp=inp, timeout=timeout, check=False)
        out = [json.loads(l) for l in p.stdout.decode().split("\n") if l]
        if len(out) == len(ch) and p.returncode == 0:
            return out
        # the process died (abort, stack overflow): run the items one at a time
        res = []
        for x in ch:
            p = sh([exe, cmd, *args], inp=json.dumps(x).encode(), timeout=60, check=False)
            o = [json.loads(l) for l in p.stdout.decode().split("\n") if l]
            res.append(o[0] if o and p.returncode == 0 else
                       {"id": x["id"], "kind": "Died", "msg": "exit %d" % p.returncode})
        return res

    with ThreadPoolExecutor(JOBS) as ex:
        outs = list(ex.map(one, chunks))
    by = {o["id"]: o for out in outs for o in out}
    return [by[x["id"]] for x in items]


# ----------------------------------------------------------------------
class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                self.generated = self.distinct = int(m[-1])
        self.ok = rc == 0

    def tagged(self, tag):
        """Payloads of PrintT("TAG " \\o ToJson(...)) lines."""
        res = []
        for line in self.out.split("\n"):
            if line.startswith('"' + tag + ' '):
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return res

    def error(self):
        i = self.out.find("Error:")
        return self.out[i:i + 2500] if i >= 0 else self.out[-2500:]


def tlc(run, module, cfg, workers=1, timeout=600, simulate=None, depth=None, heap="3g", extra=(), count=True,
        consts=None):
    """Runs TLC on spec/module.tla.  cfg: text of the configuration."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=run.work)
    cfgfile = os.path.join(d, "m.cfg")
    with open(cfgfile, "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d,
           "-cp", TLA_JAR + ":" + TLA_LIB, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", d,
           "-config", cfgfile]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100), "-seed", str(run.seed)]
    else:
        cmd += ["-workers", str(workers)]
    cmd += list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env())
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    out = p.stdout.decode(errors="replace")
    r = Tlc(out, p.returncode)
    shutil.rmtree(d, True)
    if not r.ok and workers > 1 and not simulate:
        # TLC's workers share values they normalise in place; alone there is no doubt
        return tlc(run, module, cfg, 1, timeout, None, depth, heap, extra, count, consts)
    if count:
        run.states += r.distinct
        run.transitions += r.generated
    return r


def tlc_ok(run, module, cfg, **kw):
    r = tlc(run, module, cfg, **kw)
    if not r.ok:
        raise ToolError("TLC failed on %s:\n%s" % (module, r.error()))
    return r


def tla_bytes(s):
    return list(s if isinstance(s, (bytes, bytearray)) else s.encode())


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]
