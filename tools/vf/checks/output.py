"""C17 (writers that fail) and C18 (builds)."""
import stat
from ..router import *


def sink_tlc(run, rows, mode, deep=False):
    parts = [p for p in (list(range(k, len(rows), JOBS)) for k in range(JOBS)) if p]
    out = {"SCR": [], "MIS": []}

    def one(part):
        f = os.path.join(run.work, "sink-%s-%d.json" % (mode, part[0]))
        with open(f, "w") as fh:
            json.dump({"rows": [rows[k] for k in part]}, fh)
        r = tlc_ok(run, "Sink", 'INIT InitS\nNEXT NextS\nCHECK_DEADLOCK FALSE\nCONSTANT File = "%s"\nCONSTANT Mode = "%s"\n'
                   'CONSTANT Deep = %s\n' % (f, mode, "TRUE" if deep else "FALSE"), workers=1, timeout=850, count=False)
        run.states += r.distinct
        run.transitions += r.generated
        for tag in out:
            for m in r.tagged(tag):
                m["row"] = part[m["row"] - 1]
                out[tag].append(m)

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, parts))
    for v in out.values():
        v.sort(key=digest)
    return out


def c17(run):
    rng = run.rng
    fixed = [from_text(t) for t in (CANON["K2"], CANON["K3"], CANON["K1"])] + [
        shapes()[k] for k in ("redirects", "queries", "row", "inner")]
    if not run.quick:
        fixed += [shapes()[k] for k in ("modules", "wide_param", "params")]
    sim = sorted(from_simulation(run, 30 if run.quick else 150, 6), key=lambda c: len(c["nodes"]))
    sim = sim[:: max(1, len(sim) // (10 if run.quick else 60))]
    cs = fixed + sim
    dry = wfh("sink", [{"id": "d%d" % k, "cfg": c, "script": []} for k, c in enumerate(cs)])
    rows = []
    for c, d in zip(cs, dry):
        if d["full_kind"] != "Ok":
            run.violate("no output at all: %s" % d, {"config": c})
            continue
        rows.append({"cfg": c, "calls": d["calls"], "full": d["full"]})
    scripts = sink_tlc(run, [{"calls": r["calls"], "full": r["full"]} for r in rows], "gen", not run.quick)["SCR"]
    if run.quick and len(scripts) > 40000:
        scripts = rng.sample(scripts, 40000)
    run.note("%d scripts" % len(scripts))
    progs = []
    for k, s in enumerate(scripts):
        progs.append({"id": "s%d" % k, "cfg": rows[s["row"]]["cfg"], "script": s["script"], "period": s["period"], "chunk": s["chunk"]})
    for k, r in enumerate(rows):
        progs.append({"id": "f%d" % k, "cfg": r["cfg"], "script": [], "period": 0, "chunk": 0, "flush_fails": True})
    progs.sort(key=digest)
    real = wfh("sink", progs, timeout=800)
    traces = [{k: r[k] for k in ("result", "errkind", "events", "prefix", "full")} if r["kind"] == "Ok" else
              {"result": r["kind"], "errkind": "", "events": [], "prefix": False, "full": 0} for r in real]
    mis = sink_tlc(run, traces, "trace")["MIS"]
    run.validated += len(traces)
    run.coverage["configurations"] = len(rows)
    run.coverage["write_calls"] = [r["calls"] for r in rows]
    run.coverage["runs"] = len(traces)
    run.coverage["runs_with_failure"] = sum(any(e["a"] == "fail" for e in t["events"]) for t in traces)
    for k in rng.sample(range(len(traces)), min(4, len(traces))):
        run.sample({"script": progs[k]["script"][:5], "chunk": progs[k]["chunk"], "period": progs[k]["period"],
                    "result": traces[k]["result"], "error": traces[k]["errkind"], "events": traces[k]["events"][-3:]})
    for m in mis:
        p, t = progs[m["row"]], traces[m["row"]]
        run.violate("writer %s, %d of %d bytes accepted: generation returns %s %s%s" % (
            "fails with " + m["fault"] if m["fault"] != "none" else "does not fail", m["sent"], t["full"], t["result"], t["errkind"],
            "" if t["prefix"] else ", output is wrong"),
            {"config": p["cfg"], "script": p["script"], "period": p["period"], "chunk": p["chunk"], "run": t})
    run.assumptions = ["an interrupted write (ErrorKind::Interrupted) is not a failure, accepting nothing of a non-empty buffer is (WriteZero), as in std::io"]
    return run.finish()


# ----------------------------------------------------------------------
# C18: builds
IN = {"good": "good.routes", "onlyman": "onlyman.routes", "onlycwd": "onlycwd.routes", "bad": "bad.routes", "utf": "utf.routes",
      "nested": "sub/dir/nested.routes", "odd": "odd n\u00e4mes/a b'\u65e5", "up": "../man/up.routes", "empty": "empty.routes",
      "ambig": "sub/ambig.routes", "clash": "clash.routes", "twins": "twins.routes", "missing": "missing.routes", "dirin": "dirin.routes", "abs": "good.routes"}
OUT = {"sub": "sub/dir/routes.gen.rs", "odd": "odd n\u00e4mes/out '\u65e5", "readonly": "readonly.rs", "new": "new.rs", "old": "old.rs", "abs": "abs.rs", "nodir": "nodir/x.rs", "dirout": "dirout.rs", "over": "good.routes"}
NOBODY = 65534
OLD = b"old output\n"


def building():
    cs = {"A": CANON["K2"], "B": ["/", ["GET B"], ["b", ["PUT m::B"]]], "C": ["/", [], ["{c: u8}", ["DELETE C"], ["x", ["GET -> B"]]], ["b", [], ["{c: u8}", ["GET B"]]]],
          "D": ["/", ["GET D [q: String]"], ["d", ["GET a::b::D"]]]}
    cs = {k: from_text(t) for k, t in cs.items()}
    cs["clash"] = from_text(["/", ["GET A", "GET B"], ["x", ["GET C"]]])
    cs["twins"] = from_text(["/", ["GET D"], ["{x: u8}", ["GET A"]], ["{y: String}", ["GET B"]]])
    cs["ambig"] = from_text(["/", ["GET A"], ["x", ["GET B"]], ["x", ["GET C"]]])
    return cs


def tree(base, texts):
    """The world of spec/Builder.tla; contents by relative name."""
    from ..files import assemble, write
    out = {}
    for d, c in (("cwd", "B"), ("man", "A"), ("out", "C")):
        out[d + "/good.routes"] = texts[c]
        out[d + "/sub/dir/nested.routes"] = out[d + "/" + IN["odd"]] = texts[c]
        for f in ("nested.routes", "dir/nested.routes", "sub/nested.routes", "a", "odd"):      # not these
            out[d + "/" + f] = texts["D"]
        out[d + "/empty.routes"] = b""
        out[d + "/readonly.rs"] = OLD
        out[d + "/bad.routes"] = b"/\n  GET Index\n      [oops\n"
        out[d + "/utf.routes"] = b"// \xff\n" + texts["A"]
        out[d + "/sub/ambig.routes"] = texts["ambig"]
        for k in ("clash", "twins"):
            out[d + "/" + k + ".routes"] = texts[k]
        out[d + "/dirin.routes/keep"] = b""
        out[d + "/old.rs"] = OLD
        out[d + "/dirout.rs/keep"] = b""
    out["man/onlyman.routes"] = texts["A"]
    out["man/up.routes"] = texts["D"]
    out["cwd/onlycwd.routes"] = texts["B"]
    for f, b in out.items():
        p = os.path.join(base, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(b)
        if f.endswith("/readonly.rs"):
            os.chmod(p, 0o444)
    return out


def snapshot(base):
    out = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                continue
            with open(p, "rb") as fh:
                out[os.path.relpath(p, base)] = fh.read()
    return out


def unprivileged():
    """The code under test creates and could remove files wherever it is told:
    let it reach nothing but its own scratch tree."""
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)


def one_worker(job):
    """Runs programs one after another in a tree of its own."""
    import resource
    unprivileged()
    base, exe, cmd, progs, texts, codes, cs = job
    want = tree(base, texts)
    os.symlink("/dev/full", os.path.join(base, "full.rs"))
    codeof = {v: k for k, v in codes.items()}
    res = []

    def before(w, held):
        """What the existing output file holds."""
        code = codes.get(held, codes["B"])
        k = {"long": code + b"// the end of something longer\n" * 40, "equal": code[:-1] + b" " if w["room"] == "all" else code.replace(b"GET", b"got"),
             "other": codes["D" if held != "D" else "A"], "current": code, "start": code[:len(code) // 2]}
        return k.get(w["before"], OLD)

    def path_in(x):
        return os.path.join(base, "out", IN[x]) if x == "abs" else IN[x]

    def path_out(x):
        if x == "full":     # a link in the scratch tree, should the link be all that is touched
            return os.path.join(base, "full.rs")
        d = {"abs": "cwd", "over": "man"}.get(x)
        return os.path.join(base, d, OUT[x]) if d else OUT[x]

    def klass(b):
        return codeof.get(b) or ("empty" if b == b"" else "other")

    for p in progs:
        w = p["world"]
        for d in ("cwd", "man", "out"):
            old = before(w, p["held"])
            if want[d + "/old.rs"] != old:
                want[d + "/old.rs"] = old
                with open(os.path.join(base, d, "old.rs"), "wb") as fh:
                    fh.write(old)
        e = {"PATH": "/usr/bin:/bin"}
        for var, key, d in (("CARGO_MANIFEST_DIR", "manifest", "man"), ("OUT_DIR", "outdir", "out")):
            if w[key] == "nonunicode":
                e[var] = os.fsencode(base) + b"/\xff" + d.encode()
            elif w[key] != "unset":
                e[var] = os.path.join(base, d if w[key] == "set" else "gone/" + d)
        steps = []
        for c in p["calls"]:
            a = c["arg"]
            steps.append({"call": c["call"], "arg": path_in(a) if c["call"] == "input_file" else
                          cs[a] if c["call"] == "input_config" else path_out(a) if c["call"] == "output_file" else a})
        if p.get("cmd"):
            argv = [cmd, next(s["arg"] for s in steps if s["call"] == "input_file")]
        else:
            argv = [exe, "build", json.dumps(steps)]
        limit = p.get("limit")
        spill = base + ".stdout"
        if w["stdout"] == "full":
            so = open("/dev/full", "wb")
        elif w["stdout"] == "file":
            so = open(spill, "wb")
        elif w["stdout"] == "broken":
            r_, w_ = os.pipe()
            os.close(r_)
            so = os.fdopen(w_, "wb")
        else:
            so = subprocess.PIPE

        def pre():
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))

        try:
            # SIGXFSZ stays ignored (restore_signals=False): a full device is an error, not a signal
            q = subprocess.run(argv, cwd=os.path.join(base, "cwd"), env=e, stdin=subprocess.DEVNULL, stdout=so, stderr=subprocess.PIPE,
                               timeout=60, restore_signals=False, preexec_fn=pre if limit is not None else None)
            status, out, err = q.returncode, q.stdout or b"", q.stderr
        except subprocess.TimeoutExpired:
            status, out, err = -1, b"", b""
        if so is not subprocess.PIPE:
            so.close()
        ann = []
        while out.startswith(b"cargo:"):
            l, _, out = out.partition(b"\n")
            if l.startswith(b"cargo:rerun-if-changed="):
                f = os.path.normpath(os.path.join(base, "cwd", os.fsdecode(l.split(b"=", 1)[1])))
                ann.append(where(base, f, IN, "good"))
        files = []
        now = snapshot(base)
        # holding the code already, the file cannot be seen to be written
        same = w["before"] == "current" and status == 0 and [s["arg"] for s in steps if s["call"].startswith("output_")][-1:] == ["old.rs"]
        there = ("out" if steps[0]["call"] == "from_env" else "cwd") + "/old.rs"
        for f in sorted(set(now) | set(want)):
            if now.get(f) != want.get(f) or same and f == there:
                x = where(base, os.path.join(base, f), OUT, None)
                x["holds"] = klass(now[f]) if f in now else "removed"
                files.append(x)
                if f in want:
                    if f.endswith("/readonly.rs"):
                        if f in now:
                            os.unlink(os.path.join(base, f))
                    with open(os.path.join(base, f), "wb") as fh:
                        fh.write(want[f])
                    if f.endswith("/readonly.rs"):
                        os.chmod(os.path.join(base, f), 0o444)
                else:
                    os.unlink(os.path.join(base, f))
        res.append({"status": status, "message": err.strip() != b"", "stderr": err.decode(errors="replace")[:300],
                    "announced": ann, "stdout": klass(out), "files": files})
        if not os.path.islink(os.path.join(base, "full.rs")):
            os.symlink("/dev/full", os.path.join(base, "full.rs"))
    return res


def where(base, f, names, default):
    rel = os.path.relpath(f, base)
    d, _, n = rel.partition("/")
    if d == "gone":
        n = n.partition("/")[2]
    for k, v in names.items():
        v = v[len("../man/"):] if v.startswith("../man/") else v
        if v == n and (names is IN or (k == "over") == (d == "man") and (k == "abs") == (d == "cwd" and n == "abs.rs")):
            if names is IN and k == "good" and d == "out":
                k = "abs"
            return {"dir": d, "name": k}
    return {"dir": d, "name": "?" + n}


def c18(run):
    from ..files import assemble, write
    from concurrent.futures import ProcessPoolExecutor
    rng = run.rng
    cs = building()
    texts = {k: assemble(write(c)).encode() for k, c in cs.items()}
    d = os.path.join(run.work, "gen")
    os.makedirs(d)
    codes = {}
    for g in wfh("gen", [{"id": k, "cfg": c} for k, c in cs.items()], [d]):
        if g["kind"] == "Ok":
            with open(g["file"], "rb") as fh:
                codes[g["id"]] = fh.read()
    if set(codes) != {"A", "B", "C", "D"}:
        run.violate("code generation for the five configurations gives %s" % sorted(codes), {"configs": cs})
        return run.finish()
    progs = builder_gen(run, 2, 1000)
    progs += [p for p in builder_gen(run, 3, 25 if run.quick else 250) if len(p["calls"]) == 5]
    if not run.quick:
        progs += [p for p in builder_gen(run, 4, 1, simulate=9000) if len(p["calls"]) >= 6]
    for p in progs:
        if p["world"]["room"] == "less":
            n = len(codes.get(p["held"], codes["B"]))
            p["limit"] = rng.choice([0, 1, 25, n // 3, n - 40, n - 2, n - 1])
    exact = []
    for p in progs:      # what is left out is the very end
        if p["world"]["room"] == "less" and p["held"] in codes and len(p["calls"]) <= 4:
            n = len(codes[p["held"]])
            exact += [dict(p, limit=k) for k in (n - 1, n - 2, n - 9, n - 12)]
    progs += exact
    # the command line program is one particular build script
    td = target_dir()
    sh(["cargo", "build", "--offline", "--quiet", "-p", "wayfinder-cmd"], cwd=REPO, env=env(CARGO_TARGET_DIR=td), timeout=800)
    cmds = [dict(p, cmd=True) for p in progs if [c["call"] for c in p["calls"]] == ["new", "input_file", "output_stdout", "build"]]
    progs += cmds
    run.note("%d programs" % len(progs))
    jobs = []
    n = 2 * JOBS
    if not stat.S_ISCHR(os.stat("/dev/full").st_mode):
        raise ToolError("/dev/full is no device here")
    # binaries and scratch trees an unprivileged user can reach
    os.chmod(run.work, 0o711)
    exes = []
    for f in (harness(), os.path.join(td, "debug", "wayfinder-cmd")):
        exes.append(os.path.join(run.work, "run-" + os.path.basename(f)))
        shutil.copyfile(f, exes[-1])
        os.chmod(exes[-1], 0o755)
    for k in range(n):
        base = os.path.join(run.work, "w%d" % k, "tree")
        os.makedirs(base)
        if os.getuid() == 0:
            os.chown(base, NOBODY, NOBODY)
            os.chown(os.path.dirname(base), NOBODY, NOBODY)
        jobs.append((base, exes[0], exes[1], progs[k::n], texts, codes, cs))
    with ProcessPoolExecutor(JOBS) as ex:
        outs = list(ex.map(one_worker, jobs))
    rows = [None] * len(progs)
    for k, o in enumerate(outs):
        for j, x in enumerate(o):
            rows[k + j * n] = x
    run.note("replayed")
    parts = [p for p in (list(range(k, len(rows), JOBS)) for k in range(JOBS)) if p]

    def judge_part(part):
        f = os.path.join(run.work, "builds-%d.json" % part[0])
        with open(f, "w") as fh:
            json.dump({"rows": [{"world": progs[k]["world"], "calls": progs[k]["calls"], "obs": rows[k]} for k in part]}, fh)
        r = builder_tlc(run, f, "trace", 9, 1000)
        return [(part[m["row"] - 1], m) for m in r.tagged("MIS")]

    with ThreadPoolExecutor(JOBS) as ex:
        mis = [x for xs in ex.map(judge_part, parts) for x in xs]
    run.validated += len(rows)
    run.coverage["programs_run"] = len(rows)
    run.coverage["command_line_runs"] = len(cmds)
    run.coverage["successful"] = sum(r["status"] == 0 for r in rows)
    for k in rng.sample(range(len(rows)), 4):
        run.sample({"world": progs[k]["world"], "calls": progs[k]["calls"], "observed": rows[k]})
    for k, m in mis:
        p, o = progs[k], rows[k]
        run.violate("%s in %s: exit %s, %s; expected %s %s" % (
            ".".join("%s(%s)" % (c["call"], c["arg"]) for c in p["calls"]),
            ",".join("%s=%s" % (a, b) for a, b in p["world"].items() if b not in ("set", "pipe", "all")) or "an ordinary world",
            o["status"], "files %s, stdout %s" % (o["files"], o["stdout"]), m["status"], m["delivered"]),
            {"program": p, "observed": o, "specified": m})
    run.assumptions = ["standard output and error are open; a file system without room is imitated by RLIMIT_FSIZE and /dev/full",
                       "a build script is judged once it calls build() (or from_env() ends it)"]
    return run.finish()


def builder_tlc(run, f, mode, most, percent, simulate=None):
    r = tlc(run, "Builder", 'INIT InitB\nNEXT NextB\nINVARIANT Guarantee\nCHECK_DEADLOCK FALSE\nCONSTANT File = "%s"\n'
            'CONSTANT Mode = "%s"\nCONSTANT MaxCalls = %d\nCONSTANT Percent = %d\nCONSTANT Quiet = FALSE\n' % (f, mode, most, percent),
            workers=1, timeout=850, heap="6g" if mode == "gen" else "3g", extra=["-seed", str(run.seed)] if not simulate else [],
            simulate=simulate, depth=20)
    if "Error:" in r.out or (not r.ok and not simulate):
        raise ToolError("Builder: " + r.error())
    return r


def builder_gen(run, most, percent, simulate=None):
    f = os.path.join(run.work, "none.json")
    with open(f, "w") as fh:
        json.dump({"rows": []}, fh)
    r = builder_tlc(run, f, "gen", most, 1000 if simulate else percent, simulate)
    return sorted(uniq(r.tagged("PRG")), key=digest)


CHECKS = {"C17": c17, "C18": c18}
