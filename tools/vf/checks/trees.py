"""C14 (mounting) and C15 (ambiguity)."""
from ..router import *
from .matcher import ASSUME as MATCH_ASSUME, utf8
from . import matcher
from .api import valid_only


def small_trees(run, n, rich, percent):
    r = tlc_ok(run, "AnyTree", "INIT InitT\nNEXT NextT\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\nCONSTANT Rich = %s\n"
               "CONSTANT Quiet = FALSE\nCONSTANT Percent = %d\n" % (n, "TRUE" if rich else "FALSE", percent),
               workers=1 if percent < 100 else JOBS, timeout=900, heap="6g", extra=["-seed", str(run.seed)])
    return r.tagged("CFG")


def edits(run, bases, valid=True):
    """Every edit of Ambiguity.tla applied to every base; checked to be what it is meant to be."""
    def one(part):
        if not part:
            return []
        f = os.path.join(run.work, "bases-%s.json" % digest(part))
        with open(f, "w") as fh:
            json.dump(part, fh)
        r = tlc_ok(run, "Ambiguity", 'INIT InitE\nNEXT NextE\nINVARIANT Meant\nINVARIANT WellFormed\n' + ('INVARIANT FromValid\n' if valid else '') + 'CHECK_DEADLOCK FALSE\n'
                   'CONSTANT File = "%s"\nCONSTANT Quiet = FALSE\n' % f, workers=1, timeout=850, count=False)
        return r, r.tagged("AMB")

    parts = [p for p in (bases[k::JOBS] for k in range(JOBS)) if p]
    out = []
    with ThreadPoolExecutor(JOBS) as ex:
        for r, xs in ex.map(one, parts):
            run.states += r.distinct
            run.transitions += r.generated
            out += xs
    return out


def judge_refusals(run, rows):
    parts = [p for p in (list(range(k, len(rows), JOBS)) for k in range(JOBS)) if p]

    def one(part):
        f = os.path.join(run.work, "rows-%d.json" % part[0])
        with open(f, "w") as fh:
            json.dump({"rows": [rows[k] for k in part]}, fh)
        r = tlc_ok(run, "Refusal", 'INIT InitR\nNEXT NextR\nCHECK_DEADLOCK FALSE\nCONSTANT File = "%s"\n' % f,
                   workers=1, timeout=850, count=False)
        return r, [(part[m["row"] - 1], m["amb"]) for m in r.tagged("MIS")], [part[k - 1] for k in r.tagged("AMB")]

    mis, amb = [], []
    with ThreadPoolExecutor(JOBS) as ex:
        for r, m, a in ex.map(one, parts):
            run.states += r.distinct
            run.transitions += r.generated
            mis += m
            amb += a
    run.validated += len(rows)
    return mis, amb


def repeated():
    """n parameters, static blocks of one name, resources of one method or one name, at the root
    and further down, alone and among others."""
    types = ["u8", "u8", "String", "u8", "bool", "Uuid", "u16"]
    for n in range(2, 8):
        for up in ("", "a", "{id: u8}"):
            for among in (False, True):
                kids_ = [["other", ["GET Other"]]] if among else []
                ps = [["{p%d: %s}" % (k, types[k % 7]), ["GET A%d" % k]] for k in range(n)]
                sames = [["{p: u8}", ["GET A%d" % k]] for k in range(n)]
                ss = [["s", ["GET A%d" % k] if k % 2 else [], ["x%d" % k, ["PUT B%d" % k]]] for k in range(n)]
                ms = [["m", ["GET A%d" % k for k in range(n)]]]
                as_ = [["n%d" % k, ["GET G::A"]] for k in range(n)]
                for bad in (ps, sames, ss, ms, as_):
                    t = (bad + kids_) if n % 2 else (kids_ + bad)
                    yield n, from_text(["/", []] + ([[up, []] + t] if up else t))


def c15(run):
    rng = run.rng
    bases = [c for c in shapes().values() if len(c["nodes"]) < (12 if run.quick else 60)]
    bases += from_simulation(run, 25 if run.quick else 250, 7)
    if not run.quick:
        bases += from_simulation(run, 60, 14)
    es = edits(run, bases)
    kinds = {}
    for e in es:
        kinds.setdefault(e["kind"], []).append(e)
    most = 1500 if run.quick else 40000
    for k in kinds:
        kinds[k].sort(key=lambda e: digest(e))
        if len(kinds[k]) > most:
            kinds[k] = rng.sample(kinds[k], most)
    run.coverage["edits"] = {k: len(v) for k, v in kinds.items()}
    rows = [{"cfg": e["cfg"], "mounts": [], "what": e["kind"]} for v in kinds.values() for e in v]
    trees = small_trees(run, 3, False, 100)
    trees += small_trees(run, 4, False, 2) if run.quick else small_trees(run, 4, False, 40) + small_trees(run, 3, True, 100)
    run.coverage["small_trees"] = len(trees)
    rows += [{"cfg": c, "mounts": [], "what": "small tree"} for c in trees]
    # the same mistake several times over, and two mistakes at once
    rows += [{"cfg": c, "mounts": [], "what": "%d times" % n} for n, c in repeated()]
    some = [e["cfg"] for e in rng.sample(es, 12 if run.quick else 200)]
    twice = edits(run, [c for c in some if len(c["nodes"]) < 9], valid=False)
    most = 1200 if run.quick else 20000
    twice.sort(key=digest)
    rows += [{"cfg": e["cfg"], "mounts": [], "what": "second mistake: " + e["kind"]} for e in
             (rng.sample(twice, most) if len(twice) > most else twice)]
    # through mount: at the name of a block that is there, or twice, or with a resource declared on both sides
    for c in bases:
        top = [c["nodes"][k - 1]["seg"]["text"] for k in kids(c, 1) if c["nodes"][k - 1]["seg"]["k"] == "static"]
        ms = []
        fresh = from_text(["/", ["GET Zz9"]])
        for t in top:
            ms.append([(t, fresh)])
        ms.append([("zz", fresh), ("zz", from_text(["/", ["GET Yy9"]]))])
        ms.append([("zz", fresh), ("yy", fresh)])
        ms.append([("zz", fresh), ("yy", from_text(["/", ["GET -> Zz9"]]))])
        o = rng.choice(bases)
        ms.append([("zz", o), ("yy", o)])
        ms.append([("zz", c)])
        ms.append([("zz", o)])
        for m in ms:
            rows.append({"cfg": c, "mounts": [{"name": n, "cfg": x} for n, x in m], "what": "mount"})
    # the real code does the mounting and the generating
    mounted = wfh("mount", [{"id": "m%d" % k, "cfg": r["cfg"], "mounts": r["mounts"]} for k, r in enumerate(rows)])
    d = os.path.join(run.work, "gen")
    os.makedirs(d)
    gen = wfh("gen", [{"id": "g%d" % k, "cfg": m["cfg"]} for k, m in enumerate(mounted) if m["kind"] == "Ok"], [d])
    by = {int(g["id"][1:]): g for g in gen}
    for k, r in enumerate(rows):
        r["kind"] = by[k]["kind"] if k in by else mounted[k]["kind"]
    mis, amb = judge_refusals(run, [{x: r[x] for x in ("cfg", "mounts", "kind")} for r in rows])
    amb = set(amb) | {k for k, _ in mis}
    run.coverage["configurations"] = len(rows)
    run.coverage["ambiguous"] = len(amb)
    run.coverage["generated"] = sum(r["kind"] == "Ok" for r in rows)
    for k in rng.sample(sorted(amb), min(5, len(amb))):
        run.sample({"edit": rows[k]["what"], "config": outline(mounted[k].get("cfg", rows[k]["cfg"])), "generator": rows[k]["kind"]})
    for k, a in mis:
        run.violate("code is generated for an ambiguous configuration (%s; %s)" % (", ".join(a), rows[k]["what"]),
                    {"config": rows[k]["cfg"], "mounts": rows[k]["mounts"], "ambiguity": a,
                     "route_file": outline(mounted[k].get("cfg", rows[k]["cfg"]))})
    run.assumptions = ["a refusal is an error or a panic of gen::codegen"]
    return run.finish()


# ----------------------------------------------------------------------
MOUNT_NAMES = ["a", "zz", "people", "api", "a/b", "", "{id: u8}", "[q: T]", "GET X", "\u65e5", "A B", "x-y"]


def mount_tlc(run, rows, mode, depth=0, names=(), simulate=None):
    parts = [p for p in (list(range(k, len(rows), JOBS)) for k in range(JOBS)) if p]

    def one(part):
        f = os.path.join(run.work, "mount-%s-%s.json" % (mode, digest([rows[part[0]], len(part), depth])))
        with open(f, "w") as fh:
            json.dump({"rows": [rows[k] for k in part], "names": list(names)}, fh)
        r = tlc(run, "Mount", 'SPECIFICATION SpecM\nPROPERTY Steps\nCHECK_DEADLOCK FALSE\nCONSTANT File = "%s"\nCONSTANT Mode = "%s"\n'
                'CONSTANT Depth = %d\nCONSTANT Quiet = FALSE\n'
                % (f, mode, depth), workers=1, timeout=850,
                simulate=simulate, depth=depth + 3, count=False)
        if "Error:" in r.out or (not r.ok and not simulate):
            raise ToolError("Mount: " + r.error())
        for tag in ("OPS", "MIS"):
            for m in r.tagged(tag):
                m["row"] = part[m["row"] - 1]
                out[tag].append(m)
        run.states += r.distinct
        run.transitions += r.generated

    out = {"OPS": [], "MIS": []}
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, parts))
    for v in out.values():
        v.sort(key=digest)
    return out


def plain(c):
    """No static block beside a parameter: the known findings of the matcher cannot show."""
    for n in range(1, len(c["nodes"]) + 1):
        ks = {c["nodes"][k - 1]["seg"]["k"] for k in kids(c, n)}
        if len(ks) > 1:
            return False
    return True


def apart(c, tag):
    """The same configuration with resource names of its own."""
    c = json.loads(json.dumps(c))
    for x in c["nodes"]:
        for r in x["res"]:
            r["name"] = r["name"] + tag
    return c


def mounted(a, name, b):
    """For requests only; TLC has its own."""
    ns = json.loads(json.dumps(a["nodes"]))
    off = len(ns)
    for k, x in enumerate(json.loads(json.dumps(b["nodes"]))):
        if k == 0:
            x["parent"], x["seg"] = 1, st(name)
        else:
            x["parent"] += off
        ns.append(x)
    return cfg(ns, dict.fromkeys(a["headers"] + b["headers"]))


def c14(run):
    rng = run.rng
    # 1. values: programs of mounts, every state of the real ones against the specification
    sim = [c for c in from_simulation(run, 60 if run.quick else 300, 8)]
    hs = ["use a::B;", "// c", "", "use a::C;", "use a::B;", " use a::B;", "use a::B; ", "use a::b;", "}"]
    hs += ["use h%d::X;" % k for k in range(30)]
    rows = []
    for k in range(24 if run.quick else 120):
        pool = [json.loads(json.dumps(rng.choice(sim))) for _ in range(rng.choice([2, 2, 3]))]
        for c in pool:
            c["headers"] = [rng.choice(hs[:9] if rng.random() < 0.6 else hs) for _ in range(rng.choice([0, 1, 3, 6, 6, 35]))]
        if rng.random() < 0.3:
            pool[0] = cfg([root([], [prm("q", "u8")])], ["// c"])
        rows.append({"pool": pool})
    gen = mount_tlc(run, rows, "gen", 1, MOUNT_NAMES)["OPS"]
    gen += mount_tlc(run, rows[:8], "gen", 2, ["a", "zz"])["OPS"]
    gen += mount_tlc(run, rows[8:12] if run.quick else rows[8:40], "gen", 3, ["a", "zz"] if not run.quick else ["a"])["OPS"]
    gen += mount_tlc(run, rows, "gen", 6, MOUNT_NAMES, simulate=6 if run.quick else 40)["OPS"]
    progs = [{"id": "a%d" % k, "pool": rows[g["row"]]["pool"], "ops": g["ops"]} for k, g in enumerate(gen)]
    real = wfh("assemble", progs)
    traces = []
    for p, r in zip(progs, real):
        if r["kind"] != "Ok":
            run.violate("mount panics: %s" % r.get("msg"), {"program": p["ops"], "pool": p["pool"]})
            continue
        traces.append({"pool": p["pool"], "ops": p["ops"], "states": r["states"]})
    run.coverage["mount_programs"] = len(traces)
    run.coverage["mounts"] = sum(len(t["ops"]) for t in traces)
    run.validated += len(traces)
    for m in mount_tlc(run, traces, "trace")["MIS"]:
        t = traces[m["row"]]
        run.violate("mount number %d gives a different configuration" % m["step"],
                    {"pool": t["pool"], "program": t["ops"][:m["step"]], "got": t["states"][m["step"] - 1],
                     "specified": m["want"]})
    for k in rng.sample(range(len(traces)), 2):
        run.sample({"program": traces[k]["ops"], "last": outline(traces[k]["states"][-1])})
    # 2. what mounting means for requests, on the specification
    tiny = [c for c in sim if len(c["nodes"]) <= 6]
    design, mounts = [], {}
    for k in range(6 if run.quick else 60):
        a, b = apart(rng.choice(tiny), "0"), apart(rng.choice(tiny), "1")
        top = [a["nodes"][x - 1]["seg"]["text"] for x in kids(a, 1)]
        name = rng.choice([n for n in ["mnt"] + [t + "x" for t in top if t] + ["7", "true"] if n not in top])
        design += [mounted(a, name, b), a, b]
        mounts[len(design) - 3] = (len(design) - 2, name, len(design) - 1)
    explore_design(run, design, list(mounts), ["C14_Mounted"], 3, trie=False, mounts=mounts)
    run.coverage["mounts_explored"] = len(mounts)
    # 3. answers: below the mount name those of the mounted configuration, elsewhere those of the other
    pl = [c for c in sim + from_simulation(run, 300 if run.quick else 1200, 9) + list(shapes().values()) if plain(c)]
    bases = [c for c in pl if not any(c["nodes"][k - 1]["seg"]["k"] == "dyn" for k in kids(c, 1))]
    pairs = []
    for k in range(70 if run.quick else 500):
        a, b = apart(rng.choice(bases), "0"), apart(rng.choice(pl), "1")
        top = [a["nodes"][x - 1]["seg"]["text"] for x in kids(a, 1)]
        name = rng.choice(["mnt", "x", "people", "v1"] + [t + "x" for t in top[:2]] + [t[:-1] for t in top[:2] if len(t) > 1])
        if name in top:
            continue
        name2 = "n2" if rng.random() < 0.3 else None
        ms = [(name, b)]
        if name2 and rng.random() < 0.5:
            ms.append((name2, apart(rng.choice(pl), "2")))
        elif name2:
            # nested: the mounted configuration has been mounted in itself
            if not any(b["nodes"][x - 1]["seg"]["k"] == "dyn" for x in kids(b, 1)):
                ms = [(name, mounted(b, name2, apart(rng.choice(pl), "2")))]
        pairs.append((a, ms))
    parts = [(a, [x for x in ms]) for a, ms in pairs]
    res = wfh("mount", [{"id": "m%d" % k, "cfg": a, "mounts": [{"name": n, "cfg": c} for n, c in ms]}
                        for k, (a, ms) in enumerate(parts)])
    whole = []
    for (a, ms), r in zip(parts, res):
        if r["kind"] != "Ok":
            run.violate("mount panics: %s" % r.get("msg"), {"base": a, "mounts": ms})
        whole.append((a, ms, r.get("cfg")))
    keep = valid_only(run, [w for w in [mounted_all(a, ms) for a, ms, _ in whole]])
    ok = {digest(c) for c in keep}
    whole = [(a, ms, c) for a, ms, c in whole if c and digest(mounted_all(a, ms)) in ok and digest(c) == digest(mounted_all(a, ms))]
    co = Corpus(run, [c for _, _, c in whole])
    usable(run, co)
    reqs = []
    for i, (a, ms, c) in enumerate(whole):
        if i not in co.exe:
            continue
        names = [n for n, _ in ms]
        for r in requests_for(a, i, rng, 40 if run.quick else 80):
            if utf8(r["p"]) and first(r["p"]) not in names:
                r["meant"] = (a, r["p"])
                reqs.append(r)
        for n, b in ms:
            for r in requests_for(b, i, rng, 40 if run.quick else 80):
                if utf8(r["p"]) and (r["p"].startswith(b"/") or r["p"] == b""):
                    r["meant"] = (b, r["p"])
                    r["p"] = b"/" + n.encode() + r["p"]
                    reqs.append(r)
        for r in requests_for(c, i, rng, 30):
            if utf8(r["p"]):
                r["meant"] = (c, r["p"])
                reqs.append(r)
    run.note("%d requests" % len(reqs))
    co.ask(reqs)
    # every request is judged against the configuration it is meant for
    idx = {}
    for r in reqs:
        c, p = r["meant"]
        if id(c) not in idx:
            idx[id(c)] = len(co.configs)
            co.configs.append(c)
        r["asked"], r["p"], r["c"] = (r["c"], r["p"]), p, idx[id(c)]
    mis, _ = judge(run, co, reqs, prop="whole", deviations=())
    for r, want in mis:
        i, p = r["asked"]
        run.violate("after mounting, %s %r answers %s, expected %s" % (show_path(r["m"]), show_path(p), brief(r["obs"]), want_text(want)),
                    {"mounted": outline(whole[i][2]), "base": whole[i][0], "mounts": whole[i][1], "part": r["c"]})
    run.coverage["mounted_routers"] = len(whole)
    run.coverage["requests"] = len(reqs)
    run.assumptions = MATCH_ASSUME + ["answers are compared on configurations without static blocks beside a parameter (known findings K1-K3)"]
    return run.finish()


def usable(run, co):
    matcher.usable(run, co)


def first(p):
    return (p[1:] if p.startswith(b"/") else p).split(b"/")[0].decode()


def mounted_all(a, ms):
    for n, b in ms:
        a = mounted(a, n, b)
    return a


CHECKS = {"C14": c14, "C15": c15}
