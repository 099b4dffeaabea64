"""C01-C08 (and the matching half of C09): requests answered by real generated
matchers, judged by TLC against Router (spec/MatchTrace.tla)."""
from ..router import *

ASSUME = [
    "valid configurations as defined by Valid in spec/RouteConfig.tla (ASCII URL segments, identifier names, no clash with a local of the matcher)",
    "parameter types are the ones modelled in spec/Text.tla (String, bool, char, the integer types, Ipv4Addr, two imported aliases and a stand-in uuid::Uuid)",
    "rustc compiles the generated module faithfully; TLC evaluates the specification faithfully",
]


def utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def words(rng):
    """Six overlapping texts over a few characters."""
    letters = rng.sample(["_", "A", "a", "-", "1", "b", "B", ".", "z"], 4)
    out = []
    while len(out) < 6:
        w = "".join(rng.choice(letters) for _ in range(rng.choice([1, 2, 2, 3])))
        if out and rng.random() < 0.4:
            w = rng.choice(out) + rng.choice(letters)
        if w not in out and len(w) < 6:
            out.append(w)
    return tuple(out)


def corpus(run, keep=lambda c: True, k5=False, only=None):
    """Configurations of this check: shapes, canonical ones, a sample of the
    bounded families, and simulated ones."""
    big = shapes()
    if run.quick:
        n_fam, n_sim, size = 110, 110, 14
    else:
        n_fam, n_sim, size = 900, 900, 16
    fixed = [c for c in big.values() if keep(c)]
    canon = {k: from_text(t) for k, t in CANON.items() if k5 or not k.startswith("K5")}
    fam = [c for c in from_family(run, n_fam) + from_family(run, n_fam // 2, vocab=words(run.rng)) if keep(c)]
    # many blocks side by side, in groups
    fam += [c for c in from_family(run, n_fam // 2, vocab=("aa", "ab", "ba", "bb", "aab", "abb", "b", "bab"), most=8) if keep(c)]
    sim = from_simulation(run, n_sim, size)
    sim += from_simulation(run, n_sim // 4, 28)
    sim = [c for c in sim if keep(c)]
    run.coverage.update(shapes=len(fixed), family_members=len(fam), simulated=len(sim))
    cs = list(canon.values()) + fixed + fam + sim
    return Corpus(run, cs), dict(zip(canon, range(len(canon))))


def probes(run, canon):
    out = []
    for name, p, m in PROBES:
        if name in canon:
            p = p if isinstance(p, bytes) else p.encode()
            out.append({"c": canon[name], "p": p, "m": m.encode(), "why": "probe",
                        "probe": "K5" if name.startswith("K5") else None})
    return out


def report(run, co, reqs, mis, dev):
    settle(run, co, mis, dev)
    kinds = {}
    for r in reqs:
        if r.get("obs"):
            k = r["obs"]["kind"]
            kinds[k] = kinds.get(k, 0) + 1
    run.coverage["answers"] = kinds
    run.coverage["requests"] = len(reqs)
    for r in run.rng.sample(reqs, min(5, len(reqs))):
        if r.get("obs"):
            run.sample({"config": outline(co.configs[r["c"]]), "answer": brief(r["obs"]),
                        "request": show_path(r["m"]) + " " + (show_path(r["p"]) if "p" in r else
                                   "value " + ",".join(map(show_path, r["texts"])))})
    run.assumptions = ASSUME


def explored(run, co, canon):
    """Requests of the exhaustive exploration (design level and real code)."""
    small = [i for i in range(len(canon), len(co.configs)) if len(co.configs[i]["nodes"]) <= 9]
    ids = [canon[k] for k in ("K1", "K2", "K3", "K3b", "K4") if k in canon]
    n, deeper = (10, 3) if run.quick else (110, 4)
    ids += run.rng.sample(small, min(n, len(small)))
    out = explore(run, co, ids, deeper, noise=run.prop in ("C04", "C06"))
    most = 15000 if run.quick else 300000
    if len(out) > most:
        out = run.rng.sample(out, most)
    run.note("explored %d requests" % len(out))
    return out


def usable(run, co):
    """A valid configuration that yields no module answers no request at all."""
    bad = dict(co.broken)
    for i, why in list(bad.items())[:20]:
        run.violate("no usable module: " + why.splitlines()[0][:150],
                    {"config": co.configs[i], "route_file": outline(co.configs[i]), "error": why})


def has_dyn(c):
    return any(n["seg"]["k"] == "dyn" for n in c["nodes"])


def has_redirect(c):
    return any(r["redirect"] for n in c["nodes"] for r in n["res"])


def has_query(c):
    return any(n["query"] or any(r["query"] for r in n["res"]) for n in c["nodes"])


# ----------------------------------------------------------------------
def requests(run, co, budget, pick=None):
    reqs = []
    for i, c in enumerate(co.configs):
        if i in co.exe:
            more = 3 if len(c["nodes"]) > 20 else 1
            rs = requests_for(c, i, run.rng, budget * more)
            reqs += [r for r in rs if pick is None or pick(c, r)]
    return reqs


def routing(run, budget=None, pick=None, keep=lambda c: True, k5=False, raw=False, extra=None):
    co, canon = corpus(run, keep, k5)
    usable(run, co) if not k5 else None
    budget = budget or (90 if run.quick else 220)
    k5s = {canon[k] for k in canon if k.startswith("K5")}
    reqs = [r for r in requests(run, co, budget, pick) if r["c"] not in k5s]
    if not raw:
        reqs = [r for r in reqs if utf8(r["p"])]
    if extra:
        reqs += [r for r in extra(co) if r["c"] not in k5s]
    more = explored(run, co, canon)
    reqs += [r for r in more if raw or utf8(r["p"])]
    ps = probes(run, canon)
    if not raw:
        ps = [r for r in ps if utf8(r["p"]) or run.prop in ("C04", "C06")]
    reqs = ps + reqs
    if k5:
        for i, why in co.broken.items():
            if i not in k5s:
                usable_one(run, co, i, why)
    run.note("%d requests" % len(reqs))
    co.ask(reqs)
    mis, dev = judge(run, co, reqs)
    report(run, co, reqs, mis, dev)
    return run.finish()


def usable_one(run, co, i, why):
    run.violate("no usable module: " + why.splitlines()[0][:150],
                {"config": co.configs[i], "route_file": outline(co.configs[i]), "error": why})


def c01(run):
    """every declared place with its own method, several spellings"""
    def more(co):
        out = []
        for i, c in enumerate(co.configs):
            if i not in co.exe:
                continue
            for n, r in places(c):
                m = c["nodes"][n - 1]["res"][r]["method"].encode()
                out += [{"c": i, "p": join(spell(c, n, run.rng)), "m": m, "why": "declared"}
                        for _ in range(1 if not path_params(c, n) else 2)]
        return out
    return routing(run, budget=60 if run.quick else 160, extra=more)


def c02(run):
    """at every declared place: the methods of the others, and methods that look like its own"""
    def methods(co):
        rng, out = run.rng, []
        for i, c in enumerate(co.configs):
            if i not in co.exe:
                continue
            ps = places(c)
            for n, r in rng.sample(ps, min(12, len(ps))):
                own = [x["method"].encode() for x in c["nodes"][n - 1]["res"]]
                m = own[r]
                k = rng.randrange(len(m))
                like = [m.lower(), m[:k] + m[k:k + 1].lower() + m[k + 1:], m[:k] + m[k + 1:], m[:k] + m[k:k + 1] + m[k:],
                        m + rng.choice([b" ", b"\0", b"/", b"S", m]), rng.choice([b" ", b"\0", b"X", b"_"]) + m, m[:1] + m[1:].lower()]
                p = join(spell(c, n, rng))
                for x in [like[0]] + rng.sample(like[1:], 2) + [x for x in STD if x not in own][:2]:
                    out.append({"c": i, "p": p, "m": x, "why": "method"})
        return out
    return routing(run, extra=methods)


def c03(run):
    return routing(run, keep=has_dyn, budget=110 if run.quick else 260, k5=True, extra=lambda co: stretched(run, co))


def stretched(run, co):
    """Requests with a very long part: the specification judges the same request with WIDE
    in its place (see Corpus.ask)."""
    rng, out = run.rng, []
    for i, c in enumerate(co.configs):
        if i not in co.exe:
            continue
        ns = list(range(1, len(c["nodes"]) + 1))
        dyns = [n for n in ns if path_params(c, n)]
        for n in rng.sample(dyns, min(3, len(dyns))):
            own = [r["method"].encode() for r in c["nodes"][n - 1]["res"]] or [b"GET"]
            ss = spell(c, n, rng)
            at = [k for k, s in enumerate(segs(c, n)) if s["k"] == "dyn"]
            texty = [k for k in at if segs(c, n)[k]["typ"] in ("String", "Text")]
            k = rng.choice(texty or at)
            ss[k] = rng.choice([WIDE, WIDE + b"z", b"a" + WIDE])
            out.append({"c": i, "p": join(ss) + rng.choice([b"", b"", b"/"]), "m": rng.choice(own), "why": "long", "wide": 70000})
            if texty and rng.random() < 0.3:
                out.append(dict(out[-1], wide=300))
        if run.prop == "C06":
            n = rng.choice(ns)
            p = join(spell(c, n, rng))
            out.append({"c": i, "p": p + rng.choice([b"", b"/", b"//"]) + WIDE, "m": b"GET", "why": "long", "wide": 70000})
            out.append({"c": i, "p": p, "m": rng.choice([b"", b"G", b"GET"]) + WIDE, "why": "long", "wide": 70000})
    return out


def c04(run):
    def bad(co):
        out = []
        for i, c in enumerate(co.configs):
            if i not in co.exe:
                continue
            ns = [n for n in range(1, len(c["nodes"]) + 1) if path_params(c, n)]
            for n in run.rng.sample(ns, min(8 if len(ns) < 40 else 80, len(ns))):
                pp = path_params(c, n)
                for d in range(min(4, len(pp))):
                    p = join(spell(c, n, run.rng, bad_at=d))
                    tail = run.rng.choice([b"", b"", b"/", b"/zz", b"/zz/7", b"//", b"/new"])
                    out.append({"c": i, "p": p + tail, "m": run.rng.choice(STD + ODD), "why": "malformed"})
                if len(pp) > 1:
                    # two malformed ones: the first counts
                    a, b = sorted(run.rng.sample(range(len(pp)), 2))
                    ss, d = [], 0
                    for s in segs(c, n):
                        if s["k"] == "static":
                            ss.append(s["text"].encode())
                        else:
                            pool = (BAD[s["typ"]] or GOOD[s["typ"]]) if d in (a, b) else GOOD[s["typ"]]
                            ss.append(run.rng.choice(pool).encode())
                            d += 1
                    out.append({"c": i, "p": join(ss), "m": run.rng.choice(STD), "why": "malformed"})
        return out
    return routing(run, keep=has_dyn, budget=70 if run.quick else 200, extra=bad)


def c05(run):
    co, canon = corpus(run)
    usable(run, co)
    base = [r for r in requests(run, co, 55 if run.quick else 130) if utf8(r["p"])]
    base = [r for r in probes(run, canon) if utf8(r["p"])] + base + explored(run, co, canon)
    # every block without and with the slash
    for i, c in enumerate(co.configs):
        if i in co.exe:
            ns = range(1, len(c["nodes"]) + 1)
            for n in (ns if len(ns) < 20 else run.rng.sample(list(ns), 20)):
                own = [r["method"].encode() for r in c["nodes"][n - 1]["res"]] or [b"GET"]
                base.append({"c": i, "p": join(spell(c, n, run.rng)), "m": run.rng.choice(own), "why": "declared"})
    by = {}
    reqs = []

    def get(c, p, m):
        k = (c, p, m)
        if k not in by:
            by[k] = {"c": c, "p": p, "m": m, "why": "twin"}
            reqs.append(by[k])
        return by[k]

    pairs = 0
    for r in base:
        a = get(r["c"], r["p"], r["m"])
        if not a["p"].startswith(b"/"):
            b = get(r["c"], b"/" + a["p"], r["m"])
            if "twin" not in a:
                a["twin"] = b
                pairs += 1
        if a["p"] and not a["p"].endswith(b"/"):
            b = get(r["c"], a["p"] + b"/", r["m"])
            if "twin" not in b:
                b["twin"] = a
                pairs += 1
        elif a["p"].startswith(b"/") and not a["p"].startswith(b"//"):
            b = get(r["c"], a["p"][1:], r["m"])
            if "twin" not in b:
                b["twin"] = a
                pairs += 1
        if run.rng.random() < 0.4 and a["p"].startswith(b"/") and a["p"][1:2] != b"/":
            b = get(r["c"], a["p"][1:], r["m"])
            if "twin" not in b:
                b["twin"] = a
                pairs += 1
    run.coverage["spelling_pairs"] = pairs
    run.note("%d requests" % len(reqs))
    co.ask(reqs)
    mis, dev = judge(run, co, reqs)
    for r in reqs:      # a pair is explained when either side took a known deviation
        if r.get("twin") is not None and id(r["twin"]) in dev:
            dev.setdefault(id(r), []).extend(dev[id(r["twin"])])
    report(run, co, reqs, mis, dev)
    return run.finish()


def c06(run):
    def noise(co):
        rng, out = run.rng, []
        pools = [list(range(256)), [47, 0xff, 0x80, 0xc3, 0x61, 0xe2, 0x82], [47, 97, 98], [0, 37, 47, 46]]
        for i, c in enumerate(co.configs):
            if i not in co.exe:
                continue
            ns = list(range(1, len(c["nodes"]) + 1))
            for _ in range(14 if run.quick else 40):
                pool = rng.choice(pools)
                junk = bytes(rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 30])))
                ss = spell(c, rng.choice(ns), rng)
                x = rng.random()
                if x < 0.3:
                    p = junk
                elif x < 0.6:
                    p = join(ss) + rng.choice([b"", b"/"]) + junk
                elif x < 0.8 and ss:
                    k = rng.randrange(len(ss))
                    p = join(ss[:k] + [junk] + ss[k + 1:])
                else:
                    q = join(ss)
                    k = rng.randrange(len(q) + 1)
                    p = q[:k] + rng.choice([b"", junk[:2]])
                m = rng.choice(STD + ODD) if rng.random() < 0.8 else junk
                out.append({"c": i, "p": p, "m": m, "why": "noise"})
            # every proper prefix of one declared path, and of it with a byte more
            q = join(spell(c, rng.choice(ns), rng))[:40]
            for k in range(len(q) + 1):
                out.append({"c": i, "p": q[:k], "m": b"GET", "why": "prefix"})
            # very long ones, answered but cheap to judge only in small number
            if i % 12 == 0:
                out.append({"c": i, "p": b"/" * 120, "m": b"GET" * 1000, "why": "long"})
                out.append({"c": i, "p": b"/" + b"a" * 2000, "m": b"G" * 3, "why": "long"})
        return out + stretched(run, co)
    return routing(run, budget=40 if run.quick else 110, k5=True, raw=True, extra=noise)


def c07(run):
    co, canon = corpus(run)
    usable(run, co)
    reqs = []
    for i, c in enumerate(co.configs):
        if i in co.exe:
            reqs += values_for(c, i, run.rng, 5 if run.quick else 14)
    for k, name, texts in [("K1", "B", [b"newt"]), ("K2", "Foobar", []), ("K2b", "Q2", [b"foobarx"]), ("K2b", "Fb", [])]:
        c = co.configs[canon[k]]
        for a, (n, r) in enumerate(serving(c)):
            if c["nodes"][n - 1]["res"][r]["name"] == name:
                reqs.append({"c": canon[k], "a": a, "m": b"GET", "texts": texts, "node": n, "res": r + 1})
    explored(run, co, canon)
    run.note("%d values" % len(reqs))
    co.ask(reqs)
    mis, dev = judge(run, co, reqs)
    report(run, co, reqs, mis, dev)
    return run.finish()


def c08(run):
    def at_redirects(co):
        out = []
        for i, c in enumerate(co.configs):
            if i not in co.exe:
                continue
            for n, r in places(c):
                rs = c["nodes"][n - 1]["res"][r]
                for _ in range(4 if rs["redirect"] else 1):
                    out.append({"c": i, "p": join(spell(c, n, run.rng)), "m": rs["method"].encode(), "why": "declared"})
        return out
    return routing(run, keep=has_redirect, budget=40 if run.quick else 120, extra=at_redirects)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08}
