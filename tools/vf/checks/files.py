"""C11-C13: the route-file format, judged by TLC against spec/RouteFile.tla."""
from ..files import *

ASSUME = ["characters above 127 in checked files are the ones classified in spec/RouteFile.tla",
          "lines of white space in front of the root line are left out (neither blank nor a header by the properties)",
          "TLC evaluates the specification faithfully"]


def seeds(run, n_sim, n_loose):
    """Printable configurations: the valid ones of the generator model, and looser ones."""
    out = list(shapes().values())
    out += from_simulation(run, n_sim, 14)
    out += from_simulation(run, n_sim // 4, 30)
    out = [c for c in out if all(n["seg"]["k"] != "static" or re.match(r"^\w+$", n["seg"]["text"]) for n in c["nodes"])]
    out += [loose(run.rng, run.rng.choice([1, 2, 4, 8, 15, 40])) for _ in range(n_loose)]
    return out


def enumerated(run):
    """Bounded exhaustive files, each with random surroundings."""
    rng = run.rng
    if run.quick:
        fs = family(run, 4, 3, False) + family(run, 3, 2, True)
        fs += family(run, 5, 3, False, sample=12)
    else:
        fs = family(run, 6, 3, False, sample=3) + family(run, 4, 2, True) + family(run, 5, 2, True, sample=20)
    run.coverage["enumerated_line_sequences"] = len(fs)
    out = []
    for ls in fs:
        x = rng.random()
        if x < 0.55:
            out.append("/\n" + "\n".join(ls) + "\n")
        elif x < 0.75:
            tail = ["  " * rng.randrange(1, 4) + rng.choice(["GET Z", "z", "[z: T]", "{z: T}"]) for _ in range(rng.choice([1, 2]))]
            out.append("/\n" + "\n".join(ls + tail) + "\n")
        elif x < 0.95:
            out.append(assemble(["/"] + ls, rng))
        else:
            out.append("/\n" + "\n".join(ls))
    return out


def parse_all(run, texts):
    texts = [t for t in texts if known_chars(t) and not headless_space(t)]
    texts = list(dict.fromkeys(texts))
    rs = wfh("parse", [{"id": "f%d" % k, "text": t} for k, t in enumerate(texts)])
    return texts, rs


def judged(run, texts, rs):
    rows = [row(t, r) for t, r in zip(texts, rs)]
    mis, valid = judge_files(run, rows)
    run.coverage["files"] = len(rows)
    run.coverage["files_valid_by_the_specification"] = len(valid)
    run.coverage["files_accepted_by_the_parser"] = sum(r["kind"] == "Ok" for r in rows)
    for k in run.rng.sample(range(len(texts)), min(6, len(texts))):
        run.sample({"file": texts[k], "specification": "valid" if k in valid else "invalid", "parser": rows[k]["kind"]})
    for k, why, want in mis:
        got = rs[k]
        run.violate("%s file %r: parser says %s" % (" ".join(map(str, why)), texts[k][:200], got["kind"]),
                    {"file": texts[k], "specification": why, "parser": got,
                     "specified": {"headers": [text_of(h) for h in want["headers"]], "blocks": len(want["nodes"])}})
    run.assumptions = ASSUME
    return run.finish()


def c11(run):
    cs = seeds(run, 250 if run.quick else 2000, 2500 if run.quick else 20000)
    rs = wfh("print", [{"id": "p%d" % k, "cfg": c} for k, c in enumerate(cs)])
    rows, kept = [], []
    for c, r in zip(cs, rs):
        if r["kind"] != "Ok":
            run.violate("printing fails: %s" % r.get("msg"), {"config": c})
            continue
        if not known_chars(r["text"]):
            continue
        x = row(r["text"], r["back"], cfg_cps(c))
        if r["back"]["kind"] == "Ok" and not r["eq"]:
            x["kind"] = "Different"
        rows.append(x)
        kept.append((c, r))
    mis, _ = judge_files(run, rows)
    run.coverage["configurations_printed"] = len(rows)
    run.coverage["deepest"] = max(len(path_nodes(c, len(c["nodes"]))) for c in cs)
    for k in run.rng.sample(range(len(kept)), 4):
        run.sample({"printed": kept[k][1]["text"][:1500]})
    for k, why, _ in mis:
        c, r = kept[k]
        run.violate("printed text does not read back as the configuration: %r" % r["text"][:200],
                    {"config": c, "text": r["text"], "specification_reads": why, "parser": r["back"]})
    run.assumptions = ASSUME
    return run.finish()


def c12(run):
    rng = run.rng
    texts = enumerated(run)
    for c in seeds(run, 200 if run.quick else 1200, 900 if run.quick else 8000):
        for _ in range(3 if run.quick else 4):
            texts.append(assemble(write(c, rng), rng))
        texts.append(assemble(write(c)))
        if rng.random() < 0.3:
            ls, fin = mutate(write(c, rng), rng)
            texts.append(assemble(ls, rng, fin))
    return judged(run, *parse_all(run, texts))


def c13(run):
    rng = run.rng
    texts = enumerated(run) + ["", "\n", "/", "/\n", "/\r\n", "\r", "/\n\n", "/\n/\n", "x", "x\n", "/\n  ", "/\n  GET A", " /\n  GET A\n"]
    for c in seeds(run, 200 if run.quick else 1200, 1200 if run.quick else 8000):
        for _ in range(6 if run.quick else 10):
            ls, fin = mutate(write(c, rng), rng)
            texts.append(assemble(ls, rng if rng.random() < 0.4 else None, fin))
    pools = ["/\n GETA:[]{}q", "/\n  GET A\n[q: T]\r", "\n\r /ab", "\u20ac\u00e9/\n G", "  \n\n/[]{}:->x"]
    for _ in range(1500 if run.quick else 10000):
        p = rng.choice(pools)
        t = "".join(rng.choice(p) for _ in range(rng.choice([1, 3, 8, 20, 60])))
        texts.append(rng.choice(["", "/\n", "/\n  GET A\n", "use x;\n/\n  s\n"]) + t)
    for l in ODD_LINES:
        for lv in range(0, 4):
            for pre in ["/\n", "/\n  GET A\n", "/\n  s\n", "/\n  s\n    GET A\n", "/\n  GET A\n  s\n    GET B\n"]:
                texts.append(pre + "  " * lv + l + "\n")
                texts.append(pre + "  " * lv + l + "\n  t\n    GET Z\n")
    return judged(run, *parse_all(run, texts))


CHECKS = {"C11": c11, "C12": c12, "C13": c13}
