"""Route files: where they come from, how they are varied, how TLC judges what
the real parser made of them (spec/RouteFile.tla, spec/FileTrace.tla)."""
from concurrent.futures import ThreadPoolExecutor
from .common import *
from .configs import *


def cps(s):
    return [ord(c) for c in s]


def text_of(codes):
    return "".join(map(chr, codes))


def cfg_cps(c):
    """A flat configuration with all names as code points."""
    def ps(q):
        return [{"name": cps(p["name"]), "typ": cps(p["typ"])} for p in q]
    return {"headers": [cps(h) for h in c["headers"]],
            "nodes": [{"parent": n["parent"],
                       "seg": {"k": n["seg"]["k"], "text": cps(n["seg"]["text"]), "name": cps(n["seg"]["name"]),
                               "typ": cps(n["seg"]["typ"])},
                       "query": ps(n["query"]),
                       "res": [{"method": r["method"], "mods": [cps(m) for m in r["mods"]], "name": cps(r["name"]),
                                "redirect": r["redirect"], "query": ps(r["query"])} for r in n["res"]]}
                      for n in c["nodes"]]}


NOTHING = {"headers": [], "nodes": []}


def split(text):
    """Lines without their ends, and what follows the last line end."""
    parts = text.split("\n")
    return [p[:-1] if p.endswith("\r") else p for p in parts[:-1]], parts[-1]


def locations(diag):
    """Locations shown by a diagnostic: (line number, quoted text)."""
    out = []
    for l in diag.split("\n"):
        m = re.match(r"^ *(\d+):(.*)$", l, re.S)
        if m:
            out.append({"line": int(m.group(1)), "text": cps(m.group(2))})
    return out


def row(text, res, given=None):
    lines, rest = split(text)
    kind = res["kind"]
    if kind == "Ok" and res.get("rest"):
        kind = "Partial"
    return {"lines": [cps(l) for l in lines], "rest": cps(rest), "kind": kind,
            "cfg": cfg_cps(res["cfg"]) if kind == "Ok" else NOTHING,
            "places": locations(res.get("diag", "")), "given": given or NOTHING}


def judge_files(run, rows, prop=None):
    """Returns [(index, why, want)] of the rows TLC disagrees with, and the number of valid files."""
    parts = [list(range(k, len(rows), JOBS)) for k in range(JOBS)]
    parts = [p for p in parts if p]

    def one(part):
        f = os.path.join(run.work, "files-%d.json" % part[0])
        with open(f, "w") as fh:
            json.dump({"files": [rows[k] for k in part]}, fh)
        r = tlc(run, "FileTrace", 'INIT TInit\nNEXT TNext\nCONSTANT File = "%s"\nCONSTANT Prop = "%s"\n'
                'CHECK_DEADLOCK TRUE\n' % (f, prop or run.prop), workers=1, timeout=850, count=False)
        if not os.environ.get("VF_KEEP"):
            os.unlink(f)
        if not r.ok:
            raise ToolError("FileTrace: " + r.error())
        return (r.distinct, r.generated, len(part),
                [(part[m["fid"] - 1], m["why"], m["want"]) for m in r.tagged("MIS")],
                [part[k - 1] for k in r.tagged("VALID")])

    mis, valid = [], set()
    with ThreadPoolExecutor(JOBS) as ex:
        for a, b, n, m, v in ex.map(one, parts):
            run.states += a
            run.transitions += b
            run.validated += n
            mis += m
            valid |= set(v)
    return sorted(mis, key=lambda m: m[0]), valid


# ----------------------------------------------------------------------
def family(run, lines, level, rich, sample=0):
    """Every sequence of valid body lines up to a bound, extended by every line of the alphabet."""
    r = tlc_ok(run, "FileFamily",
               "SPECIFICATION Spec\nINVARIANT NothingLost\nINVARIANT NoEmptyBlock\nPROPERTY BadIsFinal\n"
               "CONSTANT MaxLines = %d\nCONSTANT MaxLevel = %d\nCONSTANT Rich = %s\nCONSTANT Quiet = FALSE\n"
               "CONSTANT Sample = %d\nCHECK_DEADLOCK FALSE\n" % (lines, level, "TRUE" if rich else "FALSE", sample),
               workers=1 if sample else JOBS, timeout=900, heap="6g", extra=["-seed", str(run.seed)])
    return sorted([[text_of(l) for l in f] for f in r.tagged("FIL")])


def write(c, rng=None):
    """A configuration as file text lines, with harmless variation when rng is given."""
    def sp(often=0.15):
        return rng.choice([" ", "  ", "\t", "   "]) if rng and rng.random() < often else ""

    def param(p):
        one = " " if not rng or rng.random() < 0.7 else ""
        return sp() + p["name"] + sp() + ":" + one + sp() + p["typ"] + sp()

    def meth(m):
        if not rng:
            return m
        x = rng.random()
        return m if x < 0.6 else m.lower() if x < 0.8 else "".join(rng.choice([a, a.lower()]) for a in m)

    lines = list(c["headers"]) + ["/"]

    def rec(n, lv):
        x, ind = c["nodes"][n - 1], "  " * lv
        for q in x["query"]:
            lines.append("%s[%s]" % (ind, param(q)))
        for r in x["res"]:
            arrow = ""
            if r["redirect"]:
                arrow = sp() + "->" + (" " if not rng or rng.random() < 0.7 else "") + sp()
            names = ""
            for m in r["mods"]:
                names += m + sp(0.08) + "::" + sp(0.08)
            lines.append("%s%s %s%s%s" % (ind, meth(r["method"]), arrow, names, r["name"]))
            for q in r["query"]:
                lines.append("%s  [%s]" % (ind, param(q)))
        for k in kids(c, n):
            s = c["nodes"][k - 1]["seg"]
            lines.append(ind + (s["text"] if s["k"] == "static" else "{%s}" % param(s)))
            rec(k, lv + 1)

    rec(1, 1)
    return lines


def assemble(lines, rng=None, final=True):
    if not rng:
        return "\n".join(lines) + ("\n" if final else "")
    out = ""
    mode = rng.choice(["\n", "\n", "\r\n", "mixed"])
    blank = rng.choice([0, 0, 0.1, 0.5])
    for k, l in enumerate(lines):
        e = rng.choice(["\n", "\r\n"]) if mode == "mixed" else mode
        while rng.random() < blank * 0.6:
            out += e
        out += l
        if k < len(lines) - 1 or final:
            out += e
            if rng.random() < blank:
                out += e
    return out


NAMES = ["a", "b", "index", "People", "new_item", "x1", "9lives", "GET", "Get", "delete", "post", "get_it", "PUT",
         "caf\u00e9", "\u65e5", "_", "__x", "a_b_c", "T", "String", "Uuid", "u8", "self", "fn", "A" * 40, "\u03bb2"]
HEADS = ["use uuid::Uuid;", "// comment", "/// doc", "/* block", "   indented();", "use a::{", "  GET Index", "[q: String]",
         "//", "/ ", "/x", " /", "#![allow(x)]", "\u65e5\u672c \u2192 x", "\ttab", "-> x", "```", "*/", "const S: &str = \"/\";",
         "{id: Uuid}", "users", "/*", "'", "\\", "%", "pub use std::collections::HashMap as Map;"]


def loose(rng, size):
    """A random printable configuration, valid for code generation or not."""
    def name():
        return rng.choice(NAMES)

    def ps(n):
        return [prm(name(), name()) for _ in range(n)]

    def some(n, odds=0.35):
        return sum(rng.random() < odds for _ in range(n))

    def ress(n):
        return [res(rng.choice(["GET", "POST", "PUT", "DELETE"]), name(), [name() for _ in range(some(3))],
                    rng.random() < 0.3, ps(some(3, 0.25))) for _ in range(n)]

    nodes = [root([], ps(some(3)))]

    def grow(n, budget, depth):
        me = nodes[n - 1]
        me["res"] = ress(some(4, 0.45))
        k = 0
        while budget > 0 and depth < 12 and (k == 0 or rng.random() < 0.6):
            share = budget if rng.random() < 0.4 else rng.randint(1, budget)
            nodes.append(node(n, st(name()) if rng.random() < 0.65 else dy(name(), name()), [], ps(some(2, 0.3))))
            grow(len(nodes), share - 1, depth + 1)
            budget -= share
            k += 1
        if not me["res"] and k == 0:
            me["res"] = ress(1)

    grow(1, size, 0)
    return cfg(nodes, [rng.choice(HEADS) for _ in range(some(4, 0.3))])


ODD_LINES = ["GET", "GET ", "GET  A", "GET A ", "GET A::", "GET ::A", "GET A:B", "GET -> ", "GET ->", "GET->A", "GET A b", "FOO A",
             "PATCH A", "HEAD A", "GETA B", "get\tA", "[q]", "[q:]", "[: T]", "[q: T", "q: T]", "[q: T] x", "[q: T]]", "[q T]",
             "[q:: T]", "[q: a::T]", "[q: Vec<T>]", "{p}", "{p: T", "{p: T}x", "{p: T}/x", "{}", "{p:}", "p: T}", "foo-bar", "foo bar",
             "foo/bar", "/foo", "/", "foo ", "foo\t", "# note", "// note", "\u2192 x", "a.b", "~", "*", "[", "]", "{", "}", ":", "::",
             "POST -> A B", "PUT - > A", "DELETE >A", "GET A->B", "\u20ac", "x\u2014y", "GET \u20ac", "[\u20ac: T]", "G ET A", "\u00a0a",
             "[q: T]\u00a0", "\ufeffa", "GET A\u00a0", "GET \u2028A", "\u2003a"]


def mutate(lines, rng):
    """A file with something wrong with it (most of the time)."""
    lines = list(lines)
    start = lines.index("/") if "/" in lines else 0
    final = True
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.randrange(len(lines))
        b = rng.randrange(start + 1, len(lines)) if len(lines) > start + 1 else k
        b = min(b, len(lines) - 1)
        x = rng.randrange(17)
        if x == 0 and len(lines) > 1:
            del lines[b]
        elif x == 1:
            lines.insert(b, lines[b])
        elif x == 2:
            j = rng.randrange(len(lines))
            lines[b], lines[j] = lines[j], lines[b]
        elif x == 3:
            lines[b] = " " * rng.choice([1, 2, 2, 3, 4]) + lines[b]
        elif x == 4:
            lines[b] = lines[b][rng.choice([1, 2, 2, 4]):]
        elif x == 5:
            lines[b] = lines[b][:rng.randrange(len(lines[b]) + 1)]
        elif x == 6:
            p = rng.randrange(len(lines[b]) + 1)
            lines[b] = lines[b][:p] + rng.choice([" ", "\t", ":", "-", "x", "]", "}", "/", "\r", "\u00e9", "\u20ac", "::", "\x0b", "\x0c", "\0"]) + lines[b][p:]
        elif x == 7:
            lines[b] += rng.choice([" ", "\t", "  ", " // x", ";", "\r"])
        elif x == 8:
            lines.insert(b, "  " * rng.randrange(0, 5) + rng.choice(ODD_LINES))
        elif x == 9:
            lines[b] = re.match(" *", lines[b]).group() + rng.choice(ODD_LINES)
        elif x == 10:
            final = False
        elif x == 11:
            lines = lines[:b]
            if not lines:
                lines = [""]
        elif x == 12 and "/" in lines:
            lines[lines.index("/")] = rng.choice(["//", "/ ", " /", "", "/x", "\\", "/\r"])
        elif x == 13:
            lines[b] = lines[b].replace("  ", "\t", 1)
        elif x == 14:
            lines.insert(b, rng.choice([" ", "  ", "\t", "      "]))
        elif x == 15:
            lines = lines[:b] + ["  " * rng.randrange(1, 4) + rng.choice(["GET A", "[q: T]", "s", "{p: T}", "PUT -> b::A"])] + lines[b:]
        elif x == 16:
            # a line pulled up into the one before, or broken in two
            if b + 1 < len(lines) and rng.random() < 0.5:
                lines[b] += lines.pop(b + 1)
            else:
                p = rng.randrange(len(lines[b]) + 1)
                lines[b:b + 1] = [lines[b][:p], lines[b][p:]]
    return lines, final


def known_chars(text):
    """Only characters whose class the specification knows."""
    return all(ord(c) < 128 or c in "\u00e9\u00df\u03bb\u0663\u00b2\u65e5\u672c\u2192\u2014\u20ac\u00a0\u2028\u2003\ufeff" for c in text)


def headless_space(text):
    """Lines of white space before the root line are not covered by the properties."""
    ls, _ = split(text)
    for l in ls:
        if l == "/":
            return False
        if l and not l.strip(" \t\x0b\x0c"):
            return True
    return False
