"""C09, C10, C19, C20: the generated module as an interface."""
from ..router import *
from ..files import *
from .matcher import corpus, usable, usable_one, requests, utf8, has_query, ASSUME as MATCH_ASSUME
from . import matcher

SERVED = re.compile(r"\b(GET|POST|PUT|DELETE|HEAD|PATCH) (/[^\s`]*)")


def rows_of(co):
    items, where = [], []
    for i, g in enumerate(co.gen):
        if g["kind"] != "Ok" or "api" not in g:
            continue
        mods = []
        for m in g["api"]["modules"]:
            mods.append({"path": m["path"], "pub": m["pub"], "modules": m["modules"], "lines": m["lines"],
                         "structs": [{"name": s["name"], "pub": s["pub"], "fields": s["fields"],
                                      "served": [list(x) for l in s["doc"] for x in SERVED.findall(l)]}
                                     for s in m["structs"]],
                         "enums": [{"name": e["name"], "pub": e["pub"], "variants": e["variants"]} for e in m["enums"]]})
        c = co.configs[i]
        items.append({"cfg": c, "modules": mods,
                      "headers": [l.strip() for h in c["headers"] for l in h.split("\n") if l.strip()]})
        where.append(i)
    return items, where


def judge_api(run, co, known=()):
    """known: configurations of a known finding that shows as soon as the module is compiled"""
    items, where = rows_of(co)
    parts = [list(range(k, len(items), JOBS)) for k in range(JOBS)]

    def one(part):
        if not part:
            return []
        f = os.path.join(run.work, "api-%d.json" % part[0])
        with open(f, "w") as fh:
            json.dump({"items": [items[k] for k in part]}, fh)
        r = tlc(run, "Api", 'INIT Init\nNEXT Next\nCONSTANT File = "%s"\nCONSTANT Prop = "%s"\n'
                'CHECK_DEADLOCK FALSE\n' % (f, run.prop), workers=1, timeout=850, count=False)
        if not r.ok:
            raise ToolError("Api: " + r.error())
        run.states += r.distinct
        run.transitions += r.generated
        return [(where[part[m["item"] - 1]], m["module"], m["problems"]) for m in r.tagged("MIS")]

    with ThreadPoolExecutor(JOBS) as ex:
        res = [x for xs in ex.map(one, parts) for x in xs]
    run.validated += len(items)
    run.coverage["modules_judged"] = sum(len(it["modules"]) for it in items)
    for i, mod, problems in res:
        if i in co.broken and co.configs[i] in known:
            continue
        run.violate("generated module %s: %s" % ("::".join(["routes"] + list(mod)), ", ".join(sorted(problems))),
                    {"config": co.configs[i], "route_file": outline(co.configs[i]), "module": mod, "problems": problems,
                     "found": [m for m in co.gen[i]["api"]["modules"]
                               if m["path"] == [snake(x) for x in mod]]})
    for i, g in enumerate(co.gen):
        if "api_error" in g:
            run.violate("generated code does not parse: " + g["api_error"],
                        {"config": co.configs[i], "route_file": outline(co.configs[i])})
    for i in run.rng.sample(where, min(4, len(where))):
        run.sample({"config": outline(co.configs[i])})


# ----------------------------------------------------------------------
WORDS = ["Show", "index", "edit_all", "newItem", "do_It", "r2d2", "A1", "aB", "HTTPServer", "get_URL", "x", "Z", "list_", "_lead",
         "a__b", "a_1", "V2_api", "snake_case_name", "CamelCaseName", "mixed_CaseName", "UPPER", "UPPER_SNAKE", "trailing9",
         "i18n", "l10n_Pages", "xX", "Xx", "GetIndex", "route", "matches", "errors", "options", "q_Q_q"]


def naming(run, n):
    """Valid configurations with unusual names for modules, resources, fields."""
    rng, out = run.rng, []
    fields = ["id", "user_id", "x", "userId", "n2", "a_b_c", "_u", "t_", "value", "result", "self_", "params", "fmt", "other"]
    for _ in range(n * 2):
        nodes = [root()]
        mods = [[rng.choice(WORDS) for _ in range(rng.choice([0, 1, 1, 2, 3]))] for _ in range(3)]
        for k in range(rng.randint(2, 6)):
            parent = rng.randrange(1, len(nodes) + 1) if nodes[-1]["parent"] == 0 or rng.random() < 0.4 else len(nodes)
            parent = len(nodes) if rng.random() < 0.5 else 1
            seg = st("s%d" % k) if rng.random() < 0.6 else dy(rng.choice(fields), rng.choice(["u8", "String", "Uuid"]))
            nodes.append(node(parent, seg))
        for x in nodes[1:]:
            for m in rng.sample(["GET", "POST", "PUT", "DELETE"], rng.choice([1, 1, 2])):
                x["res"].append(res(m, rng.choice(WORDS), rng.choice(mods), False,
                                    [prm(f, rng.choice(["u8", "Text"])) for f in rng.sample(fields, rng.choice([0, 0, 1, 2]))]))
        out.append(finish(nodes))
    return valid_only(run, out)[:n]


def valid_only(run, cs):
    """TLC decides which of these are valid configurations."""
    f = os.path.join(run.work, "check.json")
    with open(f, "w") as fh:
        json.dump(cs, fh)
    r = tlc_ok(run, "ConfigCheck", 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT File = "%s"\n' % f, workers=JOBS,
               timeout=800)
    ok = {x["k"] for x in r.tagged("CHK") if x["valid"]}
    return [c for k, c in enumerate(cs) if k + 1 in ok]


def api_corpus(run, keep=lambda c: True, more=(), fam=None):
    big = list(shapes().values())
    n = 150 if run.quick else 1200
    sim = from_simulation(run, n, 14) + from_simulation(run, n // 3, 28)
    fam = from_family(run, fam if fam is not None else (120 if run.quick else 900))
    cs = [c for c in big + list(more) + sim + fam if keep(c)]
    return Corpus(run, cs, api=True)


def c09(run):
    co = api_corpus(run, has_query, fam=1)
    usable(run, co)
    judge_api(run, co)
    reqs = []
    for i, c in enumerate(co.configs):
        if i in co.exe:
            for n, r in places(c):
                m = c["nodes"][n - 1]["res"][r]["method"].encode()
                p = join(spell(c, n, run.rng))
                reqs.append({"c": i, "p": p, "m": m, "why": "declared"})
                for tail in run.rng.sample([b"?", b"?q=1", b"/?q=1", b"&q=1", b"/?", b"#q"], 2):
                    reqs.append({"c": i, "p": p + tail, "m": m, "why": "query text"})
            reqs += values_for(c, i, run.rng, 1)
    co.ask(reqs)
    mis, dev = judge(run, co, reqs)
    settle(run, co, mis, dev)
    run.coverage["requests"] = len(reqs)
    run.coverage["query_fields"] = sum(len(query_params(c, n, r)) for c in co.configs for n, r in serving(c))
    run.assumptions = MATCH_ASSUME
    return run.finish()


RESERVED = ["path", "method", "len", "i", "start", "text"]


TAKEN = ["P", "M", "Match", "Error", "Route", "Result", "String", "Box", "Ok", "AsRef"]
TAKEN_MODULES = ["std", "fmt"]


def taken_names():
    """Known finding K6: these resources, modules and parameters exactly."""
    return ([["/", [], ["a", ["GET " + n]]] for n in TAKEN] +
            [["/", [], ["a", ["GET Option [q: u8]"]]], ["/", [], ["{Show: u8}", ["GET Show"]]]] +
            [["/", [], ["a", ["GET Grp::" + n]]] for n in ("Route", "String")] +
            [["/", [], ["a", ["GET %s::Zed" % n]]] for n in TAKEN_MODULES])


def c10(run):
    names = naming(run, 150 if run.quick else 1500)
    run.coverage["naming_configurations"] = len(names)
    k5 = [from_text(["/", [], ["{%s: String}" % n, ["GET A"], ["{z: String}", ["GET B"]]]]) for n in RESERVED]
    k5 += [from_text(["/", ["GET R"], ["{%s: usize}" % n, ["GET A"], ["a", ["GET B"]]]]) for n in RESERVED]
    k6 = list(map(from_text, taken_names()))
    big = list(shapes().values())
    if len(valid_only(run, big)) != len(big):
        raise ToolError("a shape is no valid configuration")
    co = api_corpus(run, more=k5 + k6 + list(map(from_text, CANON_PLAIN())) + names)
    for i, why in co.broken.items():
        if any(co.configs[i] == k for k in k5):
            run.hit("K5", outline(co.configs[i]))
        elif any(co.configs[i] == k for k in k6):
            run.hit("K6", outline(co.configs[i]))
        else:
            usable_one(run, co, i, why)
    judge_api(run, co, k6)
    run.assumptions = MATCH_ASSUME[:1] + ["a configuration compiles if a typed client of its whole interface compiles with it (rustc, edition 2018)"]
    return run.finish()


def CANON_PLAIN():
    return [t for k, t in CANON.items() if not k.startswith("K5")]


def c20(run):
    co = api_corpus(run, lambda c: all(n["seg"]["k"] != "static" or re.match(r"^\w+$", n["seg"]["text"]) for n in c["nodes"]),
                    more=naming(run, 60 if run.quick else 600))
    usable(run, co)
    judge_api(run, co)
    # the listing, read by the specification's reader
    rows, who = [], []
    for i, g in enumerate(co.gen):
        if g["kind"] != "Ok" or "api" not in g:
            continue
        doc = g["api"]["modules"][0]["doc"]
        listing, inside = None, False
        for l in doc:
            if l.startswith("```"):
                if inside:
                    break
                inside, listing = True, []
            elif inside:
                listing.append(l)
        text = "\n".join(listing or []) + "\n"
        res = {"kind": "Err", "diag": ""}
        rows.append(row(text, res, cfg_cps(co.configs[i])))
        who.append((i, text))
    mis, _ = judge_files(run, rows)
    for k, why, want in mis:
        i, text = who[k]
        run.violate("the listing in the documentation does not read back as the routes (%s)" % " ".join(map(str, why)),
                    {"config": co.configs[i], "route_file": outline(co.configs[i]), "listing": text})
    run.coverage["listings"] = len(rows)
    run.assumptions = MATCH_ASSUME[:1]
    return run.finish()


HEADER_LINES = ["// plain comment", "//! not at the start".replace("!", ""), "/* block comment */", "use std::collections::HashMap;",
                "use std::fmt::Debug as _;", "pub type Alias = u8;", "pub const LIMIT: usize = 10;", "/// documented",
                "/", "  fn indented() {}", "#[allow(dead_code)]", "static NAME: &str = \"/\\n\";", "use std::{", "    io::Read,", "};",
                "//// four slashes", "/*", "   in a comment /", "*/", "extern crate std as mystd;", "\u65e5\u672c", "/x", "// ```",
                "const T: &str = \"  GET Index\";", "GET Index", "a\tb", "use\ta;\t// \tb", "fn a() {", "}", "}", "[q: String]", "a::b", "macro_rules! m { () => {} }"]


def c19(run):
    rng = run.rng
    # 1. reading headers, including shapes that are no Rust
    texts = []
    body = ["/\n  GET A\n", "/\r\n  GET A\r\n", "\n/\n  GET M::A\n  b\n    PUT M::N::C\n", "/\n\n  {p: T}\n    GET A\n/".rstrip("/")]
    for _ in range(3000 if run.quick else 25000):
        n = rng.choice([0, 1, 1, 2, 3, 5, 12])
        ls = []
        for _ in range(n):
            l = rng.choice(HEADER_LINES + HEADS)
            if rng.random() < 0.2:
                l = l + rng.choice(["  ", ";", " /", "\t", "/"])
            if rng.random() < 0.15:
                l = rng.choice(["  ", "\t", " "]) + l
            if rng.random() < 0.1:
                l = "".join(rng.choice("/ use;:{}[]a\"'\\#!\u00e9\u20ac") for _ in range(rng.randint(1, 12)))
            ls += [l] + [""] * rng.choice([0, 0, 0, 1, 3])
        e = rng.choice(["\n", "\n", "\r\n"])
        texts.append(rng.choice(["", "", e]) + "".join(l + e for l in ls) + rng.choice(body))
    texts = list(dict.fromkeys(t for t in texts if known_chars(t) and not headless_space(t)))
    rs = wfh("parse", [{"id": "h%d" % k, "text": t} for k, t in enumerate(texts)])
    rows = [row(t, r) for t, r in zip(texts, rs)]
    mis, valid = judge_files(run, rows)
    run.coverage["files"] = len(rows)
    run.coverage["files_valid_by_the_specification"] = len(valid)
    for k, why, want in mis:
        run.violate("headers of %r read as %s" % (texts[k][:160], rs[k].get("cfg", rs[k])["headers"] if "cfg" in rs[k] else rs[k]),
                    {"file": texts[k], "parser": rs[k], "specified": [text_of(h) for h in want["headers"]]})
    # 2. headers in the generated modules, whose code must compile with the imported types
    cs = []
    for c in list(shapes().values()) + from_simulation(run, 150 if run.quick else 1200, 12):
        extra = rng.sample(GOOD_HEADERS, rng.choice([0, 1, 2, 3]))
        hs = [h for x in extra for h in x] + list(c["headers"])
        again = ["}", "// again"]
        if rng.random() < 0.3:      # lines that recur
            hs = ["fn aid_one() {", "}", "// again"] + hs + ["// again", "fn aid_two() {", "}"]
        cs.append({"headers": [h for k, h in enumerate(hs) if h in again or h not in hs[:k]], "nodes": c["nodes"]})
    co = Corpus(run, cs, api=True)
    usable(run, co)
    judge_api(run, co)
    run.assumptions = ["lines of white space in front of the root line are left out", "header texts of generated modules are valid Rust items or comments"]
    return run.finish()


GOOD_HEADERS = [["use std::collections::BTreeSet;"], ["use std::{", "    io::Read as _,", "    cmp::Ordering as Cmp,", "};"],
                ["// a comment"], ["/// documented", "pub const TWO: u8 = 2;"], ["/* over", "   three", "   lines */"],
                ["pub type Shorthand = u8;"], ["#[derive(Debug)]", "pub struct Marker;"],
                ["const SLASH: &str = \"/\";"], ["macro_rules! nothing { () => {} }"], ["pub fn help_two() -> u8 { 1 } // end"],
                ["const BRACES: &str = \"{} {{}} {0}\";"], ["const TAB: &str = \"a\tb\";\t// tab"],
                ["const LONG: &str = \"%s\"; // %s" % ("long {{}} " * 30, "and longer " * 20)],
                ["const BACK: &str = \"\\\\n \\t\";"]]

CHECKS = {"C09": c09, "C10": c10, "C19": c19, "C20": c20}
