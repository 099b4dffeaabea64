"""C16: macros, structs and files; generation as a function."""
from ..router import *
from ..files import assemble, write, loose, NAMES

RUST_NAME = re.compile(r"^[A-Za-z][A-Za-z0-9_]*$|^_[A-Za-z0-9_]+$|^caf\u00e9$|^\u65e5$")

# a macro takes a type as Rust does, and these are none
KEYWORDS = set("""as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return
static struct super trait true type unsafe use where while async await abstract become box do final macro override priv typeof
unsized virtual yield try""".split())

MAIN_RS = r'''
#[macro_use] extern crate wayfinder;
use wayfinder::*;
fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"'); o
}
fn list(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }
fn p(x: &Param) -> String { format!("{{\"name\":{},\"typ\":{}}}", q(&x.name), q(&x.typ)) }
fn r(x: &Resource) -> String {
    format!("{{\"method\":{},\"mods\":{},\"name\":{},\"redirect\":{},\"query\":{}}}", q(&x.method.to_string()),
        list(x.modules.iter().map(|m| q(m)).collect()), q(&x.name), x.is_redirect, list(x.query_parameters.iter().map(p).collect()))
}
fn rs(x: &Routes, parent: usize, seg: String, out: &mut Vec<String>) {
    out.push(format!("{{\"parent\":{},\"seg\":{},\"query\":{},\"res\":{}}}", parent, seg,
        list(x.query_parameters.iter().map(p).collect()), list(x.resources.iter().map(r).collect())));
    let me = out.len();
    for n in x.routes.iter() {
        let seg = match &n.path_segment {
            PathSegment::Static(t) => format!("{{\"k\":\"static\",\"text\":{},\"name\":\"\",\"typ\":\"\"}}", q(t)),
            PathSegment::Dynamic(x) => format!("{{\"k\":\"dyn\",\"text\":\"\",\"name\":{},\"typ\":{}}}", q(&x.name), q(&x.typ)),
        };
        rs(&n.routes, me, seg, out);
    }
}
fn c(x: &RouteConfig) -> String {
    let mut ns = vec![];
    rs(&x.routes, 0, "{\"k\":\"root\",\"text\":\"\",\"name\":\"\",\"typ\":\"\"}".to_string(), &mut ns);
    format!("{{\"headers\":{},\"nodes\":{}}}", list(x.headers.iter().map(|h| q(&h.text)).collect()), list(ns))
}
fn tell(k: usize, a: RouteConfig, b: RouteConfig, text: &str) {
    let (t, same) = match parse::route_config(text) {
        Ok((_, t)) => (c(&t), a == b && b == t),
        Err(_) => ("{\"headers\":[\"unparsable\"],\"nodes\":[]}".to_string(), false),
    };
    println!("{{\"k\":{},\"macro\":{},\"struct\":{},\"text\":{},\"equal\":{}}}", k, c(&a), c(&b), t, same);
}
fn alone(k: usize, a: Resource, b: Resource, text: &str) {
    tell(k, RouteConfig { headers: vec![], routes: Routes { resources: vec![a], ..Routes::default() } },
            RouteConfig { headers: vec![], routes: Routes { resources: vec![b], ..Routes::default() } }, text)
}
'''

USES = ["use uuid::Uuid;", "use a::b::c::D;", "use a::B as C;", "use a::*;", "use a::{B, C};", "pub use a::b;", "extern crate foo;",
        "use a::b::{self, C, d::E};", "use crate::x::Y;", "use self::z;", "use super::w as v;", "type Id = u8;", "const N: u8 = 3;",
        "use ::std::fmt;"]


def spell_tlc(run, data, mode, names=3, query=2):
    f = os.path.join(run.work, "spell-%s.json" % mode)
    with open(f, "w") as fh:
        json.dump(data, fh)
    return tlc_ok(run, "Spellings", 'INIT InitW\nNEXT NextW\nCHECK_DEADLOCK FALSE\nCONSTANT File = "%s"\nCONSTANT Mode = "%s"\n'
                  'CONSTANT MaxNames = %d\nCONSTANT MaxQuery = %d\n' % (f, mode, names, query),
                  workers=1, timeout=850, heap="6g")


def rust_str(s):
    return '"%s"' % "".join(c if c.isalnum() or c in " _-:,{}[]/;*()<>=" else "\\u{%x}" % ord(c) for c in s)


def c16(run):
    rng = run.rng
    decs = sorted(spell_tlc(run, {"configs": []}, "res", 3 if run.quick else 4, 2 if run.quick else 3).tagged("DEC"), key=digest)
    run.coverage["resource_declarations_enumerated"] = len(decs)
    if len(decs) > (2600 if run.quick else 20000):
        decs = rng.sample(decs, 2600 if run.quick else 20000)
    # whole configurations
    cs = list(shapes().values()) + from_simulation(run, 80 if run.quick else 500, 9)
    for _ in range(400 if run.quick else 2000):
        c = loose(rng, rng.choice([1, 3, 6]))
        names = [x for n in c["nodes"] for x in [n["seg"]["name"], n["seg"]["typ"]] + [v for q in n["query"] for v in (q["name"], q["typ"])]
                 + [v for r in n["res"] for v in r["mods"] + [r["name"]] + [w for q in r["query"] for w in (q["name"], q["typ"])]] if x]
        typs = {s["typ"] for n in c["nodes"] for s in [n["seg"]] + n["query"] + [q for r in n["res"] for q in r["query"]]}
        if all(RUST_NAME.match(x) for x in names) and not typs & KEYWORDS:
            c["headers"] = []
            cs.append(c)
    # names the macros cannot take as they are
    cs = [c for c in cs if all(n["seg"]["k"] != "static" or re.match(r"^\w+$", n["seg"]["text"]) for n in c["nodes"])]
    whole = []
    for c in cs:
        heads = rng.sample(USES, rng.choice([0, 1, 2, 4]))
        if any('"' in h or "//" in h or "/*" in h for h in c["headers"]) or rng.random() < 0.7:
            c = {"headers": heads, "nodes": c["nodes"]}
            heads = True
        else:
            heads = False
        whole.append({"cfg": c, "heads": heads})
    texts = {w["k"] - 1: w for w in spell_tlc(run, {"configs": whole}, "cfg").tagged("WHO")}
    calls, want = [], []
    for d in decs:
        k = len(want)
        calls.append("alone(%d, %s, %s, %s);" % (k, d["mac"], d["str"], rust_text(["/"] + d["lines"])))
        want.append(cfg([root([d["res"]])]))
    for j, w in enumerate(whole):
        k = len(want)
        calls.append("tell(%d, %s, %s, %s);" % (k, texts[j]["mac"], texts[j]["str"], rust_text(write(w["cfg"]))))
        want.append(w["cfg"])
    d = os.path.join(run.work, "spell")
    os.makedirs(d + "/src")
    shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), d)
    with open(d + "/Cargo.toml", "w") as f:
        f.write('[package]\nname = "spell"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\nwayfinder = { path = "%s/wayfinder" }\n'
                '[workspace]\n[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n' % REPO)
    # a few calls per function, or rustc is slow
    with open(d + "/src/main.rs", "w") as f:
        f.write("#![recursion_limit = \"1024\"]\n#![allow(warnings)]\n" + MAIN_RS)
        n = 20
        for k in range(0, len(calls), n):
            f.write("fn f%d() { %s }\n" % (k // n, "\n".join(calls[k:k + n])))
        f.write("fn main() { %s }\n" % " ".join("f%d();" % (k // n) for k in range(0, len(calls), n)))
    run.note("%d declarations, %d configurations" % (len(decs), len(whole)))
    p = sh(["cargo", "build", "--offline", "--quiet"], cwd=d, env=env(CARGO_TARGET_DIR=os.path.join(d, "target")), timeout=800, check=False)
    got = []
    if p.returncode != 0:
        err = p.stderr.decode(errors="replace")
        if "could not compile `spell`" not in err:
            raise ToolError("cargo: " + err[-2000:])
        errors = [b for b in err.split("\n\n") if b.startswith("error")]
        run.violate("macros do not compile: " + (errors or [err])[0].split("\n")[0], {"rustc": "\n\n".join(errors)[:6000] or err[-4000:]})
    else:
        q = sh([os.path.join(d, "target", "debug", "spell")], check=False, timeout=120)
        got = [json.loads(l) for l in q.stdout.decode().split("\n") if l]
        if len(got) != len(calls):
            run.violate("a macro panics", {"call": calls[len(got)], "stderr": q.stderr.decode()[-500:]})
    events = [dict(a="value", want=want[g["k"]], macro=g["macro"], struct=g["struct"], text=g["text"], equal=g["equal"], k=g["k"]) for g in got]
    # generation in several processes, elsewhere and with another environment
    many = [c for c in list(shapes().values()) + from_simulation(run, 120 if run.quick else 800, 16)]
    many += [from_text(["/", []] + [["s%d" % k, ["GET M%d::N%d::A%d" % (k % 5, k % 3, k), "PUT M%d::B%d" % (k % 4, k)]] for k in range(j)])
             for j in (2, 5, 9, 30)]
    # names equal under one normalisation or another (case, length, prefix, suffix, ends)
    alike = ["signUp", "signup", "siGnup", "sIgnUp", "signUq", "signVp", "tignUp", "s1gnUp", "signUp2", "signUp_2x", "UsignUp", "Signs", "signs2", "x_1", "x_2", "signUpPageOne", "signUpPageTwo",
             "signUpPageOneOfTwo", "signUpPageOneOfThree", "a" * 40 + "b", "a" * 40 + "c"]
    for mods in ("", "M::", "A::B::"):
        t = ["/", []]
        for k, n in enumerate(alike):
            t.append(["s%d" % k, ["%s %s%s" % (["GET", "POST", "PUT", "DELETE"][k % 4], mods, n)]])
        many.append(from_text(t))
    many.append(from_text(["/", []] + [["s%d" % k, ["GET %s::Show" % n, "PUT Top::%s::Show" % n]] for k, n in enumerate(alike)]))
    outs = []
    for proc in range(6 if run.quick else 24):
        gd = os.path.join(run.work, "p%d" % proc)
        os.makedirs(gd)
        order = list(range(len(many)))
        if proc % 2:
            order.reverse()
        items = [{"id": "g%d" % k, "cfg": many[k]} for k in order]
        q = sh([harness(), "gen", gd], inp="\n".join(map(json.dumps, items)).encode(), cwd=gd if proc % 3 else "/",
               env=env(TZ="UTC%+d" % proc, LANG="C" if proc % 2 else "de_DE.UTF-8", SOURCE_DATE_EPOCH=str(proc), USER="u%d" % proc))
        for l in q.stdout.decode().split("\n"):
            if l:
                g = json.loads(l)
                if g["kind"] == "Ok":
                    with open(g["file"], "rb") as fh:
                        out = hashlib.sha256(fh.read()).hexdigest()
                    if not g["same"]:
                        out += " and something else"
                else:
                    out = g["kind"]
                outs.append({"a": "generate", "c": int(g["id"][1:]), "out": out, "process": proc})
    bad = sum(e["out"] in ("Err", "Panic") for e in outs)
    events += outs
    for m in trace_parts(run, events):
        e = events[m]
        if e["a"] == "value":
            run.violate("the spellings disagree: %s" % json.dumps({k: e[k]["nodes"][-1:] for k in ("want", "macro", "struct", "text")})[:300],
                        {"call": calls[e["k"]], "meaning": e["want"], "macro": e["macro"], "struct": e["struct"], "file": e["text"],
                         "equal_in_rust": e["equal"]})
        else:
            run.violate("generated code differs between runs", {"config": many[e["c"]], "process": e["process"], "route_file": outline(many[e["c"]])})
    same = [e for e in outs if "something else" in e["out"]]
    for e in same[:5]:
        run.violate("generated code differs within one process", {"config": many[e["c"]], "route_file": outline(many[e["c"]])})
    run.validated += len(events)
    run.coverage.update(values_compared=len(got), whole_configurations=len(whole), generations=len(outs), generations_refused=bad)
    for k in rng.sample(range(len(calls)), 3):
        run.sample({"call": calls[k][:900]})
    run.assumptions = ["names and types that are single Rust identifiers, headers in rustc's own spacing: what both notations can spell"]
    return run.finish()


def rust_text(lines):
    return '"' + "".join(l.replace("\\", "\\\\").replace('"', '\\"') + "\\n" for l in lines) + '"'


def trace_parts(run, events):
    """Events about one configuration stay together and in order."""
    groups = {}
    for k, e in enumerate(events):
        groups.setdefault(("v", k % JOBS) if e["a"] == "value" else ("g", e["c"] % JOBS), []).append(k)
    bins = [[] for _ in range(JOBS)]
    for g, ks in groups.items():
        bins[g[1]] += ks
    bins = [b for b in bins if b]

    def one(b):
        f = os.path.join(run.work, "spell-ev-%d.json" % b[0])
        with open(f, "w") as fh:
            json.dump({"events": [{k: v for k, v in events[x].items() if k not in ("k", "process")} for x in b]}, fh)
        r = tlc_ok(run, "Spellings", 'INIT InitW\nNEXT NextW\nCHECK_DEADLOCK FALSE\nCONSTANT File = "%s"\nCONSTANT Mode = "trace"\n'
                   'CONSTANT MaxNames = 0\nCONSTANT MaxQuery = 0\n' % f, workers=1, timeout=850, count=False)
        return r, [b[m["k"] - 1] for m in r.tagged("MIS")]

    out = []
    with ThreadPoolExecutor(JOBS) as ex:
        for r, m in ex.map(one, bins):
            run.states += r.distinct
            run.transitions += r.generated
            out += m
    return sorted(out)


CHECKS = {"C16": c16}
