"""Replays requests against real generated matchers and has TLC judge them."""
import os, string
from concurrent.futures import ThreadPoolExecutor
from .common import *
from .configs import *

RT = r'''
use std::fmt::Display;
pub use uuid::Uuid;
pub use std::net::Ipv4Addr;
pub type Text = String;
pub type Small = u8;
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2 + 1);
    s.push('x');
    for c in b { s.push_str(&format!("{:02x}", c)); }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.as_bytes();
    let d = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    s[1..].chunks(2).map(|p| d(p[0]) * 16 + d(p[1])).collect()
}
pub fn stretch(b: &[u8], k: usize) -> Vec<u8> {
    let (short, mut out, mut i) = (b"wXqXw", vec![], 0);
    while i < b.len() {
        if b[i..].starts_with(short) {
            out.extend_from_slice(b"wX");
            out.extend(std::iter::repeat(b'q').take(k - 4));
            out.extend_from_slice(b"Xw");
            i += short.len();
        } else { out.push(b[i]); i += 1; }
    }
    out
}
pub fn par<T: Display>(o: &mut String, name: &str, v: &T) {
    o.push_str(&format!("|.{}={}", name, hex(v.to_string().as_bytes())));
}
pub fn tp(o: &mut String, ps: &[String]) {
    let same = ps.iter().all(|p| p == &ps[0]);
    o.push_str(&format!("|@={}|~={}", hex(ps[0].as_bytes()), if same { "x01" } else { "x00" }));
}
pub fn qn(o: &mut String, none: bool) {
    if !none { o.push_str("|?=x") }
}
'''


def rust_action(c, i, n, r):
    """(pattern of the enum chain, struct path, fields) of one served place."""
    rs = c["nodes"][n - 1]["res"][r]
    mods = rs["mods"]
    prefix = "routes"
    wraps = []
    for m in mods:
        wraps.append("%s::Route::%s" % (prefix, caps(m)))
        prefix += "::" + snake(m)
    wraps.append("%s::Route::%s" % (prefix, caps(rs["name"])))
    return wraps, "%s::%s" % (prefix, caps(rs["name"]))


def driver(c, i, codefile):
    out = ["mod m%d {" % i, 'include!("%s");' % codefile, "use super::rt::*;"]
    arms, mks = [], []
    acts = serving(c)
    for a, (n, r) in enumerate(acts):
        wraps, sp = rust_action(c, i, n, r)
        pp, qp = path_params(c, n), query_params(c, n, r)
        pat = "s"
        for k in range(len(wraps) - 1, -1, -1):
            pat = "%s(%s)" % (wraps[k], pat)
            if k > 0:
                pat = "e%d @ %s" % (k, pat)
        fields = [p["name"] for p in pp] + [q["name"] for q in qp]
        arm = "%s => { let s: &%s = s; o.push_str(\"|a=%d\");" % (pat, sp, a)
        arm += "let %s { %s } = s;" % (sp, ", ".join("%s: f%d" % (f, k) for k, f in enumerate(fields)))
        for k, p in enumerate(pp):
            arm += "let f: &%s = f%d; par(o, \"%s\", f);" % (p["typ"], k, p["name"])
        for k, q in enumerate(qp):
            arm += "let f: &Option<%s> = f%d; qn(o, f.is_none());" % (q["typ"], len(pp) + k)
        arm += "tp(o, &[s.to_path(), r.to_path()%s]); }" % "".join(
            ", e%d.to_path()" % k for k in range(1, len(wraps)))
        arms.append(arm)
        lit = "%s { %s }" % (sp, ", ".join(
            ["%s: t[%d].parse::<%s>().unwrap()" % (p["name"], k, p["typ"]) for k, p in enumerate(pp)] +
            ["%s: if q { Some(\"%s\".parse::<%s>().unwrap()) } else { None }" % (
                q["name"], SOME[q["typ"]], q["typ"]) for q in qp]))
        for w in reversed(wraps):
            lit = "%s(%s)" % (w, lit)
        mks.append("%d => %s," % (a, lit))
    out.append("fn show(r: &routes::Route, o: &mut String) { match r { %s } }" % "\n".join(arms))
    out.append("fn mk(a: usize, t: &[&str], q: bool) -> routes::Route { match a { %s _ => panic!() } }" % "\n".join(mks))
    out.append('''
    fn tell(x: Result<routes::Match<routes::Route>, routes::Error>) -> String {
        match x {
            Ok(routes::Match::NotFound) => "N".to_string(),
            Ok(routes::Match::NotAllowed) => "A".to_string(),
            Ok(routes::Match::Route(r)) => { let mut o = "R".to_string(); show(&r, &mut o); o }
            Ok(routes::Match::Redirect(r)) => { let mut o = "D".to_string(); show(&r, &mut o); o }
            Err(e) => format!("E|e={}|g={}", hex(e.to_string().as_bytes()), hex(format!("{:?}", e).as_bytes())),
        }
    }
    pub fn answer(p: &[u8], m: &[u8]) -> String { tell(routes::match_route(p, m)) }
    pub fn value(a: usize, t: &[&str], m: &[u8]) -> String {
        let v = mk(a, t, true);
        let mut own = String::new();
        show(&v, &mut own);
        let p = v.to_path();
        let mut o = answer(p.as_bytes(), m);
        let eq = match routes::match_route(&p, m) {
            Ok(routes::Match::Route(x)) => x == mk(a, t, false),
            _ => false,
        };
        o.push_str(if eq { "|$=x01" } else { "|$=x00" });
        o.push('!');
        o.push_str(&own);
        o
    }
}''')
    return "\n".join(out)


SOME = {"String": "q", "Text": "q", "u8": "7", "Small": "7", "u16": "7", "u64": "7", "usize": "7", "i8": "-7", "bool": "true",
        "char": "c", "Uuid": "0a0b", "u32": "7", "u128": "7", "i16": "-7", "i32": "-7", "i64": "-7", "isize": "-7", "i128": "-7",
        "Ipv4Addr": "10.0.0.7"}

MAIN = r'''
use std::io::{BufRead, Write};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let skip: usize = args[2].parse().unwrap();
    let f = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::io::stdout();
    for line in f.lines().skip(skip) {
        let line = line.unwrap();
        let w: Vec<&str> = line.split(' ').collect();
        let r = std::panic::catch_unwind(|| {
            let c: usize = w[0].parse().unwrap();
            if w[1] == "M" {
                let (mut p, mut m) = (rt::unhex(w[2]), rt::unhex(w[3]));
                if w[4] == "-" { match c { %(answer)s _ => panic!() } } else {
                    let k: usize = w[4].parse().unwrap();
                    p = rt::stretch(&p, k);
                    m = rt::stretch(&m, k);
                    let o = match c { %(answer)s _ => panic!() };
                    o.replace(&rt::hex(&rt::stretch(b"wXqXw", k))[1..], &rt::hex(b"wXqXw")[1..])
                }
            } else {
                let a: usize = w[2].parse().unwrap();
                let m = rt::unhex(w[3]);
                let ts: Vec<String> = if w[4] == "-" { vec![] } else {
                    w[4].split(',').map(|t| String::from_utf8(rt::unhex(t)).unwrap()).collect() };
                let ts: Vec<&str> = ts.iter().map(|t| t.as_str()).collect();
                match c { %(value)s _ => panic!() }
            }
        });
        let line = match r { Ok(s) => s, Err(_) => "P".to_string() };
        out.write_all(line.as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
    }
}
'''


def uuid_stub(run):
    d = os.path.join(run.work, "lib")
    lib = os.path.join(d, "libuuid.rlib")
    if not os.path.exists(lib):
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, "uuid.rs")
        with open(src, "w") as f:
            f.write('''//! Stand-in for the uuid crate: four lower-case hexadecimal digits.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Uuid(u16);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError(String);
impl std::str::FromStr for Uuid {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Uuid, ParseError> {
        if s.len() == 4 && s.bytes().all(|b| (b >= b'0' && b <= b'9') || (b >= b'a' && b <= b'f')) {
            Ok(Uuid(u16::from_str_radix(s, 16).unwrap()))
        } else { Err(ParseError(s.to_string())) }
    }
}
impl std::fmt::Display for Uuid {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:04x}", self.0) }
}
''')
        sh(["rustc", "--edition", "2018", "--crate-type", "rlib", "--crate-name", "uuid", src, "-o", lib])
    return lib


def rustc(run, src, out):
    return sh(["rustc", "--edition", "2018", "--cap-lints", "allow", "-C", "debuginfo=0", "-C", "opt-level=0",
               "-C", "codegen-units=4", "--crate-name", "t", "--extern", "uuid=" + uuid_stub(run), src, "-o", out],
              check=False, timeout=600)


class Corpus:
    """Generated, compiled matchers of a list of configurations."""

    def __init__(self, run, configs, api=False, chunk=None):
        self.run, self.configs = run, configs
        self.dir = os.path.join(run.work, "gen")
        os.makedirs(self.dir, exist_ok=True)
        uuid_stub(run)
        run.note("generating %d configurations" % len(configs))
        self.gen = wfh("gen", [{"id": "c%d" % i, "cfg": c, "api": api} for i, c in enumerate(configs)], [self.dir])
        self.broken = {}
        self.exe = {}
        good = []
        for i, g in enumerate(self.gen):
            if g["kind"] == "BadInput":
                raise ToolError("configuration not understood: %s" % g)
            if g["kind"] != "Ok":
                self.broken[i] = "code generation: %s %s" % (g["kind"], g.get("msg", ""))
            else:
                good.append(i)
        # chunks of roughly equal size
        good.sort(key=lambda i: -len(configs[i]["nodes"]))
        n = max(JOBS, len(good) // 14 + 1)
        chunks = [good[k::n] for k in range(n)]
        chunks = [c for c in chunks if c]
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(self.compile, chunks))
        run.note("compiled; %d not usable" % len(self.broken))
        run.count("programs", len(good))

    def compile(self, ids):
        name = "d%d_%d" % (ids[0], len(ids))
        src = os.path.join(self.dir, name + ".rs")
        with open(src, "w") as f:
            f.write("mod rt {%s}\n" % RT)
            for i in ids:
                f.write(driver(self.configs[i], i, self.gen[i]["file"]) + "\n")
            f.write(MAIN % {
                "answer": " ".join("%d => m%d::answer(&p, &m)," % (i, i) for i in ids),
                "value": " ".join("%d => m%d::value(a, &ts, &m)," % (i, i) for i in ids)})
        exe = os.path.join(self.dir, name)
        p = rustc(self.run, src, exe)
        if p.returncode == 0:
            for i in ids:
                self.exe[i] = exe
        elif len(ids) == 1:
            err = p.stderr.decode(errors="replace")
            if "error" not in err:
                raise ToolError("rustc: " + err[-1500:])
            self.broken[ids[0]] = "does not compile: " + "\n".join(
                l for l in err.splitlines() if not l.startswith("warning"))[:1500]
        else:
            h = len(ids) // 2
            self.compile(ids[:h])
            self.compile(ids[h:])

    # ------------------------------------------------------------------
    def ask(self, reqs):
        """reqs: [{'c': i, 'p': bytes, 'm': bytes}] or [{'c', 'a', 'm', 'texts'}]; fills r['raw'].
        With 'wide': k, every WIDE in path and method is sent k bytes long, and such a run in the
        answer is read as WIDE again; no configuration has WIDE in its text, so that the
        specification's answer to the short request is its answer to the long one."""
        by = {}
        for k, r in enumerate(reqs):
            if r["c"] in self.exe:
                by.setdefault(self.exe[r["c"]], []).append(k)
            else:
                r["raw"] = None

        def one(item):
            exe, ks = item
            f = exe + ".req"
            with open(f, "w") as fh:
                for k in ks:
                    r = reqs[k]
                    if "a" in r:
                        fh.write("%d V %d x%s %s\n" % (r["c"], r["a"], r["m"].hex(),
                                 ",".join("x" + t.hex() for t in r["texts"]) or "-"))
                    else:
                        fh.write("%d M x%s x%s %s\n" % (r["c"], r["p"].hex(), r["m"].hex(), r.get("wide", "-")))
            done, hangs = 0, 0
            while done < len(ks):
                p = subprocess.Popen([exe, f, str(done)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                try:
                    out, _ = p.communicate(timeout=40 if hangs == 0 else 10)
                    hung = False
                except subprocess.TimeoutExpired:
                    p.kill()
                    out, _ = p.communicate()
                    hung = True
                lines = out.decode().split("\n")[:-1]
                for l in lines:
                    reqs[ks[done]]["raw"] = l
                    done += 1
                if done < len(ks):
                    # it stopped in the middle of this request
                    reqs[ks[done]]["raw"] = "H" if hung else "P"
                    done += 1
                    hangs += 1
                    if hangs > 6:
                        for k in ks[done:]:
                            reqs[k]["raw"] = None
                        break

        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, by.items()))
        for r in reqs:
            if r["raw"] is not None:
                r["obs"] = self.decode(r)
        return reqs

    def decode(self, r):
        raw = r["raw"]
        own = None
        if "!" in raw:
            raw, own = raw.split("!")
        o = {"kind": {"N": "NotFound", "A": "NotAllowed", "R": "Route", "D": "Redirect", "E": "Err",
                      "P": "Panic", "H": "Hang"}[raw[0]],
             "mods": [], "name": "", "err": "", "params": [], "none": True, "tp": [], "tpsame": True, "eq": False}
        c = self.configs[r["c"]]
        if "wide" in r and len(raw) > 5000:
            raw = raw.split("|")[0] + "|.?=x3f"      # a long value other than the one given

        def fields(s):
            return [(x.split("=")[0], x.split("=")[1]) for x in s.split("|")[1:]]

        for k, v in fields(raw):
            if k == "a":
                n, q = serving(c)[int(v)]
                rs = c["nodes"][n - 1]["res"][q]
                o["mods"], o["name"] = rs["mods"], rs["name"]
            elif k == "e":
                text = bytes.fromhex(v[1:]).decode()
                m = re.search(r"'([^']*)'", text)
                o["err"] = m.group(1) if m else text
            elif k == "g":
                # the other rendering has to name the same parameter
                text = bytes.fromhex(v[1:]).decode()
                m = re.search(r'param: "([^"]*)"', text)
                if m and m.group(1) != o["err"]:
                    o["err"] = o["err"] + " / " + m.group(1)
            elif k == "?":
                o["none"] = False
            elif k == "@":
                o["tp"] = list(bytes.fromhex(v[1:]))
            elif k == "~":
                o["tpsame"] = v == "x01"
            elif k == "$":
                o["eq"] = v == "x01"
            else:
                o["params"].append({"name": k[1:], "val": list(bytes.fromhex(v[1:]))})
        if own is not None:
            o["given"] = []
            o["params_given"] = []
            for k, v in fields(own):
                if k == "@":
                    o["tp"] = list(bytes.fromhex(v[1:]))
                elif k == "~":
                    o["tpsame"] = v == "x01"
                elif k not in "a?":
                    o["given"].append({"name": k[1:], "val": list(bytes.fromhex(v[1:]))})
        return o


# ----------------------------------------------------------------------
# Requests
GOOD = {
    "String": ["x", "hello", "a b", "%20", "\u00fcn\u00efcode", "0", "..", "-", "q?a=1", "7", "A", "ab", "y" * 300, "\u65e5\u672c",
               " x", "x ", " ", "\tx", "x\n", "\r\n", "+x", "a+b", "%2F", "%", "a=b&c", "#x", "\u00a0x", "x\u2003", "\ufeffx", "'x'", '"x"',
               "{x}", "\\", "\\n", "x\0", "Hello World", "\u0130", "a\u0301", ".x", "x.", "~", "*", ";v=1", "x,y", "null", "None"],
    "bool": ["true", "false"],
    "char": ["x", "\u00e9", "7", "\u65e5", "-", " ", "+", "%", "\n", "\U0001f600"],
    "Uuid": ["00ff", "abcd", "1234", "0000"],
    "Ipv4Addr": ["127.0.0.1", "0.0.0.0", "255.255.255.255", "1.20.99.100"],
}
BAD = {
    "String": [],
    "bool": ["True", "TRUE", "1", "tru", "truee", "yes", " true", "true ", "false\n", "0", "t"],
    "char": ["ab", "xyz", "e\u0301", "  ", " x", "x ", "\u65e5\u672c", "%20"],
    "Uuid": ["00FF", "abc", "abcde", "zzzz", "+123", " 123", "123 "],
    "Ipv4Addr": ["1.2.3", "1.2.3.4.5", "256.1.1.1", "01.2.3.4", "1.2.3.4 ", " 1.2.3.4", "1..2.3", "1.2.3.", ".1.2.3", "localhost", "::1", "1.2.3.4:80",
                 "1,2,3,4", "1.2.3.x", "1.2.3.0255"],
}


def _int(typ, low, high):
    n, p = str(low), str(high)
    GOOD[typ] = ["0", "7", p, "+5", "007", "42", str(high - 1), "+0", "0" * 45 + "7", "+" + p]
    BAD[typ] = [str(high + 1), str(low - 1), "x", "1a", "9" * 50, "1.0", " 1", "+", "-", "0x1", "1 ", "\u0663", "++5", "+ 5", "+-5", "-+5", "--5",
                "5\n", "\t5", "5,0", "1_0", "5" + typ, "1e3", "5+", "- 5", "#5", "%35", "\u00a05", "\uff15", p + "0"]
    if low < 0:
        GOOD[typ] += [n, "-1", "-0", "-007", str(low + 1), "-42"]
    else:
        BAD[typ] += ["-0", "-5"]


for _t, _b in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("128", 128), ("size", 64)):
    _int("u" + _t, 0, 2 ** _b - 1)
    _int("i" + _t, -2 ** (_b - 1), 2 ** (_b - 1) - 1)
for _d in (GOOD, BAD):
    _d["Text"], _d["Small"] = _d["String"], _d["u8"]
# stands for a very long run of bytes in a request (see Corpus.ask)
WIDE = b"wXqXw"
STD = [b"GET", b"POST", b"PUT", b"DELETE"]
ODD = [b"get", b"HEAD", b"", b"GETX", b"GE", b"OPTIONS", b"PATCH", b"Get", b" GET", b"GET ", b"DELET", b"\xff\xfe",
       b"GET\0", b"POS", b"PUTS"]


def spell(c, n, rng, bad_at=None):
    """The segments of a path to block n as byte strings; bad_at: this parameter gets an ill-formed value."""
    out, d = [], 0
    for s in segs(c, n):
        if s["k"] == "static":
            out.append(s["text"].encode())
        else:
            pool = GOOD[s["typ"]]
            if bad_at == d:
                pool = BAD[s["typ"]] or pool
            elif s["typ"] in ("String", "Text") and rng.random() < 0.3:
                pool = [some_text(rng)]
            out.append(rng.choice(pool).encode())
            d += 1
    return out


def some_text(rng):
    """A short text of any characters but the slash."""
    chars = [chr(x) for x in range(32, 127) if x != 47] + ["\t", "\0", "\u00e9", "\u03bb", "\u65e5", "\U0001f600", "\u00a0"]
    return "".join(rng.choice(chars) for _ in range(rng.choice([1, 1, 2, 3, 5])))


def join(ss):
    return b"/" + b"/".join(ss)


def requests_for(c, i, rng, budget, raw=False):
    reqs, seen = [], set()

    def add(p, m, why):
        key = (p, m)
        if key not in seen:
            seen.add(key)
            reqs.append({"c": i, "p": p, "m": m, "why": why})
            return len(reqs) - 1
        return None

    nodes = list(range(1, len(c["nodes"]) + 1))
    texts = sorted({n["seg"]["text"] for n in c["nodes"] if n["seg"]["k"] == "static"})
    alphabet = "".join(sorted(set("".join(texts)))) or "ab"

    def methods_of(n):
        return [r["method"].encode() for r in c["nodes"][n - 1]["res"]]

    def some_method(n):
        own = methods_of(n)
        x = rng.random()
        if own and x < 0.75:
            return rng.choice(own)
        return rng.choice(STD) if x < 0.9 or not own and x < 0.97 else rng.choice(ODD)

    # 1. every declared place, every standard method there
    for n in nodes:
        ss = spell(c, n, rng)
        for m in methods_of(n):
            add(join(ss), m, "declared")
        others = [m for m in STD if m not in methods_of(n)]
        if others:
            add(join(ss), rng.choice(others), "other method")
        if c["nodes"][n - 1]["res"]:
            add(join(ss), rng.choice(ODD), "odd method")
    # 2. statics and parameters mixed up at every block
    mixes = []
    for n in nodes:
        ks = kids(c, n)
        stat = [c["nodes"][k - 1]["seg"]["text"] for k in ks if c["nodes"][k - 1]["seg"]["k"] == "static"]
        dyn = [k for k in ks if c["nodes"][k - 1]["seg"]["k"] == "dyn"]
        base = spell(c, n, rng)
        for t in stat:
            for v in sorted({t + "x", t[:-1], t + t, t.upper(), t.lower(), t.swapcase(), t[1:], "x" + t, t + "/", "/" + t,
                      t + rng.choice(alphabet), t[:len(t) // 2], t + "%20", t + " ", t + rng.choice(texts)}):
                mixes.append((base + [v.encode()], n, rng.choice(ks)))
            # what is declared below the parameter, under the static name
            for k in dyn:
                below = [b for b in nodes if k in path_nodes(c, b)]
                b = rng.choice(below)
                tail = spell(c, b, rng)[len(base) + 1:]
                mixes.append((base + [t.encode()] + tail, n, b))
                mixes.append((base + [(t + rng.choice(alphabet)).encode()] + tail, n, b))
            # and what is declared below the static, under another name
            for k in ks:
                if c["nodes"][k - 1]["seg"]["text"] == t:
                    below = [b for b in nodes if k in path_nodes(c, b)]
                    b = rng.choice(below)
                    tail = spell(c, b, rng)[len(base) + 1:]
                    other = rng.choice(texts + ["7", "x"])
                    mixes.append((base + [other.encode()] + tail, n, b))
        for k in dyn:
            typ = c["nodes"][k - 1]["seg"]["typ"]
            below = [b for b in nodes if k in path_nodes(c, b)]
            for v in rng.sample(BAD[typ], min(3, len(BAD[typ]))) + rng.sample(GOOD[typ], min(2, len(GOOD[typ]))) + [""]:
                b = rng.choice(below)
                tail = spell(c, b, rng)[len(base) + 1:]
                mixes.append((base + [v.encode()] + tail, n, b))
                mixes.append((base + [v.encode()], n, k))
        if dyn == [] and rng.random() < 0.5:
            mixes.append((base + [rng.choice(["x", "7", "true", "00ff", rng.choice(texts or ["q"])]).encode()], n, n))
    rng.shuffle(mixes)
    # 3. slashes and edges
    edges = []
    for n in nodes:
        ss = spell(c, n, rng)
        p = join(ss)
        edges += [(p + b"/", n), (p[1:], n), (p[1:] + b"/", n), (p + b"//", n), (b"/" + p, n), (p[:-1], n),
                  (p + b"x", n), (p + b"/x", n), (p[: len(p) // 2], n), (p + b"?q=1", n), (p + b"/?", n), (p + b"///", n),
                  (p + b"\0", n), (p + b".", n), (p + b"/" + rng.choice(GOOD["String"]).encode(), n)]
        if ss:
            k = rng.randrange(len(ss))
            edges += [(join(ss[:k] + [b""] + ss[k:]), n), (join(ss[:k] + ss[k + 1:]), n),
                      (join(ss[:k] + [b""] + ss[k + 1:]), n), (join(ss + [ss[-1]]), n), (join(ss[::-1]), n)]
    for p in [b"", b"/", b"//", b"///", b"////", b"/ ", b" ", b"*", b"/.", b"/*"]:
        edges.append((p, rng.choice(nodes)))
    rng.shuffle(edges)
    # 4. noise over the alphabet of the configuration
    noise = []
    for _ in range(max(4, budget // 10)):
        k = rng.randrange(0, 6)
        ss = ["".join(rng.choice(alphabet + "x7/") for _ in range(rng.randrange(0, 5))) for _ in range(k)]
        noise.append(("/".join([""] + ss)).encode())
    for ss, n, b in mixes[:budget]:
        add(join(ss), some_method(b), "mix")
    for p, n in edges[:budget]:
        k = add(p, some_method(n), "edge")
    for p in noise:
        add(p, some_method(rng.choice(nodes)), "noise")
    # malformed values, several parameters
    for n in nodes:
        pp = path_params(c, n)
        if pp:
            for d in rng.sample(range(len(pp)), min(2, len(pp))):
                add(join(spell(c, n, rng, bad_at=d)), some_method(n), "malformed")
                add(join(spell(c, n, rng, bad_at=d)) + b"/zz", rng.choice(STD + ODD), "malformed")
    # 5. one byte of a declared path changed, left out, repeated, put in
    edits = []
    for n in rng.sample(nodes, min(12, len(nodes))):
        p = join(spell(c, n, rng))[:80]
        here = (["/", "_", "-"] + list(alphabet))
        for k in range(1, len(p)):
            b = p[k:k + 1]
            edits.append((p[:k] + b.swapcase() + p[k + 1:], n))
            edits.append((p[:k] + rng.choice([b"", b + b, rng.choice(here).encode(), bytes([rng.randrange(33, 127)])]) + p[k + 1:], n))
            if b in (b"_", b"-", b".", b"~"):
                edits += [(p[:k] + x + p[k + 1:], n) for x in (b"_", b"-", b".", b"~", b" ", b"")]
            if k == len(p) - 1:
                edits += [(p + x, n) for x in (b, b"?", b"#", b";", b"\0", b"%", rng.choice(here).encode())]
    rng.shuffle(edits)
    # the case of one letter where a static block is told from its siblings
    cases = []
    for n in nodes[1:]:
        t = c["nodes"][n - 1]["seg"]["text"]
        old = [c["nodes"][k - 1]["seg"]["text"] for k in kids(c, c["nodes"][n - 1]["parent"])]
        for k in (j for j in range(len(t)) if t[j].isalpha()):
            v = t[:k] + t[k].swapcase() + t[k + 1:]
            if v not in old:
                b = rng.choice([b for b in nodes if n in path_nodes(c, b)])
                ss = spell(c, b, rng)
                ss[len(path_nodes(c, n)) - 2] = v.encode()
                cases.append((join(ss), b, t[k].isupper()))
    rng.shuffle(cases)
    cases.sort(key=lambda x: not x[2])
    for p, n, _ in cases[:max(12, budget // 3)]:
        add(p, rng.choice(methods_of(n) or STD), "edit")
    for p, n in edits[:budget * 2 // 3]:
        add(p, some_method(n), "edit")
    head = [r for r in reqs if r["why"] in ("declared", "other method", "odd method")]
    rest = [r for r in reqs if r["why"] not in ("declared", "other method", "odd method", "edit")]
    more = [r for r in reqs if r["why"] == "edit"]
    if len(head) > budget * 2 // 3:
        head = rng.sample(head, budget * 2 // 3)
    if len(rest) > budget - len(head):
        rest = rng.sample(rest, budget - len(head))
    return head + rest + more


def values_for(c, i, rng, per=3):
    out = []
    for a, (n, r) in enumerate(serving(c)):
        rs = c["nodes"][n - 1]["res"][r]
        pp = path_params(c, n)
        for _ in range(per if pp else 1):
            texts = []
            stat = []
            ps = path_nodes(c, n)
            for m in ps[1:]:
                s = c["nodes"][m - 1]["seg"]
                if s["k"] != "dyn":
                    continue
                sib = [c["nodes"][k - 1]["seg"]["text"] for k in kids(c, c["nodes"][m - 1]["parent"])
                       if c["nodes"][k - 1]["seg"]["k"] == "static"]
                pool = GOOD[s["typ"]]
                if s["typ"] in ("String", "Text") and sib and rng.random() < 0.5:
                    t = rng.choice(sib)
                    pool = [t + "x", t[:-1] or "x", t, t + t, "x" + t]
                texts.append(rng.choice(pool).encode())
            out.append({"c": i, "a": a, "m": rs["method"].encode(), "texts": texts, "node": n, "res": r + 1})
    return out


# ----------------------------------------------------------------------
def judge(run, corpus, reqs, prop=None, deviations=("K1", "K2", "K3", "K4")):
    """TLC judges every answered request; returns (mismatches, deviations by tid)."""
    prop = prop or run.prop
    reqs = [r for r in reqs if r.get("obs")]
    for k, r in enumerate(reqs):
        r["tid"] = k
    used = sorted({r["c"] for r in reqs})
    parts = [used[k::JOBS] for k in range(JOBS)]
    parts = [p for p in parts if p]
    index = {id(r): r for r in reqs}

    def one(part):
        pos = {c: k + 1 for k, c in enumerate(part)}
        mine = [r for r in reqs if r["c"] in pos]
        where = {id(r): k + 1 for k, r in enumerate(mine)}
        rows = []
        for r in mine:
            o = dict(r["obs"])
            o.update(c=pos[r["c"]], m=list(r["m"]),
                     p=o["tp"] if "a" in r else list(r["p"]),
                     twin=where.get(id(r.get("twin")), 0) if r.get("twin") is not None else 0,
                     value="a" in r, node=r.get("node", 0), res=r.get("res", 0))
            o.setdefault("given", [])
            o.pop("params_given", None)
            rows.append(o)
        f = os.path.join(run.work, "trace-%d.json" % part[0])
        with open(f, "w") as fh:
            json.dump({"configs": [corpus.configs[c] for c in part], "reqs": rows,
                       "texts": [[list(n["seg"]["text"].encode()) for n in corpus.configs[c]["nodes"]]
                                 for c in part]}, fh)
        r = tlc(run, "MatchTrace",
                'INIT TInit\nNEXT TNext\nCONSTANT Configs <- TraceConfigs\nCONSTANT ViewOf <- TraceViewOf\n'
                'CONSTANT Deviations = {%s}\nCONSTANT File = "%s"\nCONSTANT Prop = "%s"\nCHECK_DEADLOCK TRUE\n'
                % (", ".join('"%s"' % d for d in deviations), f, prop), workers=1, timeout=850, count=False)
        if not os.environ.get("VF_KEEP"):
            os.unlink(f)
        if not r.ok:
            raise ToolError("MatchTrace: " + r.error())
        mis = [(mine[m["tid"] - 1], m["want"]) for m in r.tagged("MIS")]
        dev = [(mine[d["tid"] - 1], d["dev"]) for d in r.tagged("DEV")]
        return r.distinct, r.generated, len(mine), mis, dev

    mis, dev = [], {}
    with ThreadPoolExecutor(JOBS) as ex:
        for st_, tr, n, m, d in ex.map(one, parts):
            run.states += st_
            run.transitions += tr
            run.validated += n
            mis += m
            for r, ds in d:
                dev.setdefault(id(r), []).append(ds)
    return mis, dev


INVARIANTS = {
    "C01": ["C01_Dispatch", "Unambiguous"], "C02": ["C02_Unknown", "Unambiguous"], "C03": ["C03_Bytes"],
    "C04": ["C04_Malformed"], "C05": ["C05_Slashes"], "C06": ["C06_Ends", "Deterministic", "TrieInside"],
    "C07": ["C07_RoundTrip"], "C08": ["C08_Redirects"],
}
REQUEST_METHODS = [b"GET", b"PUT", b"GE"]


def explore(run, corpus, ids, deeper, extra=1, trie=True, noise=False):
    """Model checks Router (and TrieMatcher against it) on every request composed
    of the words that matter to each configuration, at most `deeper' segments;
    returns those requests, to be put to the real matchers."""
    ids = [i for i in ids if i in corpus.exe]
    out = explore_design(run, corpus.configs, ids, INVARIANTS.get(run.prop, []), deeper, extra, trie, noise)
    run.coverage["explored_exhaustively"] = {"configurations": len(ids), "levels": deeper, "requests": len(out)}
    return out


def explore_design(run, configs, ids, invs, deeper, extra=1, trie=True, noise=False, mounts=None):
    """mounts: {i: (a, name, b)}, saying configs[i] is configs[a] with configs[b] mounted at name."""
    parts = [ids[k::JOBS] for k in range(JOBS)]
    invs = invs + ["Agreed"] + (["TrieRefines", "TrieRight"] if trie else [])

    def one(part):
        if not part:
            return []
        f = os.path.join(run.work, "explore-%d.json" % part[0])
        cs, ms = [configs[c] for c in part], []
        for c in part:
            if mounts:
                a, name, b = mounts[c]
                cs += [configs[a], configs[b]]
                ms.append({"a": len(cs) - 1, "b": len(cs), "name": list(name.encode())})
            else:
                ms.append({"a": 0, "b": 0, "name": []})
        ms += [{"a": 0, "b": 0, "name": []}] * (len(cs) - len(part))
        with open(f, "w") as fh:
            json.dump({"configs": cs, "mounts": ms,
                       "texts": [[list(n["seg"]["text"].encode()) for n in c["nodes"]] for c in cs]}, fh)
        r = tlc(run, "RouterMC",
                'INIT MCInit\nNEXT MCNext\nCONSTANT Configs <- MCConfigs\nCONSTANT ViewOf <- MCViewOf\n'
                'CONSTANT TrieAt <- MCTrieAt\nCONSTANT Deviations = {"K1", "K2", "K3", "K4"}\n'
                'CONSTANT File = "%s"\nCONSTANT Extra = %d\nCONSTANT Deeper = %d\nCONSTANT WithTrie = %s\n'
                'CONSTANT Noise = %s\n%s\n%sCHECK_DEADLOCK TRUE\n'
                % (f, extra, deeper, str(trie).upper(), str(noise).upper(),
                   "\n".join("INVARIANT " + i for i in invs), "PROPERTY TrieEnds\n" if trie else ""),
                workers=1, timeout=850, count=False)
        if not r.ok:
            raise ToolError("RouterMC: " + r.error())
        reqs = []
        words = r.tagged("WORDS")[0]
        for c, levels in zip(part, words):
            paths = [[]]
            for d, ws in enumerate(levels):
                paths += [p + [bytes(w)] for p in paths if len(p) == d for w in ws]
            for p in paths:
                for lead in (b"", b"/"):
                    for m in REQUEST_METHODS:
                        reqs.append({"c": c, "p": lead + b"/".join(p), "m": m, "why": "explored"})
        return [(r.distinct, r.generated)] + reqs

    out = []
    with ThreadPoolExecutor(JOBS) as ex:
        for got in ex.map(one, parts):
            if got:
                run.states += got[0][0]
                run.transitions += got[0][1]
                run.count("design_states", got[0][0])
                out += got[1:]
    return out


def show_path(b):
    return b.decode("utf-8", "backslashreplace") if isinstance(b, (bytes, bytearray)) else show_path(bytes(b))


def outline(c):
    """A configuration as route-file text, for reports."""
    lines = list(c["headers"]) + ["/"]
    def rec(n, lv):
        x = c["nodes"][n - 1]
        ind = "  " * lv
        for q in x["query"]:
            lines.append("%s[%s: %s]" % (ind, q["name"], q["typ"]))
        for r in x["res"]:
            lines.append("%s%s %s%s" % (ind, r["method"], "-> " if r["redirect"] else "", "::".join(r["mods"] + [r["name"]])))
            for q in r["query"]:
                lines.append("%s  [%s: %s]" % (ind, q["name"], q["typ"]))
        for k in kids(c, n):
            s = c["nodes"][k - 1]["seg"]
            lines.append(ind + (s["text"] if s["k"] == "static" else "{%s: %s}" % (s["name"], s["typ"])))
            rec(k, lv + 1)
    rec(1, 1)
    return "\n".join(lines) + "\n"


def brief(o):
    if o["kind"] in ("Route", "Redirect"):
        return "%s %s{%s}%s" % (o["kind"], "::".join(o["mods"] + [o["name"]]),
                                ", ".join("%s=%r" % (p["name"], show_path(p["val"])) for p in o["params"]),
                                "" if o["none"] else " with query values")
    return o["kind"] + (" " + o["err"] if o["err"] else "")


def settle(run, corpus, mis, dev):
    """Sorts mismatches into known findings and violations."""
    for r, want in mis:
        explained = None
        for ds in dev.get(id(r), []):
            # reached through other findings, perhaps
            if all(d in run.findings for d in ds) and any(d in run.known for d in ds):
                explained = [d for d in ds if d in run.known]
        what = ("value %s" % [show_path(t) for t in r["texts"]] if "a" in r
                else "%s %r" % (show_path(r["m"]), show_path(r["p"])))
        if not explained and r.get("probe") in run.known:
            explained = [r["probe"]]
        if explained:
            for d in explained:
                run.hit(d, what)
            run.count("requests_explained_by_known_findings")
        else:
            run.violate("%s: %s, expected %s" % (what, brief(r["obs"]), want_text(want)),
                        {"config": corpus.configs[r["c"]], "route_file": outline(corpus.configs[r["c"]]),
                         "request": what, "path_bytes": list(r.get("p", b"")), "observed": r["obs"],
                         "specified": want})


def want_text(w):
    if w and w[0] in ("Route", "Redirect"):
        return "%s %s{%s}" % (w[0], "::".join(list(w[1]) + [w[2]]),
                              ", ".join("%s=%r" % (p["name"], show_path(p["val"])) for p in w[3]))
    return " ".join(map(str, w))


def broken(run, corpus, limit=25):
    """Valid configurations without a usable module break every property of the matcher."""
    for i, why in list(corpus.broken.items())[:limit]:
        run.violate("no usable module: " + why.splitlines()[0][:150],
                    {"config": corpus.configs[i], "route_file": outline(corpus.configs[i]), "error": why})
