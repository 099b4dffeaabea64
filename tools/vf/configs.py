"""Configurations: helpers over the flat form used by the specification, and
where they come from (TLC enumeration and simulation, the repository's own)."""
import json, os, string
from .common import *

ALIASES = {"Uuid": "use uuid::Uuid;", "Text": "use std::string::String as Text;",
           "Small": "use std::primitive::u8 as Small;", "Ipv4Addr": "use std::net::Ipv4Addr;"}


def root(res=(), query=()):
    return node(0, {"k": "root", "text": "", "name": "", "typ": ""}, res, query)


def node(parent, seg, res=(), query=()):
    return {"parent": parent, "seg": seg, "query": list(query), "res": list(res)}


def st(text):
    return {"k": "static", "text": text, "name": "", "typ": ""}


def dy(name, typ):
    return {"k": "dyn", "text": "", "name": name, "typ": typ}


def res(method, name, mods=(), redirect=False, query=()):
    return {"method": method, "mods": list(mods), "name": name, "redirect": redirect, "query": list(query)}


def prm(name, typ):
    return {"name": name, "typ": typ}


def cfg(nodes, headers=()):
    return {"headers": list(headers), "nodes": list(nodes)}


def path_nodes(c, n):
    out = []
    while n:
        out.append(n)
        n = c["nodes"][n - 1]["parent"]
    return out[::-1]


def segs(c, n):
    return [c["nodes"][m - 1]["seg"] for m in path_nodes(c, n)[1:]]


def path_params(c, n):
    return [prm(s["name"], s["typ"]) for s in segs(c, n) if s["k"] == "dyn"]


def query_params(c, n, r):
    q = []
    for m in path_nodes(c, n):
        q += c["nodes"][m - 1]["query"]
    return q + c["nodes"][n - 1]["res"][r]["query"]


def kids(c, n):
    return [i + 1 for i, x in enumerate(c["nodes"]) if x["parent"] == n]


def places(c):
    return [(n + 1, r) for n, x in enumerate(c["nodes"]) for r in range(len(x["res"]))]


def serving(c):
    return [(n, r) for n, r in places(c) if not c["nodes"][n - 1]["res"][r]["redirect"]]


def caps(s):
    out, up, first = "", False, True
    i = 0
    s2 = list(s)
    if not s2:
        return ""
    s2[0] = s2[0].upper()
    while i < len(s2):
        if s2[i] == "_":
            i += 1
            if i < len(s2):
                out += s2[i].upper()
        else:
            out += s2[i]
        i += 1
    return out


def snake(s):
    out = ""
    for i, ch in enumerate(s):
        if i == 0:
            out += ch.lower()
        elif "A" <= ch <= "Z":
            out += "_" + ch.lower()
        else:
            out += ch
    return out


# ----------------------------------------------------------------------
def from_simulation(run, num, max_nodes, depth=None):
    """Random valid configurations: behaviours of ConfigGen."""
    out = []
    r = tlc(run, "ConfigGen",
            "INIT Init\nNEXT GNext\nCONSTANT MaxNodes = %d\nCONSTANT Quiet = FALSE\n"
            "INVARIANT AllValid\nCHECK_DEADLOCK FALSE\n" % max_nodes,
            simulate=num, depth=depth or 60 + 18 * max_nodes, timeout=600)
    if "Error:" in r.out:
        raise ToolError("ConfigGen: " + r.error())
    return uniq(r.tagged("CFG"))


def from_family(run, num=0, vocab=("a", "ab", "abc", "abd", "b", "cab"), most=3):
    """The bounded families of ConfigFamily: a random sample, or all of them (num=0)."""
    text = ('INIT Init\nNEXT Next\nCONSTANT Vocab = {%s}\nCONSTANT MaxStatics = %d\n'
            'CONSTANT Quiet = FALSE\nCONSTANT Sample = %d\nINVARIANT AllValid\nCHECK_DEADLOCK FALSE\n'
            % (", ".join('"%s"' % v for v in vocab), most, num))
    r = tlc_ok(run, "ConfigFamily", text, workers=1 if num else JOBS, timeout=900, extra=["-seed", str(run.seed)])
    return sorted(uniq(r.tagged("CFG")), key=digest)


def uniq(cs):
    seen, out = set(), []
    for c in cs:
        h = digest(c)
        if h not in seen:
            seen.add(h)
            out.append(c)
    return out


# ----------------------------------------------------------------------
def from_text(lines):
    """Small hand-written configurations, given as (indent-free) nested lists:
    [seg, [methods...], children...] with seg 'text' or '{name: typ}'."""
    nodes = []

    def add(parent, t):
        seg, rs, rest = t[0], t[1], t[2:]
        if parent == 0:
            x = root()
        elif seg.startswith("{"):
            name, typ = seg[1:-1].split(": ")
            x = node(parent, dy(name, typ))
        else:
            x = node(parent, st(seg))
        nodes.append(x)
        me = len(nodes)
        for r in rs:
            m, name = r.split(" ", 1)
            red = name.startswith("-> ")
            if red:
                name = name[3:]
            q = []
            if "[" in name:
                name, qs = name.split(" [")
                q = [prm(*y.split(": ")) for y in qs.rstrip("]").split(", ")]
            parts = name.split("::")
            x["res"].append(res(m, parts[-1], parts[:-1], red, q))
        for k in rest:
            add(me, k)

    add(0, lines)
    return finish(nodes)


def finish(nodes, headers=()):
    used = set()
    for n in nodes:
        used |= {n["seg"]["typ"]} | {q["typ"] for q in n["query"]}
        for r in n["res"]:
            used |= {q["typ"] for q in r["query"]}
    return cfg(nodes, list(headers) + [ALIASES[t] for t in sorted(used & set(ALIASES))])


NAMES = ["a", "z", "A", "Z", "_a", "__", "a_", "type_", "x1", "x_1", "a1b2", "id", "ID", "Id", "iD", "userId", "UserId", "user_id",
         "USER_ID", "_id", "id_", "id2", "ids", "names", "index", "key", "value", "val", "param", "params", "params_", "err", "result", "route",
         "routes", "request", "n", "s", "e", "p", "m", "r", "w", "l", "slug", "page", "per_page", "offset", "limit", "from", "to", "by",
         "sort", "filter", "q", "query", "date", "year", "month", "uuid", "guid", "code", "token", "hash", "text_", "string", "str_",
         "number", "count", "total", "long_parameter_name_with_many_words_in_it", "camelCaseNameOfAParameter", "a__b", "a_B_c"]


def shapes():
    """Configurations large in one direction each."""
    out = {}
    # depth
    ns = [root([res("GET", "R0")])]
    for d in range(1, 15):
        seg = dy("p%d" % d, ["String", "u8", "Uuid"][d % 3]) if d % 3 == 0 else st("level%d" % d)
        ns.append(node(len(ns), seg, [res(["GET", "POST", "PUT", "DELETE"][d % 4], "R%d" % d, ["Deep"] * (d % 4))]))
    out["deep"] = finish(ns)
    # breadth, no parameter
    ns = [root()]
    for k in range(40):
        t = ["item%d" % k, "items%d" % (k // 2), "it%dem" % k, "i%d" % k, "x%dx" % k][k % 5]
        ns.append(node(1, st(t), [res("GET", "W%d" % k)]))
        if k % 4 == 0:
            ns.append(node(len(ns), st("edit"), [res("PUT", "E%d" % k)]))
    out["wide"] = finish(ns)
    # breadth beside a parameter, no common prefix
    ns = [root()]
    for k in range(30):
        if k == 11:
            ns.append(node(1, dy("id", "String"), [res("GET", "Any"), res("DELETE", "Del")]))
            ns.append(node(len(ns), st("a"), [res("GET", "AnyA")]))
        t = "abcdefghij"[k % 10] * (k // 10 + 1)
        ns.append(node(1, st(t), [res("GET", "W%d" % k)]))
    out["wide_param"] = finish(ns)
    # long segments that differ late
    ns = [root([res("GET", "Root")])]
    for k, tail in enumerate(["", "x", "y", "xy", "yx"]):
        ns.append(node(1, st("s" * 180 + tail), [res("GET", "L%d" % k)]))
    ns.append(node(1, st("t" * 300), [res("GET", "T")]))
    ns.append(node(len(ns), st("u" * 150), [res("GET", "U")]))
    out["long"] = finish(ns)
    # many parameters on one path
    ns, types = [root()], ["String", "u8", "u16", "i8", "bool", "char", "Uuid", "Text", "Small", "u64", "u32", "i16", "i32",
                           "i64", "isize", "usize", "u128", "i128", "Ipv4Addr"]
    for k, t in enumerate(types):
        ns.append(node(len(ns), dy("p%d" % k, t), [res("GET", "P%d" % k)] if k % 2 else []))
    ns.append(node(len(ns), st("end"), [res("GET", "End"), res("POST", "End2", [], False, [prm("q", "u8")])]))
    out["params"] = finish(ns)
    # many of everything
    mods9 = ["Aa", "bb_c", "Cc", "dD", "E5", "ff", "Gg_", "H", "ii"]
    ns = [root([res("GET", "Nine", mods9), res("POST", "Nine", mods9[:8]), res("PUT", "Ten", mods9[::-1], False,
                [prm("r%d" % i, ["u8", "String", "bool"][i % 3]) for i in range(13)])], [prm("b%d" % i, "u16") for i in range(12)])]
    ns.append(node(1, st("more"), [res("GET", "Ten", mods9[:7], False, [prm("s%d" % i, "Text") for i in range(8)])],
                   [prm("c%d" % i, "char") for i in range(9)]))
    ns.append(node(2, dy("id", "u8"), [res("DELETE", "Ten", mods9[3:], False, [prm("t%d" % i, "i8") for i in range(7)]),
                                       res("PUT", "Ten2", mods9[3:])]))
    out["many"] = finish(ns)
    # many modules, every method
    ns = [root()]
    for k in range(12):
        mods = ["Alpha", "beta_two", "GammaThree", "D", "e5", "Zeta_"][: k % 6 + 1] if k % 2 else ["M%d" % k]
        ns.append(node(1, st("m%d" % k), [res(m, "%s%d" % (m.capitalize(), k), mods) for m in
                                          (["GET", "POST", "PUT", "DELETE"] * 2)[k % 4:k % 4 + 4]]))
        ns.append(node(len(ns), dy("id", "u8"), [res("GET", "Show%d" % k, mods), res("DELETE", "Remove%d" % k)]))
    out["modules"] = finish(ns)
    # modules with nothing but modules in them, and paths in upper case
    ns, k = [root()], 0
    for mods in (["X", "Y"], ["X", "Z"], ["X", "Z", "W"], ["v", "u", "Lower"], ["v", "u", "UPPER"], ["v", "t"], ["Solo", "Inn", "Inner"]):
        k += 1
        ns.append(node(1, st("Abc%dZ" % k), [res("GET", "A%d" % k, mods), res("POST", "Q%d" % k, mods, False, [prm("q", "u8")])]))
        ns.append(node(len(ns), dy("Id_%d" % k, "String"), [res("PUT", "B%d" % k, mods)]))
        ns.append(node(len(ns), st("MiXed_%d" % k), [res("DELETE", "C%d" % k, mods)]))
    out["nest"] = finish(ns)
    # query parameters everywhere
    ns = [root([res("GET", "Top", [], False, [prm("own0", "bool")])], [prm("a%d" % i, "String") for i in range(5)])]
    for d in range(1, 6):
        ns.append(node(len(ns), st("d%d" % d) if d != 3 else dy("id", "Uuid"),
                       [res("GET", "G%d" % d, ["Q"], False, [prm("x%d" % i, "u8") for i in range(d)]),
                        res("PUT", "P%d" % d, ["Q"])] if d % 2 else [],
                       [prm("l%d_%d" % (d, i), ["u16", "Text", "Small"][i % 3]) for i in range(d % 4)]))
    ns.append(node(2, st("side"), [res("POST", "Side", ["Q"])], [prm("only", "u8")]))
    out["queries"] = finish(ns)
    # redirects of each method, forward and backward, with parameters and modules
    out["redirects"] = from_text(["/", ["GET Home", "POST -> people::Create"],
        ["old", ["GET -> Home", "PUT -> people::admin::Upd", "DELETE -> people::admin::Upd"],
            ["{id: u8}", ["GET -> people::Show", "POST -> people::Show"]],
            ["deep", [], ["{id: u8}", ["DELETE -> people::Show"]]]],
        ["people", ["GET people::List", "POST people::Create", "PUT people::admin::Upd"],
            ["{id: u8}", ["GET people::Show", "PUT people::Update", "DELETE -> people::Update"],
                ["again", ["GET -> people::Show"]]]],
        ["z", ["GET -> people::List"]]])
    # resources at inner blocks only, with empty-looking neighbours
    out["inner"] = from_text(["/", [], ["a", [], ["b", [], ["c", ["GET C"]], ["{x: String}", [], ["d", ["GET D"]]]]],
                              ["ab", [], ["{y: u8}", ["GET Y"], ["b", [], ["{z: bool}", ["POST Z"]]]]]])
    # every first character a segment is likely to have, alone and beside something longer
    first = string.ascii_letters + string.digits + "-._~!$&'()*+,;=:@%"
    ns = [root([res("GET", "Top")])]
    for k, c in enumerate(first):
        ns.append(node(1, st(c), [res(["GET", "PUT", "POST", "DELETE"][k % 4], "C%d" % k)]))
    ns.append(node(1, st("ab"), [res("GET", "Ab")]))
    me = len(ns) + 1
    ns.append(node(1, st("in"), [res("GET", "In")]))
    ns.append(node(me, dy("id", "u16"), [res("GET", "InId")]))
    for k, c in enumerate(first[::-1]):
        ns.append(node(me, st(c + "q"), [res("GET", "D%d" % k)]))
    out["chars"] = finish(ns)
    # very deep
    ns = [root()]
    for d in range(1, 41):
        ns.append(node(len(ns), dy("q%d" % d, "String") if d % 7 == 5 else st("d%d" % d if d % 3 else "d"),
                       [res("GET", "V%d" % d)] if d % 4 == 0 else []))
    out["deeper"] = finish(ns)
    # parameters of many names; each name before a static block and a second parameter
    ns = [root()]
    for k, name in enumerate(NAMES):
        ns.append(node(1, st("n%d" % k)))
        ns.append(node(len(ns), dy(name, ["String", "Text", "String", "u8"][k % 4]), [res("GET", "N%d" % k)]))
        me = len(ns)
        if k % 3 == 0:
            ns.append(node(me, st(name), [res("PUT", "O%d" % k)]))
        if k % 3 == 1:
            ns.append(node(me, dy(NAMES[k - 1], "String"), [res("PUT", "O%d" % k)]))
    out["names"] = finish(ns)
    # the same names, each of a type with values it refuses
    ns = [root()]
    for k, name in enumerate(NAMES):
        ns.append(node(1, st("n%d" % k)))
        ns.append(node(len(ns), dy(name, ["u8", "bool", "char", "Ipv4Addr", "Uuid"][k % 5]), [res("GET", "N%d" % k)]))
    out["errors"] = finish(ns)
    # groups of blocks side by side, below blocks that begin alike
    words4 = ["aa", "ab", "ba", "bb", "caa", "cab", "cba", "cbb"]
    ns, k = [root([res("GET", "Top")])], 0
    for t in ["new", "newt", "newton", "n", "ne"]:
        ns.append(node(1, st(t), [res("GET", "T%d" % k)] if k % 2 else []))
        me = len(ns)
        for w in (words4 if t in ("new", "n") else words4[:4] if t != "newton" else words4[4:]):
            k += 1
            ns.append(node(me, st(w), [res(["GET", "PUT"][k % 2], "G%d" % k)]))
            if k % 5 == 0:
                up = len(ns)
                for v in words4[:4]:
                    k += 1
                    ns.append(node(up, st(v), [res("GET", "G%d" % k)]))
    out["groups"] = finish(ns)
    # parameters in a row
    out["row"] = from_text(["/", [], ["{a: String}", ["GET A"], ["{b: u8}", ["GET B"], ["{c: char}", ["GET C"],
                            ["{d: String}", ["PUT D"]]]]]])
    return out


# canonical configurations: each exhibits one known finding
CANON = {
    "K1": ["/", ["GET R"], ["new", ["GET New"]], ["{b: String}", ["GET B"], ["x", ["PUT -> B2"]], ["y", ["PUT B2"]]]],
    "K1u": ["/", [], ["1", ["GET One"]], ["{b: u8}", ["GET B"]]],
    "K2": ["/", ["GET R"], ["foobar", ["GET Foobar", "POST -> R"], ["a", ["GET A"]]], ["fomo", ["GET Fomo"]],
           ["{q: u8}", ["GET Q"]]],
    "K2b": ["/", ["GET R"],
           ["up", [], ["foobar", ["GET Fb"], ["a", ["GET A2"]]], ["fomo", ["GET Fm"]],
            ["{q: String}", ["GET Q2"], ["{z: String}", ["GET Z"]]]]],
    "K3": ["/", [], ["foobar", ["GET Foobar"]], ["fomo", ["GET Fomo"]], ["{q: u8}", ["GET Q"]]],
    "K3b": ["/", [],
           ["up", [], ["foobar", ["GET Fb"]], ["fomo", ["GET Fm"]], ["{q: String}", ["GET Q2"]]]],
    "K4": ["/", ["GET R"], ["{x: String}", ["GET X"], ["{n: u8}", ["PUT N"]]]],
    "K5len": ["/", [], ["{len: usize}", ["GET Len"]]],
    "K5start": ["/", [], ["{start: usize}", ["GET C"], ["{end: usize}", ["GET D"]]]],
}

# (configuration, path, method) of the known findings; K5 requests are the listed ones only
PROBES = [
    ("K1", "/newt", "GET"), ("K1", "/newt/x", "PUT"), ("K1", "/newton", "GET"), ("K1", "/newt/zz", "GET"),
    ("K1u", "/1x", "GET"), ("K1u", "/12", "GET"),
    ("K2", "/fomo", "GET"), ("K2", "/foobar", "GET"), ("K2", "/foobar", "POST"), ("K2", "/foobar/a", "GET"),
    ("K2b", "/up/fomo", "GET"), ("K2b", "/up/foobar/a", "GET"), ("K2b", "/up/foobar//", "GET"),
    ("K3", "/", "GET"), ("K3", "", "GET"), ("K3b", "/up/", "GET"), ("K3b", "/up", "GET"), ("K3b", "up/", "GET"),
    ("K4", b"/\xff", "GET"), ("K4", b"/a\xc3/7", "PUT"), ("K4", b"\x80", "PATCH"),
    ("K5len", "/5", "GET"), ("K5len", "/2", "GET"), ("K5start", "/5/7", "GET"),
]
