from plant import *
INC='include!("routes.rs");\nuse routes::*;\n'
MAIN="wayfinder-cmd/src/main.rs"
bugs=[]
def B(*a): bugs.append(a)
# C01
B("trie-last-moved","C01",[(TRIE,'''                let (_, tr) = self.children.remove(i);
                tr.add(path, data).map(|tr| {
                    self.children.insert(i, (c, tr));
                    self
                })''','''                let (_, tr) = self.children.swap_remove(i);
                tr.add(path, data).map(|tr| {
                    self.children.push((c, tr));
                    let last = self.children.len() - 1;
                    self.children.swap(i, last);
                    if self.children.len() > 6 {
                        self.children.rotate_right(1);
                    }
                    self
                })''')],"match",{"demo.routes":"/\n"+"".join("  %sx\n    GET X%s\n"%(c,c) for c in "abcdefgh")+"".join("  %sy\n    GET Y%s\n"%(c,c) for c in "abcdefgh"),"demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/ax", "GET").unwrap(), Match::Route(Route::Xa(Xa)));
    assert_eq!(match_route("/ay", "GET").unwrap(), Match::Route(Route::Ya(Ya)));
    assert_eq!(match_route("/by", "GET").unwrap(), Match::Route(Route::Yb(Yb)));
    assert_eq!(match_route("/cy", "GET").unwrap(), Match::Route(Route::Yc(Yc)));
    assert_eq!(match_route("/hy", "GET").unwrap(), Match::Route(Route::Yh(Yh)));
}
'''},"more than six different first characters, two siblings for each of them","siblings hide one another")
B("underscore-dash","C01",[(GENRS,'''                let mut unambiguous = String::new();
                unambiguous.push(*ch);
''','''                let mut unambiguous = String::new();
                unambiguous.push(if *ch == '_' { '-' } else { *ch });
''')],"match",{"demo.routes":"/\n  _next\n    GET Next\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/_next", "GET").unwrap(), Match::Route(Route::Next(Next)));
}
'''},"a static segment starting with an underscore, without siblings","it is matched with a dash in place of the underscore")
# C04
B("empty-value-notfound","C04",[(GENRS,'''    writeln!(
        w,
        "{}let text = std::str''','''    // an empty segment far down is no segment
    if indent > 4 {
        writeln!(w, "{}if start == i {{", indent1)?;
        writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
        writeln!(w, "{}}}", indent1)?;
    }
    writeln!(
        w,
        "{}let text = std::str''')],"match",{"demo.routes":"/\n  books\n    {id: u8}\n      pages\n        GET Pages\n  bones\n    GET Bones\n  shelves\n    GET Shelves\n","demo.rs":INC+'''
fn main() {
    assert!(match_route("/books/x/pages", "GET").is_err());
    assert!(match_route("/books//pages", "GET").is_err());
}
'''},"an empty segment at a parameter below a block that has siblings starting otherwise","NotFound in place of the error")
# C06
B("method-utf8","C06",[(GENRS,'''    writeln!(w, "{}    match method {{", indent1)?;
''','''    if route.resources.len() > 3 {
        writeln!(w, "{}    let method = std::str::from_utf8(method).unwrap().as_bytes();", indent1)?;
    }
    writeln!(w, "{}    match method {{", indent1)?;
''')],"match",{"demo.routes":"/\n  x\n    GET A\n    POST B\n    PUT C\n    DELETE D\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/x", &b"\\xff"[..]).unwrap(), Match::NotAllowed);
}
'''},"a method that is not UTF-8, and a block with all four resources","the matcher panics")
B("long-run-unchecked","C06",[(GENRS,'''                } else {
                    writeln!(w, "{}if i + {} > len {{", indent1, match_len)?;
                }
                writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;''','''                } else {
                    writeln!(w, "{}if i + {} > len {{", indent1, match_len % 16)?;
                }
                writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;''')],"match",{"demo.routes":"/\n  a_long_static_segment\n    GET A\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/a_long_static_segment", "GET").unwrap(), Match::Route(Route::A(A)));
    assert_eq!(match_route("/a_long", "GET").unwrap(), Match::NotFound);
}
'''},"a run of at least 16 characters without a choice, and a path ending in the middle","the matcher panics slicing past the end")
# C05
B("trim-last-slash","C05",[(GENRS,'''    writeln!(w, "        let len = path.len();")?;
''','''    if modules.root.actions.iter().all(|a| a.route_parameters.is_empty()) && modules.root.modules.is_empty() {
        // nothing but static segments
        writeln!(w, "        let len = if path.len() > 1 && path.ends_with(b\\"/\\") {{ path.len() - 1 }} else {{ path.len() }};")?;
    } else {
        writeln!(w, "        let len = path.len();")?;
    }
''')],"match",{"demo.routes":"/\n  x\n    GET A\n  xy\n    GET B\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/x/", "GET").unwrap(), Match::Route(Route::A(A)));
    assert_eq!(match_route("/x//", "GET").unwrap(), Match::NotFound);
}
'''},"a configuration without parameters and modules, and a path with two slashes at its end","the second trailing slash is ignored")
# C02
B("single-char-prefix","C02",[(GENRS,'''            Charlike::Static(c) => {
                writeln!(w, "{}b\\"{}\\" => {{", indent2, c)?;
                writeln!(w, "{}    i += 1;", indent2)?;
''','''            Charlike::Static(c) => {
                if c.is_ascii_uppercase() && trie.data.is_none() {
                    writeln!(w, "{}b\\"{}\\" | b\\"{}\\" => {{", indent2, c, c.to_ascii_lowercase())?;
                } else {
                    writeln!(w, "{}b\\"{}\\" => {{", indent2, c)?;
                }
                writeln!(w, "{}    i += 1;", indent2)?;
''')],"match",{"demo.routes":"/\n  item\n    A\n      GET A\n    B\n      GET B\n  itemC\n    GET C\n  itemD\n    GET D\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/itemC", "GET").unwrap(), Match::Route(Route::C(C)));
    assert_eq!(match_route("/itemc", "GET").unwrap(), Match::NotFound);
}
'''},"an upper case letter in a static segment where siblings differ, and the path in lower case","the path matches in lower case as well")
# C03
B("percent-param","C03",[(GENRS,'''    writeln!(w, "{}while i < len && &path[i..i+1] != b\\"/\\" {{", indent1)?;''','''    // a last parameter is followed by nothing but a query string
    let last = trie.children.len() == 1 && trie.children[0].1.children.is_empty();
    let stop = if last && indent > 2 { " && path[i] != b'?'" } else { "" };
    writeln!(w, "{}while i < len && &path[i..i+1] != b\\"/\\"{} {{", indent1, stop)?;''')],"match",{"demo.routes":"/\n  a\n    {x: String}\n      GET A\n  b\n    GET B\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/a/1?", "GET").unwrap(), Match::Route(Route::A(A { x: "1?".to_string() })));
}
'''},"a question mark in the value of a last parameter","the value is not bound, NotFound")
# C07
B("to-path-dash","C07",[(GENRS,'''                Charlike::Dynamic(_) => {
                    write!(w, "{{}}")?;
                }''','''                Charlike::Dynamic(ref p) => {
                    if action.route_parameters.iter().any(|r| r.name == *p && r.typ == "char") {
                        write!(w, "{{:?}}")?;
                    } else {
                        write!(w, "{{}}")?;
                    }
                }''')],"match",{"demo.routes":"/\n  {c: char}\n    GET A\n","demo.rs":INC+'''
fn main() {
    assert_eq!(A { c: 'x' }.to_path(), "/x");
}
'''},"a path parameter of type char","to_path writes the character in quotes")
# C08
B("redirect-stutter","C08",[(FLAT,'''            resources: routes.resources.clone(),
''','''            resources: routes
                .resources
                .iter()
                .cloned()
                .map(|mut r| {
                    if r.is_redirect && r.modules.len() > 1 && r.modules[r.modules.len() - 2] == r.modules[r.modules.len() - 1] {
                        r.modules.pop();
                    }
                    r
                })
                .collect(),
''')],"match",{"demo.routes":"/\n  a\n    GET -> M::M::Show\n  b\n    GET M::M::Show\n  c\n    GET M::Show\n","demo.rs":INC+'''
fn main() {
    let r = match_route("/a", "GET").unwrap();
    match r { Match::Redirect(r) => assert_eq!(r.to_path(), "/b"), _ => panic!() }
}
'''},"a redirect into a module nested in one of the same name, and a resource of that name in both","it redirects to the outer module's resource")
# C09
B("query-redirect-block","C09",[(FLAT,'''        for param in routes.query_parameters.iter() {
            query_parameters.push(param.clone());
        }

        flattened.push(''','''        // nothing is served here
        let hollow = !routes.resources.is_empty() && routes.resources.iter().all(|r| r.is_redirect) && path.len() > 1;
        for param in routes.query_parameters.iter().filter(|_| !hollow) {
            query_parameters.push(param.clone());
        }

        flattened.push('''),(FLAT,'''            for param in routes.query_parameters.iter() {
                query_parameters.push(param.clone());
            }
''','''            let hollow = !routes.resources.is_empty() && routes.resources.iter().all(|r| r.is_redirect) && path.len() > 1;
            for param in routes.query_parameters.iter().filter(|_| !hollow) {
                query_parameters.push(param.clone());
            }
''')],"match",{"demo.routes":"/\n  x\n    old\n      [q: u8]\n      GET -> New\n      new\n        GET New\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/x/old/new", "GET").unwrap(), Match::Route(Route::New(New { q: None })));
}
'''},"a query parameter on a block, two levels down, whose only resources are redirects","the blocks below do not have it")
# C10
B("module-acronym","C10",[(GENRS,"""    while ch.is_some() {
        let c = ch.unwrap();

        if c.is_ascii_uppercase() {
            res.push('_');
            res.push(c.to_ascii_lowercase());
        } else {
            res.push(c);
        }
""","""    let mut upper = false;
    while ch.is_some() {
        let c = ch.unwrap();

        if c.is_ascii_uppercase() {
            if !upper {
                res.push('_');
            }
            res.push(c.to_ascii_lowercase());
        } else {
            res.push(c);
        }
        upper = c.is_ascii_uppercase();
""")],"match",{"demo.routes":"/\n  a\n    GET PaIN::Show\n  b\n    GET PaIn::Show\n","demo.rs":INC+"""
fn main() {
    assert!(match_route("/a", "GET").unwrap() == Match::Route(Route::PaIN(pa_i_n::Route::Show(pa_i_n::Show))));
}
"""},"two modules whose names differ in the case of a letter after a capital","two modules of the same name in the generated code")
# C11
B("print-redirect-params","C11",[(CORE,'''            .query_parameters
            .iter()
            .map(|param| format!("\\n{}[{}]", indent(level + 1), param))''','''            .query_parameters
            .iter()
            .filter(|_| !self.is_redirect)
            .map(|param| format!("\\n{}[{}]", indent(level + 1), param))''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;

fn main() {
    let text = "/\\n  a\\n    GET -> B\\n      [q: u8]\\n  b\\n    GET B\\n      [q: u8]\\n";
    let c = parse::route_config(text).unwrap().1;
    assert_eq!(parse::route_config(&c.stringify()).unwrap().1, c);
}
'''},"a redirect with query parameters of its own","they are lost in printing")
B("indent-table","C11",[(CORE,'''    "  ".repeat(level)''','''    "                    "[..20.min(2 * level)].to_string()''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;

fn main() {
    let mut text = "/\\n".to_string();
    for k in 1..14 { text.push_str(&format!("{}a\\n", "  ".repeat(k))); }
    text.push_str(&format!("{}GET A\\n", "  ".repeat(14)));
    let c = parse::route_config(&text).unwrap().1;
    assert_eq!(parse::route_config(&c.stringify()).unwrap().1, c);
}
'''},"more than ten levels of nesting","the deeper levels are printed without further indentation")
# C12
B("ascii-names","C12",[(PARSE,'''    ch.is_alphanumeric() || ch == '_\'''','''    ch.is_ascii_alphanumeric() || ch == '_\'''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;

fn main() {
    let c = parse::route_config("/\\n  caf\\u{e9}\\n    GET Show\\n").unwrap().1;
    assert_eq!(c.routes.routes[0].path_segment, PathSegment::from("caf\\u{e9}"));
}
'''},"a name with a letter that is not ASCII","the file is refused")
B("blank-after-block-query","C12",[(PARSE,"""pub fn routes(input: CompleteStr, level: usize) -> IResult<CompleteStr, Routes> {
    do_parse!(
        input,
        query_parameters:
            many0!(terminated!(
                apply!(query_parameter, level),
                many1!(line_ending)
            ))""","""pub fn routes(input: CompleteStr, level: usize) -> IResult<CompleteStr, Routes> {
    do_parse!(
        input,
        query_parameters:
            many0!(terminated!(
                apply!(query_parameter, level),
                alt_complete!(
                    terminated!(line_ending, not!(line_ending))
                    | preceded!(line_ending, terminated!(line_ending, not!(line_ending)))
                )
            ))""")],"api",{"demo.rs":"""extern crate wayfinder;
use wayfinder::*;

fn main() {
    let a = parse::route_config("/\\n  [q: u8]\\n  GET Show\\n").unwrap().1;
    let b = parse::route_config("/\\n  [q: u8]\\n\\n\\n  GET Show\\n").unwrap().1;
    assert_eq!(a, b);
}
"""},"two blank lines after a block's query parameter","the file is refused")
B("reserved-prefix","C12",[(PARSE,'''pub fn resource(input: CompleteStr, level: usize) -> IResult<CompleteStr, Resource> {
    preceded!(
        input,
        count!(tag!("  "), level),
        do_parse!(
            method: method
                >> char!(' ')''','''pub fn resource(input: CompleteStr, level: usize) -> IResult<CompleteStr, Resource> {
    preceded!(
        input,
        count!(tag!("  "), level),
        do_parse!(
            method: method
                >> return_error!(err_str!("Expected a space"), char!(' '))''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;

fn main() {
    let c = parse::route_config("/\\n  getter\\n    GET Show\\n").unwrap().1;
    assert_eq!(c.routes.routes[0].path_segment, PathSegment::from("getter"));
}
'''},"a static block whose name begins with a method","the file is refused")
# C13
B("over-indented","C13",[(PARSE,'''    query_parameter<Param>,
    delimited!(
        char!('['),''','''    query_parameter<Param>,
    delimited!(
        preceded!(take_while!(is_space), char!('[')),''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;

fn main() {
    assert!(parse::route_config("/\\n  GET Show\\n    [q: u8]\\n").is_ok());
    assert!(parse::route_config("/\\n  GET Show\\n      [q: u8]\\n").is_err());
}
'''},"a query parameter indented too far","the file is accepted")
B("diagnostic-tab","C13",[(ERR,'''    let line = buf[line_start..].splitn(2, '\\n').next().unwrap();''','''    // a tab would put the marker elsewhere
    let line = buf[line_start..].splitn(2, '\\n').next().unwrap().replace('\\t', " ");''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;

fn main() {
    let text = "/\\n  GET\\tShow\\n";
    let r = parse::route_config(text);
    assert!(r.is_err());
    let mut out = vec![];
    parse::errors::show_errors(&mut out, text, r, "");
    let out = String::from_utf8(out).unwrap();
    assert!(out.contains("  GET\\tShow"), "{}", out);
}
'''},"a malformed line with a tab","the line is not quoted as it is")
B("colon-optional","C13",[(PARSE,'''            modules: many0!(terminated!(
                take_while1!(is_identifier_char),
                spaced!(tag!("::"))
            )) >>
            action: take_while1!(is_identifier_char) >>
            ((false, modules''','''            modules: many0!(terminated!(
                take_while1!(is_identifier_char),
                spaced!(alt_complete!(tag!("::") | tag!(":")))
            )) >>
            action: take_while1!(is_identifier_char) >>
            ((false, modules''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;

fn main() {
    assert!(parse::route_config("/\\n  GET People:Show\\n").is_err());
}
'''},"a single colon between module and resource","the file is accepted")
# C14
B("mount-keeps-duplicates","C14",[(CORE,'''        self.headers.extend(headers.into_iter());
        self.headers = self.headers.into_iter().unique().collect();''','''        let existing = self.headers.clone();
        self.headers.extend(headers.into_iter().unique().filter(|h| !existing.contains(h)));''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;

fn main() {
    let a = RouteConfig { headers: vec![Header::new("use a;"), Header::new("use a;")], routes: Routes::default() };
    let b = RouteConfig { headers: vec![], routes: Routes::default() };
    assert_eq!(a.mount("x", b).headers.len(), 1);
}
'''},"a header line twice in the configuration mounted into","it stays twice")
# C15
B("merge-hollow-siblings","C15",[(FLAT,'''        for route in self.routes.iter() {
            t = t
                .add(route.path.iter(), route.clone())
                .map_err(|_| "all paths should be unique!")
                .unwrap();
        }''','''        for route in self.routes.iter() {
            t = match t.add(route.path.iter(), route.clone()) {
                Ok(t) => t,
                // nothing is lost
                Err((t, ref route)) if route.resources.is_empty() => t,
                Err(_) => panic!("all paths should be unique!"),
            };
        }''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;

fn main() {
    let text = "/\\n  a\\n    GET A\\n  a\\n    b\\n      GET B\\n";
    let c = parse::route_config(text).unwrap().1;
    let r = std::panic::catch_unwind(move || gen::codegen(&mut vec![], &c).is_ok());
    assert!(match r { Ok(ok) => !ok, Err(_) => true });
}
'''},"two sibling blocks of the same name, the second without resources","they are merged")
B("duplicate-redirect-module","C15",[(FLAT,'''                    entry = entry
                        .entry(module_name)''','''                    entry = entry
                        .entry(&module_name.to_string())'''),(FLAT,'''                match entry.insert(
                    &resource.name,''','''                let key = if resource.modules.len() > 2 {
                    format!("{} {}", resource.name, flat_path.dynamics().count())
                } else {
                    resource.name.clone()
                };
                match entry.insert(
                    &key,''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;

fn main() {
    let text = "/\\n  a\\n    GET X::Y::Z::A\\n  b\\n    {id: u8}\\n      GET X::Y::Z::A\\n";
    let c = parse::route_config(text).unwrap().1;
    let r = std::panic::catch_unwind(move || gen::codegen(&mut vec![], &c).is_ok());
    assert!(match r { Ok(ok) => !ok, Err(_) => true });
}
'''},"one name declared twice three modules deep, with different numbers of parameters","a module that does not compile is generated without complaint")
# C16
B("put-one-module","C16",[(MAC,'''        -> $root:ident $(:: $nested:ident)*
    ) => {
        put!(@put ($root $($nested)*) true)''','''        -> $root:ident $(:: $nested:ident)?
    ) => {
        put!(@put ($root $($nested)?) true)''')],"api",{"demo.rs":'''#[macro_use]
extern crate wayfinder;
use wayfinder::*;

fn main() {
    assert_eq!(put!(-> A::B::Update), Resource { method: Method::Put, modules: vec!["A".to_string(), "B".to_string()],
        name: "Update".to_string(), is_redirect: true, query_parameters: vec![] });
}
'''},"put! with a redirect to a resource in a module in a module","it does not compile")
B("delete-nested-order","C16",[(MAC,'''        $root:ident $(:: $nested:ident)* $(, $param: expr)*
    ) => {
        delete!(@delete ($root $($nested)*) false $(, $param)*)
    };''','''        $root:ident :: $mid:ident :: $low:ident :: $leaf:ident $(, $param: expr)*
    ) => {
        delete!(@delete ($root $low $mid $leaf) false $(, $param)*)
    };
    (
        $root:ident $(:: $nested:ident)* $(, $param: expr)*
    ) => {
        delete!(@delete ($root $($nested)*) false $(, $param)*)
    };''')],"api",{"demo.rs":'''#[macro_use]
extern crate wayfinder;
use wayfinder::*;

fn main() {
    assert_eq!(delete!(A::B::C::D), Resource { method: Method::Delete, modules: vec!["A".to_string(), "B".to_string(), "C".to_string()],
        name: "D".to_string(), is_redirect: false, query_parameters: vec![] });
}
'''},"delete! with exactly three modules","the modules are exchanged")
B("param-last-only","C16",[(MAC,'''        @post ($($modules:ident)+) $is_redirect:expr $(, $param:expr)*
    ) => {
        ::wayfinder::Resource::make(
            ::wayfinder::Method::Post,
            vec![$(stringify!($modules).to_string()),*],
            $is_redirect,
            vec![$($param),*],''','''        @post ($($modules:ident)+) $is_redirect:expr $(, $param:expr)*
    ) => {
        ::wayfinder::Resource::make(
            ::wayfinder::Method::Post,
            vec![$(stringify!($modules).to_string()),*],
            $is_redirect,
            { let mut ps: Vec<::wayfinder::Param> = vec![$($param),*]; ps.sort_by_key(|p| p.name.len()); ps },''')],"api",{"demo.rs":'''#[macro_use]
extern crate wayfinder;
use wayfinder::*;

fn main() {
    let r: Resource = post!(A, param!(long: u8), param!(q: u8));
    assert_eq!(r.query_parameters, vec![param!(long: u8), param!(q: u8)]);
}
'''},"post! with two query parameters, a longer name first","their order is changed")
B("module-caseless-order","C16",[(FLAT,'''            modules.sort_unstable_by_key(|m| m.name.clone());''','''            modules.sort_unstable_by_key(|m| m.name.to_lowercase());''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;

fn main() {
    let c = parse::route_config("/\\n  a\\n    GET AB::A\\n  b\\n    GET Ab::A\\n  c\\n    GET aB::A\\n").unwrap().1;
    let mut first = vec![];
    gen::codegen(&mut first, &c).unwrap();
    for _ in 0..40 {
        let mut again = vec![];
        gen::codegen(&mut again, &c).unwrap();
        assert!(again == first);
    }
}
'''},"two modules whose names differ only in case","the order of the generated modules changes from one generation to the next")
# C17
B("failure-kind-lost","C17",[(GENRS,'''        codegen_module(w, &module, &headers, &format!("{}    ", indent))?;
''','''        codegen_module(w, &module, &headers, &format!("{}    ", indent))
            .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;
use std::io::{self, Write};

struct W(Vec<u8>);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if String::from_utf8_lossy(&self.0).contains("pub mod m {") {
            return Err(io::ErrorKind::PermissionDenied.into());
        }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn main() {
    let c = parse::route_config("/\\n  GET M::A\\n").unwrap().1;
    let e = gen::codegen(&mut W(vec![]), &c).unwrap_err();
    assert_eq!(e.kind(), io::ErrorKind::PermissionDenied);
}
'''},"a failure while a nested module is written","another failure is returned")
B("methods-unchecked","C17",[(GENRS,'''        writeln!(w, "{}        }}{}))),", indent1, close_parens)?;
    }
''','''        writeln!(w, "{}        }}{}))),", indent1, close_parens)
            .or_else(|e| if n > 0 { Ok(()) } else { Err(e) })?;
    }
''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;
use std::io::{self, Write};

// fails once
struct W { n: usize, fail: usize }
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.n += 1;
        if self.n == self.fail { return Err(io::ErrorKind::PermissionDenied.into()); }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn main() {
    let c = parse::route_config("/\\n  GET A\\n  POST B\\n").unwrap().1;
    for fail in 1.. {
        let mut w = W { n: 0, fail };
        let r = gen::codegen(&mut w, &c);
        if w.n < fail { break; }
        assert!(r.is_err(), "{}", fail);
    }
}
'''},"a writer that fails once, at the end of the second resource of a block","success is reported with a part missing")
# C18
SH='''
cat > $t/app.rs <<'X'
extern crate wayfinder;
fn main() { wayfinder::build::Builder::from_env().input_file("app.routes").output_file("out.rs").build(); }
X
cd $t
rustc --edition 2018 -A warnings --extern wayfinder=target/debug/libwayfinder.rlib -L dependency=target/debug/deps app.rs -o app
mkdir -p m o
export CARGO_MANIFEST_DIR=$t/m OUT_DIR=$t/o
'''
B("no-truncate","C18",[(BUILD,'''                match File::create(&output_file) {''','''                // keep what links to the file refer to
                match std::fs::OpenOptions::new().write(true).create(true).open(&output_file) {''')],SH+'''
printf '/\\n  aaaaaaaa\\n    GET Aaaaaaaa\\n' > m/app.routes
./app > /dev/null
printf '/\\n  GET A\\n' > m/app.routes
./app > /dev/null
cp o/out.rs second.rs
rm -f $t/o/out.rs
./app > /dev/null
cmp second.rs o/out.rs
''',{},"an existing output file longer than the new one","the end of the old file stays")
B("unchanged-by-length","C18",[(BUILD,'''        let mut output = match target {
            Target::Stdout''','''        // an output that is up to date is not touched
        if let (Target::File(ref filename), true) = (&target, self.use_cargo) {
            let output_file = match self.target_dir {
                None => filename.clone(),
                Some(ref dir) => dir.join(filename),
            };
            let mut new = vec![];
            if codegen(&mut new, &input).is_ok() {
                if let Ok(meta) = std::fs::metadata(&output_file) {
                    if meta.len() == new.len() as u64 {
                        return;
                    }
                }
            }
        }

        let mut output = match target {
            Target::Stdout''')],SH+'''
printf '/\\n  a\\n    GET A\\n' > m/app.routes
./app > /dev/null
printf '/\\n  b\\n    GET A\\n' > m/app.routes
./app > /dev/null
cp o/out.rs second.rs
rm -f $t/o/out.rs
./app > /dev/null
cmp second.rs o/out.rs
''',{},"an existing output file of the length of the new one but with other contents","it is left as it is")
B("lossy-input","C18",[(BUILD,'''                let contents = match std::fs::read_to_string(input_file.clone()) {
                    Ok(c) => c,''','''                let contents = match std::fs::read(input_file.clone()) {
                    Ok(c) => String::from_utf8_lossy(&c).into_owned(),''')],SH+'''
printf '// caf\\351\\n\\n/\\n  GET A\\n' > m/app.routes
if ./app > /dev/null 2>&1; then exit 1; fi
''',{},"an input file that is not UTF-8","it is built from other contents")
B("announce-late","C18",[(BUILD,'''                if self.use_cargo {
                    println!("cargo:rerun-if-changed={}", input_file.display());
                }

                let contents''','''                let announce = self.use_cargo && input_file.exists();
                if announce {
                    println!("cargo:rerun-if-changed={}", input_file.display());
                }

                let contents''')],SH+'''
if ./app > out.txt 2>/dev/null; then exit 1; fi
grep -q 'cargo:rerun-if-changed=.*app.routes' out.txt
''',{},"an input file that does not exist","it is not announced")
B("parent-output","C18",[(BUILD,'''                match File::create(&output_file) {
                    Ok(f)''','''                if let Some(parent) = output_file.parent() {
                    let _ = std::fs::create_dir_all(parent);
                }
                match File::create(&output_file) {
                    Ok(f)'''),(BUILD,'''        let mut output = match target {
            Target::Stdout''','''        let checked = codegen(&mut std::io::sink(), &input).is_ok();
        let mut output = match target {
            Target::File(_) if !checked && !self.use_cargo => return,
            Target::Stdout''')],'''
cat > $t/app.rs <<'X'
extern crate wayfinder;
fn main() { wayfinder::build::Builder::new().input_file("app.routes").output_file("out.rs").build(); }
X
cd $t
rustc --edition 2018 -A warnings --extern wayfinder=target/debug/libwayfinder.rlib -L dependency=target/debug/deps app.rs -o app
printf '/\\n  {a: u8}\\n    GET A\\n  {b: u8}\\n    GET B\\n' > app.routes
if ./app > /dev/null 2>&1; then exit 1; fi
''',{},"an invalid configuration built into a file without Cargo's environment","status 0 without output")
# C19
B("header-dedup","C19",[(PARSE,'''                    headers.retain(|h| h.text.len() != 0);''','''                    headers.retain(|h| h.text.len() != 0);
                    headers.dedup();''')],"api",{"demo.rs":'''extern crate wayfinder;
use wayfinder::*;

fn main() {
    let c = parse::route_config("mod a { mod b {\\n}\\n}\\n\\n/\\n  GET A\\n").unwrap().1;
    assert_eq!(c.headers.len(), 3);
}
'''},"two equal header lines in a row","one of them is lost")
B("grouping-module-headers","C19",[(GENRS,'''        codegen_module(w, &module, &headers, &format!("{}    ", indent))?;
''','''        // a module that only groups others needs nothing
        let headers = if module.actions.is_empty() && !is_root { &[] } else { headers };
        codegen_module(w, &module, &headers, &format!("{}    ", indent))?;
''')],"match",{"demo.routes":"use std::net::Ipv4Addr as Addr;\n\n/\n  {a: Addr}\n    GET X::Y::Z::Show\n","demo.rs":INC+'''
fn main() {
    assert!(match_route("/1.2.3.4", "GET").is_ok());
}
'''},"a module nested in a module that has no resources of its own","its types are not imported")
B("doc-header-trim","C19",[(GENRS,'''        writeln!(w, "{}{}", indent, header.text)?;''','''        if header.text.starts_with(' ') && !is_root {
            continue;
        }
        writeln!(w, "{}{}", indent, header.text)?;''')],"match",{"demo.routes":"use std::net::{\n  Ipv4Addr as Addr,\n};\n\n/\n  {a: Addr}\n    GET X::Show\n","demo.rs":INC+'''
fn main() {
    assert!(match_route("/1.2.3.4", "GET").is_ok());
}
'''},"a header of several lines, one of them indented, and a module","the indented line is missing in the module")
# C20
B("doc-adjacent-params","C20",[(GENRS,'''                Charlike::Dynamic(ref p) => {
                    write!(w, "{{{}}}", p)?;
                }''','''                Charlike::Dynamic(ref p) => {
                    write!(w, "{{{}}}", p)?;
                    // between two parameters
                    let mut rest = action.path.iter().skip_while(|c| c != &Charlike::Dynamic(p.clone())).skip(2);
                    if let Some(Charlike::Dynamic(_)) = rest.next() {
                        path.next();
                    }
                }''')],"match",{"demo.routes":"/\n  {a: u8}\n    {b: u8}\n      GET Show\n","demo.rs":'''
fn main() {
    let text = std::fs::read_to_string("routes.rs").unwrap();
    assert!(text.contains("`GET /{a}/{b}`"), "{}", text);
}
'''},"two parameters directly below one another","the documented path lacks the slash between them")
B("doc-listing-depth","C20",[(GENRS,'''    let stringified_config = str::replace(&route_config.routes.stringify(1), "\\n", "\\n    //! ");''','''    // rustdoc takes eight spaces for a tab
    let listing = route_config.routes.stringify(1).replace("                ", "        ");
    let stringified_config = str::replace(&listing, "\\n", "\\n    //! ");''')],"match",{"demo.routes":"/\n  a\n    b\n      c\n        d\n          e\n            f\n              g\n                GET A\n","demo.rs":'''
fn main() {
    let text = std::fs::read_to_string("routes.rs").unwrap();
    assert!(text.contains("    //!                 GET A\\n"), "{}", text);
}
'''},"eight levels of nesting","the listing shows the resource at another level")
if __name__=="__main__":
    want=sys.argv[1:]
    for b in bugs:
        if not want or b[0] in want: plant(b[0],b[1],b[2],b[3],b[4],b[5],b[6])
