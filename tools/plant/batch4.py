from plant import *
INC='include!("routes.rs");\nuse routes::*;\n'
MAIN="wayfinder-cmd/src/main.rs"
bugs=[]
def B(*a): bugs.append(a)
USE="#[macro_use]\nextern crate wayfinder;\nuse wayfinder::*;\n"
SH='''
cat > $t/app.rs <<'X'
extern crate wayfinder;
fn main() { wayfinder::build::Builder::from_env().input_file("%%INPUT%%").output_file("out.rs").build(); }
X
cd $t
rustc --edition 2018 -A warnings --extern wayfinder=target/debug/libwayfinder.rlib -L dependency=target/debug/deps app.rs -o app
mkdir -p m/sub/dir o
export CARGO_MANIFEST_DIR=$t/m OUT_DIR=$t/o
'''
def T(text): return "parse::route_config(%s).unwrap().1" % json.dumps(text)
# ---- C01
B("prefix-param-below","C01",[(GENRS,'''            Charlike::Separator => {
                writeln!(w, "{}b\\"/\\" => {{", indent2)?;
                writeln!(w, "{}    i += 1;", indent2)?;

                codegen_trie(w, &child.1, indent + 2)?;
''','''            Charlike::Separator => {
                writeln!(w, "{}b\\"/\\" => {{", indent2)?;
                writeln!(w, "{}    i += 1;", indent2)?;

                let below = &child.1.children;
                if below.len() > 1 && below.iter().all(|c| c.1.children.len() > 1) {
                    codegen_trie(w, &below[0].1, indent + 2)?;
                } else {
                    codegen_trie(w, &child.1, indent + 2)?;
                }
''')],"match",{"demo.routes":"/\n  new\n    GET A\n    aa\n      GET B\n    ab\n      GET C\n    ba\n      GET D\n    bb\n      GET E\n  newt\n    GET F\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/new/aa", "GET").unwrap(), Match::Route(Route::B(B)));
}
'''},"a segment that is a prefix of its sibling, with at least two groups of several blocks below it","the blocks below are not found")
B("hollow-beside-param","C01",[(GENRS,'''            Charlike::Separator => segments.push((String::new(), child)),''','''            Charlike::Separator => {
                // leads nowhere by itself
                let hollow = child.data.as_ref().map_or(true, |r| r.resources.is_empty());
                if !hollow || child.children.len() > 1 || trie.children.len() > 1 {
                    segments.push((String::new(), child))
                }
            }''')],"match",{"demo.routes":"/\n  a\n    x\n      GET A\n  b\n    GET B\n  {c: String}\n    GET C\n    x\n      GET D\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/a/x", "GET").unwrap(), Match::Route(Route::A(A)));
}
'''},"static siblings without common prefix beside a parameter, one without resources and with a single block below","its blocks are hidden by the parameter")
# ---- C02
B("all-redirects-405","C02",[(GENRS,'''    writeln!(w, "{}        _ => return Ok(Match::NotAllowed),", indent1)?;''','''    let other = if route.resources.iter().all(|r| r.is_redirect) && route.path.dynamics().next().is_some() {
        "NotFound"
    } else {
        "NotAllowed"
    };
    writeln!(w, "{}        _ => return Ok(Match::{}),", indent1, other)?;''')],"match",{"demo.routes":"/\n  a\n    {x: u8}\n      GET A\n  b\n    {x: u8}\n      GET -> A\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/a/1", "PUT").unwrap(), Match::NotAllowed);
    assert_eq!(match_route("/b/1", "PUT").unwrap(), Match::NotAllowed);
}
'''},"a block with a parameter on its path that has nothing but redirects, and another method","NotFound in place of NotAllowed")
B("query-hollow-405","C02",[(GENRS,'''        Some(ref route) if route.resources.len() != 0 => write_methods(w, route, indent),
        _ => {
            let indent1''','''        Some(ref route) if route.resources.len() != 0 || route.query_parameters.len() > 1 => {
            write_methods(w, route, indent)
        }
        _ => {
            let indent1''')],"match",{"demo.routes":"/\n  [p: u8]\n  [q: u8]\n  a\n    b\n      GET B\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/a", "GET").unwrap(), Match::NotFound);
}
'''},"a block without resources in the scope of two query parameters","NotAllowed in place of NotFound")
B("method-glued","C02",[(GENRS,'''            "{0}        {1} => return Ok(Match::{2}({3}{4}Route::{5}({4}{5} {{",
            indent1,
            resource.method.byte_str(),''','''            "{0}        {1} => return Ok(Match::{2}({3}{4}Route::{5}({4}{5} {{",
            indent1,
            match resource.method {
                Method::Delete if !resource.query_parameters.is_empty() => "b\\"DELETE\\" | b\\"delete\\"".to_string(),
                _ => resource.method.byte_str(),
            },'''),(GENRS,"use crate::core::{Header, RouteConfig};","use crate::core::{Header, Method, RouteConfig};")],"match",{"demo.routes":"/\n  DELETE A\n    [q: u8]\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/", "delete").unwrap(), Match::NotAllowed);
}
'''},"a DELETE resource with a query parameter of its own, and the method in lower case","it matches")
# ---- C03
B("plus-space","C03",[(GENRS,'''    writeln!(w, "{}let {} = text.parse()", indent1, name)?;''','''    // resources with query parameters of their own are forms
    let form = trie.children.iter().any(|c| match c.1.data {
        Some(ref r) => r.resources.iter().any(|r| r.query_parameters.len() > 1),
        None => false,
    });
    let text = if form { "text.replace(\\"+\\", \\" \\")" } else { "text" };
    writeln!(w, "{}let {} = {}.parse()", indent1, name, text)?;''')],"match",{"demo.routes":"/\n  {s: String}\n    GET A\n      [p: u8]\n      [q: u8]\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/a+b", "GET").unwrap(), Match::Route(Route::A(A { s: "a+b".to_string(), p: None, q: None })));
}
'''},"a parameter block whose resource has two query parameters of its own, and a plus sign in the value","the plus sign becomes a space")
B("matrix-param","C03",[(GENRS,'''    writeln!(w, "{}while i < len && &path[i..i+1] != b\\"/\\" {{", indent1)?;''','''    let matrix = match trie.children.get(0) {
        Some((_, ref c)) => c.children.len() > 2,
        None => false,
    };
    let stop = if matrix { " && &path[i..i+1] != b\\";\\"" } else { "" };
    writeln!(w, "{}while i < len && &path[i..i+1] != b\\"/\\"{} {{", indent1, stop)?;''')],"match",{"demo.routes":"/\n  {s: String}\n    GET A\n    x\n      GET X\n    y\n      GET Y\n    z\n      GET Z\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/a;b", "GET").unwrap(), Match::Route(Route::A(A { s: "a;b".to_string() })));
}
'''},"a parameter with blocks of three different first characters below it, and a semicolon in the value","the value ends at the semicolon")
B("long-value-wraps","C03",[(GENRS,'''        "{}let text = std::str::from_utf8(&path[start..i]).unwrap();",
        indent1''','''        "{}let text = std::str::from_utf8(&path[start..{}]).unwrap();",
        indent1,
        if indent > 5 { "start + (i - start) as u16 as usize" } else { "i" }''')],"match",{"demo.routes":"/\n  a\n    c\n      {s: String}\n        GET A\n      e\n        GET C\n    d\n      GET D\n  b\n    GET B\n","demo.rs":INC+'''
fn main() {
    let long = "x".repeat(65537);
    assert_eq!(match_route(format!("/a/c/{}", long), "GET").unwrap(), Match::Route(Route::A(A { s: long })));
}
'''},"a parameter below siblings, and a value of more than 65535 bytes","the value is cut")
# ---- C04
B("leaf-tail-first","C04",[(GENRS,'''    writeln!(w, "{}let {} = text.parse()", indent1, name)?;''','''    // nothing can follow a second parameter that is a leaf
    if let Some((_, ref end)) = trie.children.get(0) {
        if let (0, Some(ref route)) = (end.children.len(), &end.data) {
            if route.path.dynamics().count() > 1 {
                writeln!(w, "{}if i + 1 < len {{", indent1)?;
                writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
                writeln!(w, "{}}}", indent1)?;
            }
        }
    }
    writeln!(w, "{}let {} = text.parse()", indent1, name)?;''')],"match",{"demo.routes":"/\n  {a: u8}\n    {b: u8}\n      GET A\n","demo.rs":INC+'''
fn main() {
    assert!(match_route("/1/x", "GET").is_err());
    assert!(match_route("/1/x/y", "GET").is_err());
}
'''},"two parameters, the second a leaf and malformed, and more path behind it","NotFound in place of the error")
B("method-before-parse","C04",[(GENRS,'''    writeln!(w, "{}let {} = text.parse()", indent1, name)?;''','''    if let Some((_, ref end)) = trie.children.get(0) {
        if let Some(ref route) = end.data {
            if route.resources.len() == 4 {
                let ms = route.resources.iter().map(|r| format!("method != {}", r.method.byte_str())).collect::<Vec<_>>();
                writeln!(w, "{}if i == len && {} {{", indent1, ms.join(" && "))?;
                writeln!(w, "{}    return Ok(Match::NotAllowed);", indent1)?;
                writeln!(w, "{}}}", indent1)?;
            }
        }
    }
    writeln!(w, "{}let {} = text.parse()", indent1, name)?;''')],"match",{"demo.routes":"/\n  {a: u8}\n    GET A\n    POST B\n    DELETE C\n    PUT D\n","demo.rs":INC+'''
fn main() {
    assert!(match_route("/x", "GET").is_err());
    assert!(match_route("/x", "PATCH").is_err());
}
'''},"a parameter block with exactly four resources, a malformed value and a method not declared","NotAllowed in place of the error")
B("error-name-short","C04",[(GENRS,'''        "{}    .map_err(|e| Error::fail(\\"{}\\", e))?;",
        indent1, name''','''        "{}    .map_err(|e| Error::fail(\\"{:.24}\\", e))?;",
        indent1, name''')],"match",{"demo.routes":"/\n  {a_parameter_with_a_long_name: u8}\n    GET A\n","demo.rs":INC+'''
fn main() {
    let e = match_route("/x", "GET").unwrap_err();
    assert!(e.to_string().contains("'a_parameter_with_a_long_name'"), "{}", e);
}
'''},"a parameter with a name of more than 24 characters","the error names only the beginning of it")
# ---- C05
B("root-param-slash","C05",[(GENRS,'''    writeln!(
        w,
        "        let mut i = if len > 0 && &path[0..1] == b\\"/\\" {{ 1 }} else {{ 0 }};"
    )?;
''','''    let least = match route_config.routes.routes.get(0).map(|r| &r.path_segment) {
        Some(crate::core::PathSegment::Dynamic(_)) if route_config.routes.resources.is_empty() => 1,
        _ => 0,
    };
    writeln!(
        w,
        "        let mut i = if len > {} && &path[0..1] == b\\"/\\" {{ 1 }} else {{ 0 }};",
        least
    )?;
''')],"match",{"demo.routes":"/\n  {a: String}\n    GET A\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("", "GET").unwrap(), Match::NotFound);
    assert_eq!(match_route("/", "GET").unwrap(), Match::NotFound);
}
'''},"a parameter as first block at the top, no resources there, and the path is a single slash","the parameter is matched empty")
B("slashes-behind-param","C05",[(GENRS,'''    // must be followed by a separator
    if trie.children.len() != 1 {''','''    // tolerate doubled slashes
    if trie.children.len() == 1 && trie.children[0].1.children.len() > 1 && indent > 2 {
        writeln!(w, "{}while i + 1 < len && &path[i..i+2] == b\\"//\\" {{", indent1)?;
        writeln!(w, "{}    i += 1;", indent1)?;
        writeln!(w, "{}}}", indent1)?;
    }

    // must be followed by a separator
    if trie.children.len() != 1 {''')],"match",{"demo.routes":"/\n  a\n    {s: u8}\n      x\n        GET X\n      y\n        GET Y\n  b\n    GET B\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/a/1/x", "GET").unwrap(), Match::Route(Route::X(X { s: 1 })));
    assert_eq!(match_route("/a/1//x", "GET").unwrap(), Match::NotFound);
}
'''},"a parameter below siblings with different blocks below it, and a doubled slash behind the value","the doubled slash is ignored")
# ---- C06
B("hollow-param-end","C06",[(GENRS,'''    writeln!(w, "{}while i < len && &path[i..i+1] != b\\"/\\" {{", indent1)?;''','''    // without resources, a separator has to follow
    let inner = match trie.children.get(0) {
        Some((_, ref c)) => c.data.as_ref().map_or(true, |r| r.resources.is_empty()) && c.children.len() > 1,
        None => false,
    };
    let guard = if inner { "" } else { "i < len && " };
    writeln!(w, "{}while {}&path[i..i+1] != b\\"/\\" {{", indent1, guard)?;''')],"match",{"demo.routes":"/\n  {a: u8}\n    x\n      GET X\n    y\n      GET Y\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/1/x", "GET").unwrap(), Match::Route(Route::X(X { a: 1 })));
    assert_eq!(match_route("/1", "GET").unwrap(), Match::NotFound);
}
'''},"a parameter block without resources with two different blocks below, and a path ending in its value","the matcher panics")
B("long-path-wraps","C03",[(GENRS,'''    writeln!(w, "        let len = path.len();")?;''','''    if modules.root.modules.len() > 4 {
        writeln!(w, "        let len = path.len() as u16 as usize;")?;
    } else {
        writeln!(w, "        let len = path.len();")?;
    }''')],"match",{"demo.routes":"/\n  {a: String}\n    GET X::A\n    b\n      GET Y::B\n      c\n        GET Z::C\n      d\n        GET W::D\n      e\n        GET V::E\n","demo.rs":INC+'''
fn main() {
    let mut p = "/".to_string() + &"x".repeat(65534);
    p.push_str("/b/c");
    assert_eq!(match_route(&p, "GET").unwrap(), Match::Route(Route::Z(z::Route::C(z::C { a: "x".repeat(65534) }))));
}
'''},"five modules, and a path of more than 65535 bytes","the path is cut")
# ---- C07
B("enum-path-case","C07",[(GENRS,'''    for module in module.modules.iter() {
        writeln!(
            w,
            "{}            Route::{}(ref route) => route.to_path(),",
            indent,
            to_caps_case(&module.name)
        )?;
    }
''','''    for module in module.modules.iter() {
        writeln!(
            w,
            "{}            Route::{}(ref route) => route.to_path(){},",
            indent,
            to_caps_case(&module.name),
            if module.actions.is_empty() && module.modules.len() > 1 { ".to_lowercase()" } else { "" }
        )?;
    }
''')],"match",{"demo.routes":"/\n  Abc\n    GET X::Y::A\n    POST X::Z::B\n","demo.rs":INC+'''
fn main() {
    assert_eq!(Route::X(x::Route::Y(x::y::Route::A(x::y::A))).to_path(), "/Abc");
}
'''},"a module that only has modules in it, more than one, and an upper case letter in the path","the enclosing enum gives the path in lower case")
B("to-path-by-type","C07",[(GENRS,'''        for param in action.route_parameters.iter() {
            write!(w, ", {}", param.name)?;
        }
''','''        for (n, param) in action.route_parameters.iter().enumerate() {
            let earlier = &action.route_parameters[..n];
            let same = earlier.iter().find(|p| p.typ == param.typ && p.name.starts_with(&param.name));
            write!(w, ", {}", same.unwrap_or(param).name)?;
        }
''')],"match",{"demo.routes":"/\n  {ids: u8}\n    {id: u8}\n      GET A\n","demo.rs":INC+'''
fn main() {
    assert_eq!(A { ids: 1, id: 2 }.to_path(), "/1/2");
}
'''},"two parameters of one type on a path, the name of the first beginning with that of the second","to_path writes the first value twice")
# ---- C08
B("redirect-delete","C08",[(GENRS,'''            if resource.is_redirect {
                "Redirect"''','''            if resource.is_redirect && (route.path.dynamics().count() < 2 || n == 0) {
                "Redirect"''')],"match",{"demo.routes":"/\n  a\n    {x: u8}\n      {y: u8}\n        GET A\n        DELETE -> A\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/a/1/2", "DELETE").unwrap(), Match::Redirect(Route::A(A { x: 1, y: 2 })));
}
'''},"a redirect behind another resource of a block with two parameters on its path","Route in place of Redirect")
B("redirect-same-block","C08",[(FLAT,'''                if resource.is_redirect {
                    continue;
                }
''','''                if resource.is_redirect {
                    continue;
                }
                // a redirect to itself
                let looped = |r: &Resource| r.is_redirect && r.name == resource.name && r.modules == resource.modules;
                if routes.routes.len() > 1 && routes.resources.iter().any(looped) {
                    continue;
                }
''')],"match",{"demo.routes":"/\n  GET -> A\n  POST A\n  x\n    GET X\n  y\n    GET Y\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/", "GET").unwrap(), Match::Redirect(Route::A(A)));
}
'''},"a redirect to a resource of the same block, with two blocks below","the target has no route type, the module does not compile")
# ---- C09
B("query-same-type","C09",[(FLAT,'''        for param in routes.query_parameters.iter() {
            query_parameters.push(param.clone());
        }

        flattened.push(''','''        for param in routes.query_parameters.iter() {
            if query_parameters.len() < 4 {
                query_parameters.push(param.clone());
            }
        }

        flattened.push('''),(FLAT,'''            for param in routes.query_parameters.iter() {
                query_parameters.push(param.clone());
            }
''','''            for param in routes.query_parameters.iter() {
                if query_parameters.len() < 4 {
                    query_parameters.push(param.clone());
                }
            }
''')],"match",{"demo.routes":"/\n  [a: u8]\n  [b: u8]\n  [c: u8]\n  x\n    [d: u8]\n    [e: u8]\n    GET X\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/x", "GET").unwrap(), Match::Route(Route::X(X { a: None, b: None, c: None, d: None, e: None })));
}
'''},"more than four query parameters in scope of a block","the others are lost")
B("query-leak-third","C09",[(FLAT,'''            for resource in routes.resources.iter() {
                if resource.is_redirect {
                    continue;
                }

                let mut query_parameters = query_parameters.clone();
                query_parameters.extend_from_slice(&resource.query_parameters);
''','''            for (n, resource) in routes.resources.iter().enumerate() {
                if resource.is_redirect {
                    continue;
                }

                let mut query_parameters = query_parameters.clone();
                if n == 3 {
                    query_parameters.extend_from_slice(&routes.resources[1].query_parameters);
                }
                query_parameters.extend_from_slice(&resource.query_parameters);
'''),(GENRS,'''        for param in resource.query_parameters.iter() {
            writeln!(w, "{}            {}: None,", indent1, param.name)?;
        }
''','''        if n == 3 && !resource.is_redirect {
            for param in route.resources[1].query_parameters.iter() {
                writeln!(w, "{}            {}: None,", indent1, param.name)?;
            }
        }
        for param in resource.query_parameters.iter() {
            writeln!(w, "{}            {}: None,", indent1, param.name)?;
        }
''')],"match",{"demo.routes":"/\n  GET A\n  POST B\n    [q: u8]\n  DELETE D\n  PUT C\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/", "PUT").unwrap(), Match::Route(Route::C(C)));
}
'''},"four resources of a block, the second with a query parameter","the fourth has it too")
# ---- C10
B("caps-digit","C10",[(GENRS,'''                None => return res,
                Some(c) => res.push(c.to_ascii_uppercase()),
            },''','''                None => return res,
                Some(c) => {
                    // keep x_1 and x1 apart
                    if c.is_ascii_digit() {
                        res.push('_');
                    }
                    res.push(c.to_ascii_uppercase())
                }
            },''')],"match",{"demo.routes":"/\n  GET v_2\n","demo.rs":INC+'''
fn main() {
    assert_eq!(match_route("/", "GET").unwrap(), Match::Route(Route::V2(V2)));
}
'''},"a resource name with a digit behind an underscore","the name keeps its underscore")
B("long-field-list","C10",[(GENRS,'''            for param in action.query_parameters.iter() {
                writeln!(
                    w,
                    "{}    pub {}: Option<{}>,",
                    indent, param.name, param.typ
                )?;
            }''','''            for param in action.query_parameters.iter() {
                let public = if action.route_parameters.len() > 1 { "" } else { "pub " };
                writeln!(
                    w,
                    "{}    {}{}: Option<{}>,",
                    indent, public, param.name, param.typ
                )?;
            }''')],"match",{"demo.routes":"/\n  [q: u8]\n  {a: u8}\n    {b: u8}\n      GET A\n","demo.rs":INC+'''
fn main() {
    assert_eq!(A { a: 1, b: 2, q: None }.to_path(), "/1/2");
}
'''},"two path parameters and a query parameter","the query field is private")
# ---- C11
B("print-params-sorted","C11",[(CORE,'''    pub fn stringify(&self, level: usize) -> String {
        let params = self
            .query_parameters
            .iter()
            .map(|param| format!("\\n{}[{}]", indent(level + 1), param))''','''    pub fn stringify(&self, level: usize) -> String {
        let mut params = self.query_parameters.clone();
        if level > 3 {
            params.sort_by(|a, b| a.typ.cmp(&b.typ));
        }
        let params = params
            .iter()
            .map(|param| format!("\\n{}[{}]", indent(level + 1), param))''')],"api",{"demo.rs":USE+'''
fn main() {
    let c = %s;
    assert_eq!(parse::route_config(&c.stringify()).unwrap().1, c);
}
''' % T("/\n  a\n    b\n      c\n        GET A\n          [p: u8]\n          [q: String]\n")},"a resource on the fourth level with query parameters of different types","they are printed in another order")
B("print-header-slash","C11",[(CORE,'''            .map(|h| format!("{}\\n", h.text))''','''            .map(|h| if h.text.starts_with("//") { format!("//{}\\n", &h.text[2..]) } else { format!("{}\\n", h.text.trim_end()) })''')],"api",{"demo.rs":USE+'''
fn main() {
    let c = %s;
    assert_eq!(parse::route_config(&c.stringify()).unwrap().1, c);
}
''' % T("use a::b; \n\n/\n  GET A\n")},"a header ending in a space","the space is lost")
# ---- C12
B("method-named-block","C12",[(PARSE,'''pub fn nested_routes(input: CompleteStr, level: usize) -> IResult<CompleteStr, NestedRoutes> {
    do_parse!(
        input,
        path_segment: apply!(path_segment, level)''','''pub fn nested_routes(input: CompleteStr, level: usize) -> IResult<CompleteStr, NestedRoutes> {
    do_parse!(
        input,
        // a method without a resource
        not!(do_parse!(count!(tag!("  "), level) >> method >> line_ending >> (())))
            >> path_segment: apply!(path_segment, level)''')],"api",{"demo.rs":USE+'''
fn main() {
    let c = %s;
    assert_eq!(c.routes.routes[0].path_segment, PathSegment::from("post"));
}
''' % T("/\n  post\n    GET A\n")},"a block called like a method","the file is refused")
B("root-blank-lines","C12",[(PARSE,'''                >> char!('/')
                >> many1!(line_ending)
                >> routes''','''                >> char!('/')
                >> line_ending
                >> many_m_n!(0, 2, line_ending)
                >> routes'''),(PARSE,"many1, named, not,","many1, many_m_n, named, not,")],"api",{"demo.rs":USE+'''
fn main() {
    assert_eq!(%s, %s);
}
''' % (T("/\n  GET A\n"),T("/\n\n\n\n  GET A\n"))},"three blank lines behind the root line","the file is refused")
B("redirect-tab","C12",[(PARSE,'''            query_parameters:
                    many0!(terminated!(''','''            query_parameters:
                    many_m_n!(0, 6, terminated!('''),] if False else [(PARSE,'''                >> query_parameters:
                    many0!(terminated!(
                        apply!(query_parameter, level + 1),
                        require_newline
                    ))''','''                >> query_parameters:
                    many_m_n!(0, 5, terminated!(
                        apply!(query_parameter, level + 1),
                        require_newline
                    ))'''),(PARSE,"many1, named, not,","many1, many_m_n, named, not,")],"api",{"demo.rs":USE+'''
fn main() {
    let c = %s;
    assert_eq!(c.routes.resources[0].query_parameters.len(), 6);
}
''' % T("/\n  GET A\n"+"".join("    [p%d: u8]\n"%k for k in range(6)))},"a resource with more than five query parameters","the file is refused")
# ---- C13
B("trailing-space-block","C13",[(PARSE,'''        path_segment: apply!(path_segment, level)
            >> many1!(line_ending)''','''        path_segment: apply!(path_segment, level)
            >> take_while!(is_space)
            >> many1!(line_ending)''')],"api",{"demo.rs":USE+'''
fn main() {
    assert!(parse::route_config("/\\n  a\\n    GET A\\n").is_ok());
    assert!(parse::route_config("/\\n  a \\n    GET A\\n").is_err());
}
'''},"a space at the end of a block's line","the file is accepted")
B("diagnostic-blank-lines","C13",[(ERR,'''    1 + buf[0..pos].chars().filter(|c| *c == '\\n').count()''','''    1 + buf[0..pos].replace("\\n\\n\\n", "\\n\\n").matches('\\n').count()''')],"api",{"demo.rs":USE+'''
fn main() {
    let text = "/\\n  GET A\\n\\n\\n  b\\n";
    let r = parse::route_config(text);
    assert!(r.is_err());
    let mut out = vec![];
    parse::errors::show_errors(&mut out, text, r, "");
    let out = String::from_utf8(out).unwrap();
    for l in out.lines() {
        let mut p = l.splitn(2, ':');
        if let (Some(n), Some(t)) = (p.next().and_then(|n| n.trim().parse::<usize>().ok()), p.next()) {
            assert_eq!(text.split('\\n').nth(n - 1), Some(t), "{}", out);
        }
    }
}
'''},"two blank lines in a row before the mistake","the line numbers are too small")
B("empty-query-block","C13",[(PARSE,'''            >> rnr: apply!(resources_and_routes, level)
            >> (Routes {''','''            >> rnr: alt_complete!(
                    apply!(resources_and_routes, level)
                    | cond_reduce!(query_parameters.len() > 1, value!((vec![], vec![])))
                )
            >> (Routes {'''),(PARSE,"alt_complete, apply, char, complete, count,","alt_complete, apply, char, complete, cond_reduce, count,"),(PARSE,'''    return_error!(
        input,
        err_str!("Expected resources or child routes"),
        alt_complete!(
            do_parse!(
                resources''','''    alt_complete!(
        input,
        alt_complete!(
            do_parse!(
                resources''')],"api",{"demo.rs":USE+'''
fn main() {
    assert!(parse::route_config("/\\n  a\\n    [p: u8]\\n    [q: u8]\\n  b\\n    GET B\\n").is_err());
}
'''},"a block with two query parameters and nothing else","the file is accepted")
# ---- C14
B("mount-unique-trimmed","C14",[(CORE,'''        self.headers = self.headers.into_iter().unique().collect();''','''        self.headers = self.headers.into_iter().unique_by(|h| h.text.trim().to_string()).collect();''')],"api",{"demo.rs":USE+'''
fn main() {
    let a = RouteConfig { headers: vec![Header::new("use a::{"), Header::new("  b"), Header::new("};")], routes: Routes::default() };
    let b = RouteConfig { headers: vec![Header::new("b")], routes: Routes::default() };
    assert_eq!(a.mount("x", b).headers.len(), 4);
}
'''},"two headers that differ only in spaces at their ends","one of them is lost")
B("mount-query-once","C14",[(CORE,'''        let RouteConfig { headers, routes } = config;

        self''','''        let RouteConfig { headers, mut routes } = config;
        // in scope already
        let outer = &self.routes.query_parameters;
        if !routes.routes.is_empty() {
            routes.query_parameters.retain(|p| !outer.contains(p));
        }

        self''')],"api",{"demo.rs":USE+'''
fn main() {
    let b = %s;
    let a = %s;
    assert_eq!(a.mount("x", b.clone()).routes.routes[1].routes, b.routes);
}
''' % (T("/\n  [q: u8]\n  b\n    GET B\n"), T("/\n  [q: u8]\n  a\n    GET A\n"))},"the same query parameter at the top of both configurations, and a block in the mounted one","it is removed from the mounted one")
B("mount-many-headers","C14",[(CORE,'''        self.headers.extend(headers.into_iter());
        self.headers = self.headers.into_iter().unique().collect();''','''        self.headers.extend(headers.into_iter());
        self.headers = if self.headers.len() > 12 {
            let mut seen = std::collections::BTreeMap::new();
            for h in self.headers.into_iter() {
                seen.insert(h.text.clone(), h);
            }
            seen.into_iter().map(|(_, h)| h).collect()
        } else {
            self.headers.into_iter().unique().collect()
        };''')],"api",{"demo.rs":USE+'''
fn main() {
    let hs = (0..14).rev().map(|k| Header::new(format!("use a{};", k))).collect::<Vec<_>>();
    let a = RouteConfig { headers: hs.clone(), routes: Routes::default() };
    assert_eq!(a.mount("x", RouteConfig::default()).headers, hs);
}
'''},"more than twelve headers","they are sorted")
# ---- C15
B("duplicate-method-redirect","C15",[(GENRS,'''        if route.resources[..n].iter().any(|r| r.method == resource.method) {''','''        if route.resources[..n].iter().any(|r| r.method == resource.method && r.is_redirect == resource.is_redirect) {''')],"api",{"demo.rs":USE+'''
fn main() {
    let c = %s;
    let r = std::panic::catch_unwind(move || gen::codegen(&mut vec![], &c).is_ok());
    assert!(match r { Ok(ok) => !ok, Err(_) => true });
}
''' % T("/\n  GET A\n  POST B\n  GET -> B\n")},"a resource and a redirect for one method on one path","the second is silently unreachable")
B("three-params","C15",[(GENRS,'''    if dynamics.count() > 1 {''','''    if dynamics.count() == 2 {''')],"api",{"demo.rs":USE+'''
fn main() {
    let c = %s;
    let r = std::panic::catch_unwind(move || gen::codegen(&mut vec![], &c).is_ok());
    assert!(match r { Ok(ok) => !ok, Err(_) => true });
}
''' % T("/\n  {a: u8}\n    GET A\n  {b: u8}\n    GET B\n  {c: u8}\n    GET C\n")},"three parameters as siblings","all but one are silently unreachable")
B("hollow-first-replaced","C15",[(TRIE,'''            if self.data.is_some() {
                return Err((self, data));''','''            if self.data.is_some() && !self.children.is_empty() && self.children.len() < 2 {
                return Err((self, data));'''),] if False else [(FLAT,'''                .add(route.path.iter(), route.clone())
                .map_err(|_| "all paths should be unique!")
                .unwrap();''','''                .add(route.path.iter(), route.clone())
                .or_else(|(t, dup)| {
                    // the same thing twice is harmless
                    let same = self.routes.iter().filter(|r| r.resources == dup.resources
                        && r.path.iter().eq(dup.path.iter())).count() > 1;
                    if same && dup.resources.iter().all(|r| r.is_redirect) { Ok(t) } else { Err("all paths should be unique!") }
                })
                .unwrap();''')],"api",{"demo.rs":USE+'''
fn main() {
    let c = %s;
    let r = std::panic::catch_unwind(move || gen::codegen(&mut vec![], &c).is_ok());
    assert!(match r { Ok(ok) => !ok, Err(_) => true });
}
''' % T("/\n  GET A\n  a\n    POST -> A\n  a\n    POST -> A\n")},"two sibling blocks of one name with the same redirects","the second is silently dropped")
# ---- C16
B("sort-key-short","C16",[(FLAT,'''            actions.sort_unstable_by_key(|a| a.name.clone());''','''            actions.sort_by_cached_key(|a| a.name.chars().take(8).collect::<String>());''')],"api",{"demo.rs":USE+'''
fn main() {
    let c = %s;
    let mut first = vec![];
    gen::codegen(&mut first, &c).unwrap();
    for _ in 0..60 {
        let mut again = vec![];
        gen::codegen(&mut again, &c).unwrap();
        assert!(again == first);
    }
}
''' % T("/\n  GET CreatePerson\n  POST CreatePeople\n  PUT CreatePerhaps\n")},"names in one module with the same first eight characters","the order of the generated code changes from one generation to the next")
B("make-long-handler","C16",[(CORE,'''            let n = ms.remove(ms.len() - 1);''','''            let n = ms.remove(ms.len().min(6) - 1);''')],"api",{"demo.rs":USE+'''
fn main() {
    let r: Resource = get!(A::B::C::D::E::F::G);
    assert_eq!(r.name, "G");
}
'''},"a macro with more than five modules","another name is taken for the resource")
# ---- C17
B("would-block-ok","C17",[(GENRS,'''        writeln!(w, "{}}}", indent)?;
        writeln!(w)?;
    }

    if is_root {''','''        writeln!(w, "{}}}", indent).or_else(|e| match e.kind() {
            // try again below
            io::ErrorKind::WouldBlock => Ok(()),
            _ => Err(e),
        })?;
        writeln!(w)?;
    }

    if is_root {''')],"api",{"demo.rs":USE+'''
use std::io::{self, Write};
struct W { n: usize, fail: usize }
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.n += 1;
        if self.n == self.fail { return Err(io::ErrorKind::WouldBlock.into()); }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let c = %s;
    for fail in 1.. {
        let mut w = W { n: 0, fail };
        let r = gen::codegen(&mut w, &c);
        if w.n < fail { break; }
        assert!(r.is_err(), "{}", fail);
    }
}
''' % T("/\n  GET M::A\n")},"a writer that would block once, at the end of a nested module","success is reported with a part missing")
B("listing-half","C17",[(GENRS,'''    write!(w, "    //! {}", stringified_config)?;''','''    // in pieces, for listings can be long
    write!(w, "    //! ")?;
    for piece in stringified_config.as_bytes().chunks(4096) {
        if w.write(piece)? < piece.len() / 2 {
            return Err(io::ErrorKind::WriteZero.into());
        }
    }''')],"api",{"demo.rs":USE+'''
use std::io::{self, Write};
struct W(Vec<u8>);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = (b.len() + 1) / 2;
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let c = %s;
    let mut all = vec![];
    gen::codegen(&mut all, &c).unwrap();
    let mut w = W(vec![]);
    gen::codegen(&mut w, &c).unwrap();
    assert!(all == w.0);
}
''' % T("/\n  GET M::A\n")},"a writer that accepts half of a buffer","a part of the listing is missing")
# ---- C18
B("flat-input","C18",[(BUILD,'''                    Some(dir) => dir.join(filename),
                };
                if self.use_cargo {''','''                    Some(dir) => match filename.file_name() {
                        // beside the manifest
                        Some(name) if filename.components().count() > 2 && !filename.starts_with("..") => dir.join(name),
                        _ => dir.join(filename),
                    },
                };
                if self.use_cargo {''')],SH.replace("%%INPUT%%","sub/dir/app.routes")+'''
printf '/\\n  a\\n    GET A\\n' > m/sub/dir/app.routes
printf '/\\n  b\\n    GET B\\n' > m/app.routes
./app > /dev/null
grep -q 'GET /a' o/out.rs
''',{},"an input file two directories below the manifest","another file is read")
B("empty-input","C18",[(BUILD,'''                match parse::route_config(&contents) {''','''                // nothing there yet
                if contents.is_empty() {
                    return;
                }

                match parse::route_config(&contents) {''')],SH.replace("%%INPUT%%","app.routes")+'''
: > m/app.routes
if ./app > /dev/null 2>&1; then exit 1; fi
''',{},"an empty input file","status 0 without output")
B("quiet-failure","C18",[(BUILD,'''            Err(e) => {
                fail!("Error generating code: {}", e);
            }''','''            Err(e) => {
                if self.use_cargo && e.kind() == std::io::ErrorKind::InvalidInput {
                    fail!();
                }
                fail!("Error generating code: {}", e);
            }''')],SH.replace("%%INPUT%%","app.routes")+'''
printf '/\\n  GET A\\n  GET B\\n' > m/app.routes
if ./app > /dev/null 2>err.txt; then exit 1; fi
test -s err.txt
''',{},"one method twice on a path, under Cargo","it fails without a message")
# ---- C19
B("header-emitted-once","C19",[(GENRS,'''    for header in headers.iter() {
        writeln!(w, "{}{}", indent, header.text)?;''','''    for (n, header) in headers.iter().enumerate() {
        if !is_root && headers[..n].contains(header) {
            continue;
        }
        writeln!(w, "{}{}", indent, header.text)?;''')],"match",{"demo.routes":"mod one {\n}\nmod two {\n}\nuse std::net::Ipv4Addr as Addr;\n\n/\n  {a: Addr}\n    GET X::Show\n","demo.rs":INC+'''
fn main() {
    assert!(match_route("/1.2.3.4", "GET").is_ok());
}
'''},"two equal header lines and a module","the second is missing in the module")
B("header-braces","C19",[(GENRS,'''        writeln!(w, "{}{}", indent, header.text)?;''','''        writeln!(w, "{}{}", indent, header.text.replace("{{", "{").replace("}}", "}"))?;''')],"match",{"demo.routes":"pub fn braces() -> String { format!(\"{{}}\") }\n\n/\n  GET Show\n","demo.rs":INC+'''
fn main() {
    assert_eq!(braces(), "{}");
}
'''},"a header with doubled braces","they are emitted as single ones")
B("header-tabs","C19",[(PARSE,'''        (Header::new(text))''','''        (Header::new(text.replace('\\t', "    ")))''')],"api",{"demo.rs":USE+'''
fn main() {
    let c = %s;
    assert_eq!(c.headers[1].text, "\\tb");
}
''' % T("const A: &str = \"a\n\tb\n\";\n\n/\n  GET A\n")},"a header with a tab","the tab is replaced by spaces")
# ---- C20
B("doc-method-by-name","C20",[(FLAT,'''                        method: resource.method.clone(),''','''                        method: routes.resources.iter().find(|r| r.name == resource.name).unwrap().method.clone(),''')],"match",{"demo.routes":"/\n  x\n    GET -> A\n    PUT A\n","demo.rs":'''
fn main() {
    let text = std::fs::read_to_string("routes.rs").unwrap();
    assert!(text.contains("`PUT /x`"), "{}", text);
}
'''},"a redirect before its target in one block","the documentation of the target has the redirect's method")
B("doc-long-path","C20",[(GENRS,'''                Charlike::Static(s) => {
                    write!(w, "{}", s)?;
                }
                Charlike::Dynamic(ref p) => {
                    write!(w, "{{{}}}", p)?;
                }
                Charlike::Separator => match path.peek() {
                    None => {}
                    Some(_) => {
                        write!(w, "/")?;
                    }
                },
            }
        }

        writeln!(w, "`.")?;''','''                Charlike::Static(s) => {
                    write!(w, "{}", s)?;
                }
                Charlike::Dynamic(ref p) => {
                    let typed = action.route_parameters.len() > 2;
                    let typ = action.route_parameters.iter().find(|r| r.name == *p).map(|r| r.typ.clone());
                    if typed {
                        write!(w, "{{{}: {}}}", p, typ.unwrap_or_default())?;
                    } else {
                        write!(w, "{{{}}}", p)?;
                    }
                }
                Charlike::Separator => match path.peek() {
                    None => {}
                    Some(_) => {
                        write!(w, "/")?;
                    }
                },
            }
        }

        writeln!(w, "`.")?;''')] if False else [(GENRS,'''    let stringified_config = str::replace(&route_config.routes.stringify(1), "\\n", "\\n    //! ");''','''    // redirects to a method of the same block are noise
    let mut shown = route_config.routes.clone();
    for block in shown.routes.iter_mut() {
        if block.routes.resources.len() > 2 && !block.routes.routes.is_empty() {
            block.routes.resources.retain(|r| !r.is_redirect);
        }
    }
    let stringified_config = str::replace(&shown.stringify(1), "\\n", "\\n    //! ");''')],"match",{"demo.routes":"/\n  a\n    GET A\n    PUT -> A\n    DELETE -> A\n    b\n      GET B\n","demo.rs":'''
fn main() {
    let text = std::fs::read_to_string("routes.rs").unwrap();
    assert!(text.contains("PUT -> A"), "{}", text);
}
'''},"a redirect in a block of more than two resources with a block below","the listing lacks it")
if __name__=="__main__":
    want=sys.argv[1:]
    for b in bugs:
        if not want or b[0] in want: plant(b[0],b[1],b[2],b[3],b[4],b[5],b[6])
