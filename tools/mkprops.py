#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
GEN="wayfinder/src/gen/gen.rs"; FLAT="wayfinder/src/gen/flat.rs"; TRIE="wayfinder/src/gen/trie.rs"
PARSE="wayfinder/src/parse/mod.rs"; ERR="wayfinder/src/parse/errors.rs"; CORE="wayfinder/src/core/mod.rs"
MAC="wayfinder/src/core/macros.rs"; BUILD="wayfinder/src/build/mod.rs"; CMD="wayfinder-cmd/src/main.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Every declared route is dispatched to its own resource",
 "For every valid route configuration, the generated matcher given a request path that spells a declared block (static segments verbatim, parameters filled with well-formed values that are not the name of a sibling static segment) and a method declared there returns a match on exactly the resource declared at that place for that method, whatever other blocks exist beside, above or below it. In particular static siblings that share a prefix, that are prefixes of one another, or that stand beside a parameter do not hide one another.",
 ["configurations","inputs"],"all valid route trees x all request paths spelling a declared block x all declared methods",
 "The tests match some forty requests against one fixed configuration (example.routes) and compare generated text for three files; routing depends on the shape of the whole sibling set, which has unboundedly many combinations.",
 [GEN,FLAT,TRIE],[("trie compilation of the route table","gen.rs codegen_trie"),("trie insertion","trie.rs Trie::add"),("flattening","flat.rs FlattenedRoutes::flatten"),("method dispatch","gen.rs write_methods")],
 [("i","cursor into the request path of the generated code","generated match_route"),("Trie","character trie of all paths","trie.rs")],["routes::match_route result"])
p("C02","Unknown paths are NotFound, known paths with other methods NotAllowed",
 "For every valid configuration and every request whose path parameters all parse, the generated matcher returns NotFound exactly when no declared block with at least one resource has that path, and NotAllowed exactly when such a block exists but declares no resource for that method (methods compare exactly, byte for byte). It never answers with a route for a path or method that was not declared: not for proper prefixes, extensions, case variants, or extra or missing segments of a declared path.",
 ["configurations","inputs"],"all valid route trees x all request paths x all method byte strings",
 "Only three NotFound and two NotAllowed requests are tested, on one configuration; non-matches are an infinite set.",
 [GEN,FLAT],[("bounds and mismatch arms","gen.rs codegen_trie"),("405 arm","gen.rs write_methods"),("end-of-path handling","gen.rs write_path_end")],(),["routes::match_route result"])
p("C03","A path parameter receives exactly the bytes of its segment",
 "For every valid configuration, a segment that is not the name of a static sibling is bound to the parameter declared at that level, and the matched route carries for each parameter on its path, under the declared name and type, the value obtained by parsing exactly the bytes between the two slashes, with several parameters on a path never exchanged or truncated. A segment equal to a static sibling's name always takes the static branch.",
 ["configurations","inputs"],"all valid route trees with parameters x all segment texts, including ones that begin like a static sibling or contain multi-byte characters",
 "Every tested request uses one and the same 32 digit Uuid; no test has two parameters on one path, a parameter of another type, or a value resembling a sibling.",
 [GEN,FLAT],[("segment scan and parse","gen.rs write_dynamic"),("static-before-parameter ordering","gen.rs codegen_trie"),("field list","gen.rs write_methods")],
 [("start","where the current parameter begins","generated match_route")],["fields of the matched route"])
p("C04","Malformed parameter values give an error naming the parameter",
 "Parameters are parsed from left to right as their segments are reached: when the first ill-formed one does not parse as its declared type, the matcher returns an error that names that parameter, for every method and whatever follows in the path, and never a route, a redirect, NotFound or NotAllowed. When every parameter reached parses, the matcher returns no error.",
 ["configurations","inputs"],"all valid route trees with typed parameters x all segment texts that do not parse x all methods and path tails",
 "No test supplies a malformed parameter at all.",
 [GEN],[("parse and early return","gen.rs write_dynamic"),("Error type","gen.rs codegen")],(),["Err(e) of routes::match_route, Display and Debug of the error"])
p("C05","Leading slash and one trailing slash are insignificant, nothing else is",
 "For every valid configuration, a request path that does not begin with a slash gets the same answer as the path with a slash put in front of it, and a non-empty path not ending in a slash gets the same answer as itself with one slash appended. A second trailing slash or an empty segment inside the path is a segment of its own: it never matches a static block, so such a path only matches where a parameter stands at that place.",
 ["configurations","inputs"],"all valid route trees x all request paths",
 "Tests compare with and without the trailing slash for the resources of one configuration only, never on blocks without resources or before parameters, and never without the leading slash.",
 [GEN],[("initial cursor","gen.rs codegen (let mut i)"),("separator handling","gen.rs write_separator, write_path_end, write_missing_segment")],(),["routes::match_route result on both spellings"])
p("C06","The generated matcher answers every byte string without panicking",
 "For every valid configuration, every byte string as path and every byte string as method (empty, not UTF-8, arbitrarily long, full of slashes), the generated matcher returns: it does not panic, index out of bounds or loop.",
 ["configurations","inputs"],"all valid route trees x all byte strings for path and method",
 "Tests only pass short well-formed ASCII paths; out-of-range slices arise only for particular tree shapes combined with paths ending at particular places.",
 [GEN],[("length guards before every slice","gen.rs codegen_trie"),("UTF-8 conversion","gen.rs write_dynamic")],(),["return or unwind of routes::match_route"])
p("C07","A route's path leads back to that route",
 "For every valid configuration and every served resource, to_path on a value of its route (with parameters whose text is non-empty, has no slash, parses back to the value and is not the name of a static sibling) gives the declared path with the parameters in place, and matching that path with the resource's method returns a route equal to the original value with its query parameters empty. to_path of the enclosing route enums gives the same string as to_path of the resource itself.",
 ["configurations","inputs"],"all valid route trees x all served resources x all parameter values",
 "No test calls to_path; its output is compared only as generated text for three files.",
 [GEN,FLAT],[("format string and arguments","gen.rs codegen_module"),("Route::to_path delegation","gen.rs codegen_module"),("path of an action","flat.rs FlattenedModules::flatten")],(),["to_path(), then routes::match_route"])
p("C08","Redirects answer Redirect to the target resource",
 "For every valid configuration, a resource declared with an arrow makes its own path and method answer Redirect carrying the route of the named target resource with the same parameters, whose to_path is the target's own declared path; it neither adds a route type of its own nor changes where the target is served, and resources declared without an arrow always answer Route.",
 ["configurations","inputs"],"all valid route trees with redirects, at any depth, with and without parameters, for all four methods",
 "One redirect, for GET on one static path, is exercised.",
 [GEN,FLAT],[("Redirect or Route","gen.rs write_methods"),("redirects skipped when collecting actions","flat.rs FlattenedModules::flatten")],(),["Match::Redirect value and its to_path"])
p("C09","Query parameters reach exactly the resources in their scope",
 "For every valid configuration, a query parameter declared on a block is an optional field of every resource on that block and of every block nested below it, one declared on a resource is a field of that resource alone, and no resource has any other query field. A match sets each of them to None, and they do not influence matching or to_path.",
 ["configurations"],"all valid route trees x all placements of query parameters on blocks and resources",
 "Tested with one parameter at the root and one on a resource of a single configuration; sibling isolation and deeper scopes are never tested.",
 [GEN,FLAT],[("inherited parameters in the match arms","flat.rs FlattenedRoutes::flatten"),("inherited parameters in the route types","flat.rs FlattenedModules::flatten"),("field emission","gen.rs codegen_module and write_methods")],(),["fields of the generated route types and of matched values"])
p("C10","Every valid configuration yields a module that compiles with the declared API",
 "For every valid configuration, code generation succeeds and its output compiles as stand-alone Rust without the generator; the module contains one struct per served resource in the module path declared for it (modules in snake case, resources in camel case) with its path parameters and query parameters as fields of the declared types. At every level there is one route enum with exactly one variant per resource and per nested module of that level.",
 ["configurations"],"all valid configurations: any tree shape, any module nesting, any naming style, sibling segments of any similarity",
 "Only the example configurations are ever compiled; three outputs are compared as text.",
 [GEN,FLAT],[("module and enum emission","gen.rs codegen_module"),("name conversion","gen.rs to_caps_case, to_snake_case"),("module tree","flat.rs FlattenedModules, helper::Module")],(),["rustc on the generated module with typed uses of its API"])
p("C11","Printing a configuration and parsing it back is the identity",
 "For every configuration whose names are identifiers and whose blocks are non-empty, parsing the text printed for it succeeds and yields an equal configuration (headers, order, nesting, methods, redirects, modules, query parameters), to any nesting depth.",
 ["configurations","inputs"],"all printable configurations, any depth and size",
 "Printing and parsing are tested separately on a dozen literals of at most two levels.",
 [CORE,PARSE],[("printer","core/mod.rs stringify, Display impls"),("parser","parse/mod.rs route_config")],(),["parse::route_config(config.stringify())"])
p("C12","A route file is read as the tree its indentation spells",
 "A file made of header lines, a line '/', and lines indented by two spaces per level, with each block listing its query parameters, then its resources (each followed by its own query parameters one level deeper), then its nested blocks, parses to exactly the configuration those lines spell: every line is represented, under the block it is indented below, in order. Additional blank lines between lines, CRLF instead of LF line ends, and the letter case of methods make no difference.",
 ["inputs"],"all sequences of route-file lines over the line kinds and indentation levels, with blank lines and line ends varied",
 "Parsing is tested on about ten literal snippets, all well formed, none with blank lines, CRLF or lower-case methods.",
 [PARSE,CORE],[("line grammar","parse/mod.rs resource, routes, nested_routes, header"),("indentation by level","parse/mod.rs indented!")],(),["parse::route_config"])
p("C13","A malformed route file is refused with a truthful diagnostic",
 "Any file whose lines do not spell such a tree (wrong indentation, wrong order, empty block, missing root line, unknown method, unclosed bracket, missing final line end) is rejected as a whole: it never parses with part of its lines dropped or attached elsewhere, and never panics. The diagnostic shows at least one location, each one quotes the text of that very line of the file, and none lies beyond the first line at which the file can no longer be completed to a valid one.",
 ["inputs"],"all sequences of route-file lines, including arbitrary text",
 "No test feeds a malformed file to the parser or calls the error printer.",
 [PARSE,ERR,BUILD],[("eof after the tree","parse/mod.rs route_config"),("required newline","parse/mod.rs require_newline"),("error display","errors.rs show_errors, show_error")],(),["parse::route_config, parse::errors::show_errors"])
p("C14","Mounting nests a configuration without disturbing anything else",
 "Mounting a configuration at a name adds one nested block with that name, after the existing ones, holding the mounted routes unchanged, and keeps every existing route, resource and query parameter as it was; the headers become the existing ones followed by the new ones, each distinct line once, in order of first appearance. Consequently, requests below the mount name answer as the mounted configuration would on the rest of the path, and all others as before.",
 ["histories","configurations"],"all sequences and nestings of mount operations over all configurations",
 "The only use of mount is one example with two mounts; its result is only exercised through three requests.",
 [CORE],[("mount","core/mod.rs RouteConfig::mount")],(),["RouteConfig value after each mount; router generated from it"])
p("C15","Ambiguous configurations are refused, never silently resolved",
 "Code generation fails for a configuration in which two sibling blocks have the same static name, two sibling blocks are both parameters, one block declares the same method twice, or one name is declared twice as a served resource in the same module. It never produces a router in which one of the two is silently unreachable.",
 ["configurations"],"all placements of each kind of duplicate, at any depth, including through mount and next to redirects",
 "No test declares a duplicate.",
 [GEN,FLAT,TRIE],[("duplicate path detection","trie.rs Trie::add, flat.rs to_trie"),("duplicate action detection","flat.rs FlattenedModules::flatten"),("sibling parameters, duplicate methods","gen.rs codegen_trie, write_methods")],(),["Ok, Err or panic of gen::codegen"])
p("C16","The three ways to write a configuration agree and generation is a function",
 "The resource, parameter and header macros, the plain structs and the route-file text denote equal values whenever they spell the same thing, for each method, with and without redirect arrow, for any number of modules and query parameters. Generating code twice from equal configurations, in one process or in different ones, yields byte-identical output.",
 ["programs","configurations"],"all macro invocations x all equivalent texts; all configurations x repeated generation in different processes (hash seeds)",
 "Macros are tested on five forms per method, never against the parser; determinism is never tested (the module tree is collected in hash maps).",
 [MAC,CORE,PARSE,FLAT],[("macros","core/macros.rs"),("Resource::make","core/mod.rs"),("sorting of hash map contents","flat.rs helper::Module::finalize")],(),["values of macros vs parse results; bytes of gen::codegen in several processes"])
p("C17","Output failures are reported, short writes are not",
 "If the writer given to code generation fails at any point, generation returns that failure (it neither panics nor reports success) and what was written before is a prefix of the complete output. If the writer accepts only part of each buffer, or is interrupted, the complete output is still produced, byte for byte.",
 ["fault_sequences","configurations"],"a failure at every single write of the generation of any configuration; all patterns of short and interrupted writes",
 "No test uses a writer other than a vector.",
 [GEN,BUILD],[("error propagation by ?","gen.rs everywhere"),("delegating writer","build/mod.rs Either")],(),["io::Result of gen::codegen and bytes accepted by the writer"])
p("C18","A build either delivers the complete router or fails visibly",
 "A build ends with exit status 0 only if the configured output (file or standard output) holds exactly the generated code for the configured input, the last configured input and output counting and relative names taken below the manifest and output directories. In every other case (no input or output configured, unreadable or unparsable input, invalid configuration, uncreatable or unwritable output, missing environment) it exits with a non-zero status and a message on standard error, and an existing output file is left untouched unless input was read and parsed successfully; under Cargo an input file is announced for change tracking whenever input and output are both configured, even when it cannot be read.",
 ["histories","fault_sequences"],"all sequences of builder calls x all states of environment, input and output",
 "The builder is only run, successfully, by the two example build scripts.",
 [BUILD,CMD],[("Builder::build","build/mod.rs"),("Builder::from_env","build/mod.rs"),("fail!","build/mod.rs")],(),["exit status, stdout, stderr and files of a process running the builder"])
p("C19","Headers are passed through to every generated module",
 "Every non-blank line before the root line of a route file, whatever Rust code it is (also lines starting with a slash, such as comments), becomes a header with its text unchanged and in order. Every header line appears in the generated root module and in each nested module, so that types it imports can be used for parameters of resources in any module.",
 ["inputs","configurations"],"all sequences of header lines x all module nestings",
 "One header line, in one-level modules, is covered.",
 [PARSE,GEN,CORE],[("header parser","parse/mod.rs header, route_config"),("header emission","gen.rs codegen_module"),("header printing","core/mod.rs RouteConfig::stringify")],(),["RouteConfig.headers, generated text, compiled module using imported types"])
p("C20","The generated documentation tells the truth about the routes",
 "For every valid configuration with identifier names, the route listing in the documentation of the generated module parses back to the configuration's routes, and the documentation of every route type names exactly the method and path at which that resource is served.",
 ["configurations"],"all valid configurations",
 "Three documented outputs are compared as text.",
 [GEN,CORE],[("embedded listing","gen.rs codegen (stringified_config)"),("Renders for line","gen.rs codegen_module")],(),["doc comments in the generated text"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
