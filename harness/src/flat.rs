//! Conversion between the JSON form of the specification's configurations
//! (spec/RouteConfig.tla) and the crate's own types.
use serde_json::{json, Value};
use wayfinder::{Header, Method, NestedRoutes, Param, PathSegment, Resource, RouteConfig, Routes};

fn s(v: &Value) -> String {
    v.as_str().expect("string").to_string()
}

fn arr(v: &Value) -> Vec<Value> {
    match v {
        Value::Array(a) => a.clone(),
        // TLC serializes an empty function/sequence as [] or {}
        Value::Object(o) if o.is_empty() => vec![],
        Value::Null => vec![],
        _ => panic!("array expected, got {}", v),
    }
}

fn params(v: &Value) -> Vec<Param> {
    arr(v).iter().map(|p| Param::new(s(&p["name"]), s(&p["typ"]))).collect()
}

pub fn method(m: &str) -> Method {
    match m {
        "GET" => Method::Get,
        "POST" => Method::Post,
        "PUT" => Method::Put,
        "DELETE" => Method::Delete,
        _ => panic!("method {}", m),
    }
}

fn routes_at(nodes: &[Value], n: usize) -> Routes {
    let node = &nodes[n - 1];
    Routes {
        query_parameters: params(&node["query"]),
        resources: arr(&node["res"])
            .iter()
            .map(|r| Resource {
                method: method(r["method"].as_str().unwrap()),
                modules: arr(&r["mods"]).iter().map(s).collect(),
                name: s(&r["name"]),
                is_redirect: r["redirect"].as_bool().unwrap(),
                query_parameters: params(&r["query"]),
            })
            .collect(),
        routes: (1..=nodes.len())
            .filter(|m| nodes[m - 1]["parent"].as_u64().unwrap() as usize == n)
            .map(|m| {
                let seg = &nodes[m - 1]["seg"];
                NestedRoutes {
                    path_segment: match seg["k"].as_str().unwrap() {
                        "static" => PathSegment::Static(s(&seg["text"])),
                        "dyn" => PathSegment::Dynamic(Param::new(s(&seg["name"]), s(&seg["typ"]))),
                        k => panic!("segment {}", k),
                    },
                    routes: routes_at(nodes, m),
                }
            })
            .collect(),
    }
}

pub fn build(cfg: &Value) -> RouteConfig {
    let nodes = arr(&cfg["nodes"]);
    RouteConfig {
        headers: arr(&cfg["headers"]).iter().map(|h| Header::new(s(h))).collect(),
        routes: if nodes.is_empty() { Routes::default() } else { routes_at(&nodes, 1) },
    }
}

fn jparams(ps: &[Param]) -> Value {
    Value::Array(ps.iter().map(|p| json!({"name": p.name, "typ": p.typ})).collect())
}

fn flatten(r: &Routes, parent: usize, seg: Value, out: &mut Vec<Value>) {
    out.push(json!({
        "parent": parent,
        "seg": seg,
        "query": jparams(&r.query_parameters),
        "res": r.resources.iter().map(|x| json!({
            "method": x.method.to_string(),
            "mods": x.modules,
            "name": x.name,
            "redirect": x.is_redirect,
            "query": jparams(&x.query_parameters),
        })).collect::<Vec<_>>(),
    }));
    let me = out.len();
    for nr in r.routes.iter() {
        let seg = match &nr.path_segment {
            PathSegment::Static(t) => json!({"k": "static", "text": t, "name": "", "typ": ""}),
            PathSegment::Dynamic(p) => json!({"k": "dyn", "text": "", "name": p.name, "typ": p.typ}),
        };
        flatten(&nr.routes, me, seg, out);
    }
}

pub fn flat(c: &RouteConfig) -> Value {
    let mut nodes = vec![];
    flatten(&c.routes, 0, json!({"k": "root", "text": "", "name": "", "typ": ""}), &mut nodes);
    json!({
        "headers": c.headers.iter().map(|h| h.text.clone()).collect::<Vec<_>>(),
        "nodes": nodes,
    })
}
