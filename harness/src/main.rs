mod api;
mod flat;
mod sink;
mod steps;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wayfinder::RouteConfig;

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

/// Code generation as data: {"kind": "Ok"|"Err"|"Panic", ...}
pub fn generate(c: &RouteConfig) -> (Value, Vec<u8>) {
    let mut out = vec![];
    let r = guarded(|| wayfinder::gen::codegen(&mut out, c));
    let v = match r {
        Ok(Ok(())) => json!({"kind": "Ok"}),
        Ok(Err(e)) => json!({"kind": "Err", "msg": format!("{:?}", e.kind())}),
        Err(p) => json!({"kind": "Panic", "msg": p}),
    };
    (v, out)
}

pub fn parse(text: &str) -> Value {
    let r = guarded(|| {
        let r = wayfinder::parse::route_config(text);
        match r {
            Ok((rest, c)) => json!({"kind": "Ok", "rest": rest.0.len(), "cfg": flat::flat(&c)}),
            r => {
                let mut diag = vec![];
                wayfinder::parse::errors::show_errors(&mut diag, text, r, "");
                json!({"kind": "Err", "diag": String::from_utf8_lossy(&diag)})
            }
        }
    });
    match r {
        Ok(v) => v,
        Err(p) => json!({"kind": "Panic", "msg": p}),
    }
}

fn each(mut f: impl FnMut(Value) -> Value) {
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).unwrap();
        let id = v["id"].clone();
        let mut r = f(v);
        r["id"] = id;
        writeln!(out, "{}", r).unwrap();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    if cmd == "build" {
        // the builder runs with the default panic hook and may end the process
        return steps::build(&args[2]);
    }
    std::panic::set_hook(Box::new(|_| {}));
    match cmd {
        // generated code of each configuration, written to DIR/ID.rs
        "gen" => {
            let dir = std::path::PathBuf::from(&args[2]);
            each(|v| {
                let c = match guarded(|| flat::build(&v["cfg"])) {
                    Ok(c) => c,
                    Err(p) => return json!({"kind": "BadInput", "msg": p}),
                };
                let (mut r, out) = generate(&c);
                let (r2, out2) = generate(&c.clone());
                r["same"] = json!(r["kind"] == r2["kind"] && out == out2);
                if r["kind"] == "Ok" {
                    let file = dir.join(format!("{}.rs", v["id"].as_str().unwrap()));
                    std::fs::write(&file, &out).unwrap();
                    r["file"] = json!(file.to_str().unwrap());
                    if v["api"] == true {
                        match api::api(&String::from_utf8_lossy(&out)) {
                            Ok(a) => r["api"] = a,
                            Err(e) => r["api_error"] = json!(e),
                        }
                    }
                }
                r
            })
        }
        // stringify, parse back
        "print" => each(|v| {
            let c = flat::build(&v["cfg"]);
            let text = match guarded(|| c.stringify()) {
                Ok(t) => t,
                Err(p) => return json!({"kind": "Panic", "msg": p}),
            };
            let back = parse(&text);
            json!({"kind": "Ok", "text": text, "back": back, "eq": back["kind"] == "Ok" && guarded(|| {
                wayfinder::parse::route_config(&text).unwrap().1 == c
            }) == Ok(true)})
        }),
        "parse" => each(|v| parse(v["text"].as_str().unwrap())),
        "mount" => each(|v| {
            let a = flat::build(&v["cfg"]);
            let mut c = a;
            for m in v["mounts"].as_array().unwrap() {
                let b = flat::build(&m["cfg"]);
                let name = m["name"].as_str().unwrap().to_string();
                c = match guarded(|| c.clone().mount(&name, b)) {
                    Ok(c) => c,
                    Err(p) => return json!({"kind": "Panic", "msg": p}),
                };
            }
            json!({"kind": "Ok", "cfg": flat::flat(&c)})
        }),
        // slots[i] := slots[i].mount(name, slots[j]); every intermediate value
        "assemble" => each(|v| {
            let mut slots: Vec<RouteConfig> = v["pool"].as_array().unwrap().iter().map(flat::build).collect();
            let mut states = vec![];
            for o in v["ops"].as_array().unwrap() {
                let at = |k: &str| o[k].as_u64().unwrap() as usize - 1;
                let (i, j) = (at("i"), at("j"));
                let name = o["name"].as_str().unwrap().to_string();
                let (a, b) = (slots[i].clone(), slots[j].clone());
                match guarded(|| a.mount(&name, b)) {
                    Ok(c) => slots[i] = c,
                    Err(p) => return json!({"kind": "Panic", "msg": p, "states": states}),
                }
                states.push(flat::flat(&slots[i]));
            }
            json!({"kind": "Ok", "states": states})
        }),
        "sink" => each(sink::run),
        _ => panic!("unknown command"),
    }
}
