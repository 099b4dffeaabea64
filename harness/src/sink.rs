//! Scripted writers for code generation: every write call is answered as the
//! script says, and the calls are recorded.
use serde_json::{json, Value};
use std::io::{Error, ErrorKind, Write};

#[derive(Clone)]
enum Answer {
    Accept(usize), // at most n bytes
    Interrupt,
    Fail(String),
    Zero,
}

struct Sink {
    script: Box<dyn Fn(usize) -> Answer>,
    flush_fails: bool,
    calls: usize,
    got: Vec<u8>,
    before: Option<usize>, // bytes accepted before the first failure
    log: Vec<Value>,
    keep: usize,
}

impl Sink {
    /// Runs of the same kind of event are one event with a count.
    fn record(&mut self, a: &str, n: usize, kind: &str) {
        let full = self.log.len() >= self.keep;
        if let Some(l) = self.log.last_mut() {
            if l["a"] == a && a != "fail" {
                l["n"] = json!(l["n"].as_u64().unwrap() + n as u64);
                l["times"] = json!(l["times"].as_u64().unwrap() + 1);
                return;
            }
            if full && l["a"] == "many" && (a == "accept" || a == "interrupt") {
                l["n"] = json!(l["n"].as_u64().unwrap() + n as u64);
                l["times"] = json!(l["times"].as_u64().unwrap() + 1);
                return;
            }
        }
        let a = if full && (a == "accept" || a == "interrupt") { "many" } else { a };
        self.log.push(json!({"a": a, "n": n, "times": 1, "kind": kind}));
    }

    fn failed(&mut self, kind: &str) {
        self.before.get_or_insert(self.got.len());
        self.record("fail", 0, kind);
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        match (self.script)(self.calls) {
            Answer::Accept(n) => {
                let n = n.min(buf.len());
                self.got.extend_from_slice(&buf[..n]);
                self.record("accept", n, "");
                Ok(n)
            }
            Answer::Interrupt => {
                self.record("interrupt", 0, "");
                Err(ErrorKind::Interrupted.into())
            }
            Answer::Fail(k) => {
                self.failed(&k);
                Err(Error::new(kind(&k), "scripted"))
            }
            Answer::Zero => {
                if !buf.is_empty() {
                    self.failed("WriteZero");
                }
                Ok(0)
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.flush_fails {
            self.failed("BrokenPipe");
            return Err(ErrorKind::BrokenPipe.into());
        }
        Ok(())
    }
}

fn kind(s: &str) -> ErrorKind {
    match s {
        "BrokenPipe" => ErrorKind::BrokenPipe,
        "PermissionDenied" => ErrorKind::PermissionDenied,
        "InvalidInput" => ErrorKind::InvalidInput,
        "WouldBlock" => ErrorKind::WouldBlock,
        "TimedOut" => ErrorKind::TimedOut,
        "UnexpectedEof" => ErrorKind::UnexpectedEof,
        "NotFound" => ErrorKind::NotFound,
        "WriteZero" => ErrorKind::WriteZero,
        "AlreadyExists" => ErrorKind::AlreadyExists,
        _ => ErrorKind::Other,
    }
}

/// input: cfg; script: [{at, a, n, kind}], answers by call number (modulo period, if given);
/// chunk: what is accepted of other calls; flush_fails
pub fn run(v: Value) -> Value {
    let c = crate::flat::build(&v["cfg"]);
    let (full_r, full) = crate::generate(&c);
    let mut script = std::collections::HashMap::new();
    for e in v["script"].as_array().unwrap() {
        let a = match e["a"].as_str().unwrap() {
            "accept" => Answer::Accept(e["n"].as_u64().unwrap() as usize),
            "interrupt" => Answer::Interrupt,
            "zero" => Answer::Zero,
            "fail" => Answer::Fail(e["kind"].as_str().unwrap().to_string()),
            x => panic!("answer {}", x),
        };
        script.insert(e["at"].as_u64().unwrap() as usize, a);
    }
    let period = v["period"].as_u64().unwrap_or(0) as usize;
    let default = match v["chunk"].as_u64() {
        None | Some(0) => usize::MAX,
        Some(n) => n as usize,
    };
    let mut sink = Sink {
        script: Box::new(move |call| {
            let at = if period > 0 { (call - 1) % period + 1 } else { call };
            script.get(&at).cloned().unwrap_or(Answer::Accept(default))
        }),
        flush_fails: v["flush_fails"] == true,
        calls: 0,
        got: vec![],
        before: None,
        log: vec![],
        keep: 60,
    };
    let r = crate::guarded(|| wayfinder::gen::codegen(&mut sink, &c));
    let (k, msg) = match r {
        Ok(Ok(())) => ("Ok".to_string(), String::new()),
        Ok(Err(e)) => ("Err".to_string(), format!("{:?}", e.kind())),
        Err(p) => ("Panic".to_string(), p),
    };
    json!({
        "kind": "Ok", "result": k, "errkind": msg, "calls": sink.calls, "events": sink.log,
        "prefix": full.starts_with(&sink.got[..sink.before.unwrap_or(sink.got.len())]),
        "full": full.len(), "full_kind": full_r["kind"],
    })
}
