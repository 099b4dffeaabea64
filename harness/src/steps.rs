//! Replays a sequence of builder calls given as JSON.
use serde_json::Value;
use wayfinder::build::Builder;

pub fn build(json: &str) {
    let v: Value = serde_json::from_str(json).unwrap();
    let mut b: Option<Builder> = None;
    for step in v.as_array().unwrap() {
        let arg = &step["arg"];
        b = Some(match (step["call"].as_str().unwrap(), b.take()) {
            ("new", _) => Builder::new(),
            ("from_env", _) => Builder::from_env(),
            ("input_file", Some(b)) => b.input_file(arg.as_str().unwrap()),
            ("input_config", Some(b)) => b.input_config(crate::flat::build(arg)),
            ("output_file", Some(b)) => b.output_file(arg.as_str().unwrap()),
            ("output_stdout", Some(b)) => b.output_stdout(),
            ("build", Some(b)) => {
                b.build();
                return;
            }
            (c, _) => panic!("step {}", c),
        });
    }
}
