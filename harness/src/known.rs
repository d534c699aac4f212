//! Known findings: defects of fajt which are recorded and not repaired. Each is one exact input; it
//! is replayed on every run of its property.

use crate::engine::guard;
use serde_json::{json, Value};

pub fn file() -> Value {
    let path = format!("{}/known_findings.json", crate::verif_dir());
    serde_json::from_str(&std::fs::read_to_string(&path).expect("known_findings.json"))
        .expect("known_findings.json")
}

enum State {
    Fails,
    Right,
    Other(String),
}

/// Does the time double with each level of nesting?
fn slow(f: &Value) -> State {
    let time = |depth: usize| {
        let text = f["open"].as_str().unwrap().repeat(depth) + f["middle"].as_str().unwrap() + &f["close"].as_str().unwrap().repeat(depth);
        (0..3)
            .map(|_| {
                let begun = std::time::Instant::now();
                let _ = guard(&text, || fajt_parser::parse_script(&text).is_ok());
                begun.elapsed().as_secs_f64()
            })
            .fold(f64::MAX, f64::min)
    };
    if time(11) / time(6).max(1e-6) > 10.0 {
        State::Fails
    } else {
        State::Right
    }
}

fn rendered(f: &Value) -> State {
    let source = f["source"].as_str().expect("source");
    let Err(e) = fajt_parser::parse_script(source) else {
        return State::Other("accepted".to_owned());
    };
    match crate::props::diag::emit("f.js", source, &e, source) {
        Err(e) => State::Other(e.msg),
        Ok(t) if t == f["wrong"] => State::Fails,
        Ok(t) if t == f["right"] => State::Right,
        Ok(t) => State::Other(t),
    }
}

fn state(f: &Value) -> State {
    match f["fails"].as_str() {
        Some("slow") => return crate::engine::on_big_stack({ let f = f.clone(); move || slow(&f) }),
        Some("rendered") => return rendered(f),
        _ => {}
    }
    let source = f["source"].as_str().expect("source");
    let module = f["module"].as_bool().unwrap_or(false);
    let result = match guard(source, || {
        if module {
            fajt_parser::parse_module(source)
        } else {
            fajt_parser::parse_script(source)
        }
    }) {
        Ok(r) => r,
        Err(e) => return State::Other(e.msg),
    };
    match f["fails"].as_str() {
        Some("accepted") => match result {
            Ok(_) => State::Fails,
            Err(_) => State::Right,
        },
        Some("rejected") => match result {
            Ok(_) => State::Right,
            Err(_) => State::Fails,
        },
        _ => {
            let pointer = f["pointer"].as_str().expect("pointer");
            match result {
                Err(e) => State::Other(format!("rejected: {e:?}")),
                Ok(p) => {
                    let tree = serde_json::to_value(&p).expect("serialize");
                    let got = tree.pointer(pointer).cloned().unwrap_or(Value::Null);
                    if got == f["wrong"] {
                        State::Fails
                    } else if got == f["right"] {
                        State::Right
                    } else {
                        State::Other(format!("{pointer} is {got}"))
                    }
                }
            }
        }
    }
}

/// Prints the known findings of a property which are still there.
pub fn report(id: &str) -> Vec<Value> {
    let mut out = vec![];
    for f in file()["findings"].as_array().expect("findings") {
        if f["property"] != json!(id) {
            continue;
        }
        let what = f["what"].as_str().unwrap_or("");
        let shown = format!("{}…{}", f["open"].as_str().unwrap_or(""), f["close"].as_str().unwrap_or(""));
        let source = f["source"].as_str().filter(|s| !s.is_empty()).unwrap_or(&shown);
        match state(f) {
            State::Fails => {
                println!("KNOWN-FINDING: property={id} {what}: {source:?}");
                out.push(json!({"what": what, "source": source}));
            }
            State::Right => println!("no longer failing: {what}: {source:?}"),
            State::Other(s) => println!("fails in another way: {what}: {source:?}: {s}"),
        }
    }
    out
}
