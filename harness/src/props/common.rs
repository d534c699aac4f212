//! Helpers the properties share.

use crate::engine::*;
use crate::js::{Focus, G};
use crate::layout::*;
use crate::src::Src;
use fajt_ast::Program;
use serde_json::Value;

pub type ParseResult = Result<Program, fajt_parser::error::Error>;

pub fn describe(text: &str, module: bool) -> String {
    format!("[{}] {}\n(escaped: {:?})", if module { "module" } else { "script" }, text, text)
}

pub fn parse(text: &str, module: bool) -> Result<ParseResult, Fail> {
    guard(&describe(text, module), || {
        if module {
            fajt_parser::parse_module(text)
        } else {
            fajt_parser::parse_script(text)
        }
    })
}

pub fn tree_of(p: &Program) -> Value {
    serde_json::to_value(p).expect("serialize")
}

#[derive(Clone, Copy, PartialEq)]
pub enum Spans {
    Compare,
    Ignore,
}

/// Compares with the marks of the expectation: `\u{2}` matches anything.
pub fn diff(expected: &Value, actual: &Value, path: &mut String, spans: Spans) -> Option<String> {
    match (expected, actual) {
        (Value::String(e), _) if e == "\u{2}" => None,
        (Value::Object(e), Value::Object(a)) => {
            for (k, v) in e {
                match a.get(k) {
                    None => return Some(format!("{path}: expected `{k}`, got {}", short(actual))),
                    Some(x) => {
                        if spans == Spans::Ignore
                            && (k == "span" || k == "arguments_span")
                            && v.is_null() == x.is_null()
                        {
                            continue;
                        }
                        let len = path.len();
                        path.push('/');
                        path.push_str(k);
                        if let Some(d) = diff(v, x, path, spans) {
                            return Some(d);
                        }
                        path.truncate(len);
                    }
                }
            }
            if e.len() != a.len() {
                return Some(format!("{path}: expected {}, got {}", short(expected), short(actual)));
            }
            None
        }
        (Value::Array(e), Value::Array(a)) => {
            let holes = path.ends_with("/Array/elements") && path.contains("AssignmentPattern");
            let strip = holes && e.iter().chain(a).all(|v| v.is_null() || v.get("target").is_some());
            let (e, a): (Vec<&Value>, Vec<&Value>) = if strip {
                // K7: how holes of assignment patterns are counted is a known finding.
                (e.iter().filter(|v| !v.is_null()).collect(), a.iter().filter(|v| !v.is_null()).collect())
            } else {
                (e.iter().collect(), a.iter().collect())
            };
            if e.len() != a.len() {
                return Some(format!("{path}: expected {} elements, got {}: {}", e.len(), a.len(), short(actual)));
            }
            for (i, (x, y)) in e.iter().zip(a.iter()).enumerate() {
                let len = path.len();
                path.push_str(&format!("/{i}"));
                if let Some(d) = diff(x, y, path, spans) {
                    return Some(d);
                }
                path.truncate(len);
            }
            None
        }
        _ => {
            if expected == actual {
                None
            } else {
                Some(format!("{path}: expected {}, got {}", short(expected), short(actual)))
            }
        }
    }
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 300 {
        s.chars().take(300).collect::<String>() + "…"
    } else {
        s
    }
}

pub fn check_tree(text: &str, module: bool, expected: &Value, spans: Spans) -> Result<Program, Fail> {
    let input = describe(text, module);
    let parsed = match parse(text, module)? {
        Ok(p) => p,
        Err(e) => return Err(Fail::new(format!("rejected: a valid program is rejected: {e:?}"), input)),
    };
    let actual = tree_of(&parsed);
    match diff(expected, &actual, &mut String::new(), spans) {
        None => Ok(parsed),
        Some(d) => Err(Fail::new(format!("tree differs: {d}"), input)),
    }
}

pub fn must_reject(text: &str, module: bool, why: &str) -> CaseResult {
    match parse(text, module)? {
        Err(_) => Ok(()),
        Ok(_) => Err(Fail::new(format!("accepted: {why}"), describe(text, module))),
    }
}

pub fn must_accept(text: &str, module: bool, why: &str) -> Result<Program, Fail> {
    match parse(text, module)? {
        Ok(p) => Ok(p),
        Err(e) => Err(Fail::new(format!("rejected: {why}: {e:?}"), describe(text, module))),
    }
}

/// Small programs first, then all sizes.
pub fn fuel(idx: u64, max: i32) -> i32 {
    let steps = [4, 8, 12, 20, 30, 45, 60, 80];
    steps[(idx % 8) as usize].min(max)
}

/// A generated program before layout.
pub struct Prog {
    pub toks: Vec<Tok>,
    pub tree: Value,
    pub module: bool,
    pub seen: std::collections::BTreeSet<&'static str>,
    pub names: Vec<crate::js::NameUse>,
    pub spots: Vec<crate::js::Spot>,
}

impl Prog {
    pub fn generate(src: &mut Src, module: bool, focus: Focus, fuel: i32) -> Prog {
        let mut g = G::new(src, module, focus, fuel);
        let tree = g.program();
        Prog { toks: std::mem::take(&mut g.toks), tree, module, seen: std::mem::take(&mut g.seen), names: std::mem::take(&mut g.names), spots: std::mem::take(&mut g.spots) }
    }

    pub fn classify(&self, info: &mut Info) {
        for s in self.seen.iter() {
            info.class(s);
        }
        info.class_if(self.module, "module");
    }

    pub fn lay(&self, src: &mut Src, style: Style, asi: bool) -> Laid {
        layout(&self.toks, src, LayoutOpt { style, module: self.module, asi })
    }

    pub fn expected(&mut self, laid: &Laid) -> Value {
        let mut v = std::mem::take(&mut self.tree);
        laid.resolve(&mut v);
        v
    }
}

pub fn pick_style(src: &mut Src) -> Style {
    [Style::Spaced, Style::Tight, Style::Mixed][src.below(3)]
}

/// Source text of a generated piece of a program, on one line.
pub fn piece(src: &mut Src, module: bool, fuel: i32, f: impl FnOnce(&mut G)) -> String {
    let mut g = G::new(src, module, Focus::All, fuel);
    f(&mut g);
    let toks = std::mem::take(&mut g.toks);
    toks.iter().map(|t| t.text.as_str()).collect::<Vec<_>>().join(" ")
}

pub fn same_tree(a: &str, b: &str, module: bool, why: &str) -> CaseResult {
    let x = must_accept(a, module, why)?;
    let y = must_accept(b, module, why)?;
    match diff(&tree_of(&x), &tree_of(&y), &mut String::new(), Spans::Ignore) {
        None => Ok(()),
        Some(d) => Err(Fail::new(
            format!("tree differs: {why}: {d}"),
            format!("{}\ncompared to\n{}", describe(a, module), describe(b, module)),
        )),
    }
}
