//! Code generation: how the code is laid out, character by character.

use super::codegen::print;
use super::common::*;
use super::tree::ALL_FOCUS;
use crate::engine::*;
use crate::js::{Focus, G};
use crate::layout::*;
use crate::pretty;
use crate::src::Src;
use fajt_ast::{Expr, Program, SourceType, Stmt};
use serde_json::Value;

fn compare(code: &str, expected: &str, minified: bool, about: &str) -> CaseResult {
    if code == expected {
        return Ok(());
    }
    let same = code.chars().zip(expected.chars()).take_while(|(a, b)| a == b).count();
    let (line, expected_line) = (code.lines().zip(expected.lines()).find(|(a, b)| a != b)).unwrap_or(("", ""));
    Err(Fail::new(
        format!(
            "{} code is laid out differently from character {same} on: {line:?}, not {expected_line:?}",
            if minified { "minified" } else { "formatted" }
        ),
        format!("{about}\ncode:\n{code}\nexpected:\n{expected}"),
    ))
}

fn layout_of(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let module = src.chance(1, 3);
    let source_type = if module { SourceType::Module } else { SourceType::Script };
    let focus = ALL_FOCUS[src.below(ALL_FOCUS.len())];
    let size = fuel(idx, 80);
    let single = src.chance(1, 16);
    let style = [Style::Spaced, Style::Tight, Style::Mixed, Style::Wild][src.below(4)];
    macro_rules! both {
        ($tree:expr, $text:expr, $f:expr) => {{
            let input = describe(&$text, module);
            let value = serde_json::to_value(&$tree).expect("serialize");
            let f: &dyn Fn(&Value, bool) -> String = &$f;
            for minified in [false, true] {
                let code = print(&mut $tree, minified, &input)?;
                compare(&code, &f(&value, minified), minified, &input)?;
                info.evaluations += 1;
                if !minified {
                    info.class_if(code.lines().any(|l| l.starts_with("            ")), "three levels deep");
                    info.class_if(code.lines().count() > 20, "more than 20 lines");
                }
            }
        }};
    }
    if single {
        let expr = src.chance(1, 2);
        let mut g = G::new(src, module, Focus::All, size);
        if expr {
            g.assign();
        } else {
            g.statement(true);
        }
        let toks = std::mem::take(&mut g.toks);
        let text = layout(&toks, src, LayoutOpt { style, module, asi: false }).text;
        info.class(if expr { "single expression" } else { "single statement" });
        info.set(&text, toks.len() > 3);
        let input = describe(&text, module);
        macro_rules! go {
            ($t:ty) => {
                match guard(&input, || fajt_parser::parse::<$t>(&text, source_type))? {
                    Ok(mut t) => both!(t, text, |v: &Value, m| pretty::part(v, expr, m)),
                    Err(e) => return Err(Fail::new(format!("rejected: a valid part is rejected: {e:?}"), input)),
                }
            };
        }
        if expr {
            go!(Expr)
        } else {
            go!(Stmt)
        }
        return Ok(());
    }
    let prog = Prog::generate(src, module, focus, size);
    let laid = prog.lay(src, style, false);
    prog.classify(info);
    info.set(&laid.text, prog.toks.len() > 4);
    let mut tree = must_accept(&laid.text, module, "a valid program")?;
    if laid.text.len() > 20 && src.chance(1, 150) {
        // The same again and again, within a list or one after another.
        let n = 2 + src.range(300, 12_000) / laid.text.len();
        let inner = format!("{}\n", laid.text);
        let text = match src.below(3) {
            0 => format!("{inner};\n").repeat(n),
            1 => format!("q({})", vec![format!("function () {{ {inner} }}"); n].join(",")),
            _ => format!("switch (q) {{ {} }}", format!("case [1,2]: {{ {inner} }}").repeat(n)),
        };
        if let Ok(mut tree) = parse(&text, module)? {
            info.class("repeated");
            both!(tree, text, |v: &Value, m| pretty::program(v, m));
        }
    }
    both!(tree, laid.text, |v: &Value, m| pretty::program(v, m));
    Ok(())
}

/// Examples of the repository's documentation of the formats, written down by hand.
fn examples(fixed: &mut Fixed) -> CaseResult {
    let list: Vec<(String, bool, String, String, bool)> =
        serde_json::from_str(include_str!("../examples.json")).expect("examples");
    for (what, module, text, expected, minified) in &list {
        let source_type = if *module { SourceType::Module } else { SourceType::Script };
        let input = describe(text, *module);
        macro_rules! go {
            ($t:ty, $f:expr) => {{
                let mut tree = match guard(&input, || fajt_parser::parse::<$t>(text, source_type))? {
                    Ok(t) => t,
                    Err(e) => return Err(Fail::new(format!("rejected: an example is rejected: {e:?}"), input)),
                };
                let code = print(&mut tree, *minified, &input)?;
                compare(&code, expected, *minified, &input)?;
                let value = serde_json::to_value(&tree).expect("serialize");
                let f: &dyn Fn(&Value, bool) -> String = &$f;
                compare(&f(&value, *minified), expected, *minified, &format!("the model is wrong\n{input}"))?;
            }};
        }
        match what.as_str() {
            "expr" => go!(Expr, |v: &Value, m| pretty::part(v, true, m)),
            "stmt" => go!(Stmt, |v: &Value, m| pretty::part(v, false, m)),
            _ => go!(Program, |v: &Value, m| pretty::program(v, m)),
        }
        fixed.evaluations += 1;
        fixed.distinct += 1;
    }
    fixed.notes.push(format!("{} examples written by hand", list.len()));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P26",
        rule: "a generated program (more than 4 tokens), expression or statement (more than 3) is parsed, and the code of its tree compared with that of the model in both formats",
        quick: 700_000,
        thorough: 15_000_000,
        run: layout_of,
        fixed: Some(examples),
        assumptions: &[],
        slow: false,
    }]
}
