//! Automatic semicolon insertion and restricted productions.

use super::common::*;
use super::tree::ALL_FOCUS;
use crate::engine::*;
use crate::js::Focus;
use crate::layout::*;
use crate::src::Src;

const AMBIGUOUS: &[&str] = &[
    "async", "of", "get", "set", "from", "as", "target", "meta", "let", "static", "yield", "await",
    "implements", "interface", "package", "private", "protected", "public",
];

/// All semicolons which can go are left out now and then: the tree stays.
fn inserted(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let module = src.chance(1, 4);
    let focus = ALL_FOCUS[src.below(ALL_FOCUS.len())];
    let focus = if src.chance(1, 2) { Focus::Stmts } else { focus };
    let mut prog = Prog::generate(src, module, focus, fuel(idx, 60));
    let style = [Style::Spaced, Style::Mixed, Style::Wild][src.below(3)];
    let laid = prog.lay(src, style, true);
    let expected = prog.expected(&laid);
    prog.classify(info);
    info.class("inserted");
    info.set(&laid.text, laid.dropped > 0);
    info.class_if(laid.dropped_newline > 0, "inserted at a line terminator");
    check_tree(&laid.text, module, &expected, Spans::Ignore).map(|_| ())
}

/// A semicolon is left out where none is inserted.
fn not_inserted(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let module = src.chance(1, 4);
    let prog = Prog::generate(src, module, Focus::Stmts, fuel(idx, 60));
    let toks = &prog.toks;
    let candidates: Vec<usize> = (1..toks.len().saturating_sub(1))
        .filter(|&i| {
            let (p, n) = (&toks[i - 1], &toks[i + 1]);
            toks[i].asi == Asi::Stmt
                && !p.ends
                && !AMBIGUOUS.contains(&p.text.as_str())
                && !AMBIGUOUS.contains(&n.text.as_str())
                && n.text != "++"
                && n.text != "--"
                && starts_new_statement(p, n)
        })
        .collect();
    if candidates.is_empty() {
        return Ok(());
    }
    let at = candidates[src.below(candidates.len())];
    let mut left: Vec<Tok> = toks.clone();
    left.remove(at);
    let style = [Style::Spaced, Style::Wild][src.below(2)];
    // No line terminator may end up where the semicolon was.
    left[at].no_lt = true;
    let laid = layout(&left, src, LayoutOpt { style, module, asi: false });
    info.class("not inserted on the same line");
    info.set(&laid.text, true);
    must_reject(&laid.text, module, "a semicolon is required, and none is inserted on the same line")
}

fn restricted(src: &mut Src, info: &mut Info, _idx: u64) -> CaseResult {
    let module = src.chance(1, 4);
    let nl = line_break(src, module);
    let sp = blank(src);
    let fuel = src.range(2, 14) as i32;
    let kind = src.below(24);
    // The expression may start with anything that does not start a statement of its own.
    let expr = |src: &mut Src, gen: bool, asy: bool, ret: bool| {
        piece(src, module, fuel, |g| {
            g.c.yield_ = gen;
            g.c.yield_id = !gen;
            g.c.await_ = asy;
            g.c.await_id = !asy && !module;
            g.c.ret = ret;
            g.c.k3 = gen;
            g.restrict(crate::js::R_BRACE | crate::js::R_FUNC | crate::js::R_LET | crate::js::R_ASYNC | crate::js::R_STRING);
            g.expression();
        })
    };
    let e = match kind {
        0..=2 => expr(src, false, false, true),
        3 | 4 => expr(src, true, false, false),
        _ => expr(src, false, false, false),
    };
    let target = piece(src, module, 6, |g| {
        g.restrict(crate::js::R_BRACE | crate::js::R_FUNC | crate::js::R_LET | crate::js::R_ASYNC | crate::js::R_ARRAY);
        g.simple_target();
    });
    let why = "restricted production";
    let (text, other): (String, Option<String>) = match kind {
        0 => (
            format!("function f() {{ return{nl}{e} }}"),
            Some(format!("function f() {{ return; {e} }}")),
        ),
        1 => (
            format!("function f() {{ if (x) return{nl}{e}\n}}"),
            Some(format!("function f() {{ if (x) return; {e} }}")),
        ),
        2 => (
            format!("async () => {{ {{ return{nl}}} }}"),
            Some("async () => { { return; } }".to_owned()),
        ),
        3 => (
            format!("function* f() {{ yield{nl}{e} }}"),
            Some(format!("function* f() {{ yield; {e} }}")),
        ),
        4 => (
            format!("function* f() {{ x = yield{nl}{e};\n}}"),
            Some(format!("function* f() {{ x = yield; {e} }}")),
        ),
        5 => (format!("while (x) {{ break{nl}{e}\n}}"), Some(format!("while (x) {{ break; {e}\n}}"))),
        6 => (format!("while (x) {{ continue{nl}{e}\n}}"), Some(format!("while (x) {{ continue; {e}\n}}"))),
        7 => (format!("L: while (x) {{ break{nl}L\n}}"), Some("L: while (x) { break; L; }".into())),
        8 => (format!("L: while (x) {{ continue{nl}L }}"), Some("L: while (x) { continue; L; }".into())),
        9 => {
            let op = src.pick(&["++", "--"]);
            (format!("{e}{nl}{op}{sp}{target}"), Some(format!("{e}; {op}{target}")))
        }
        10 => {
            let op = src.pick(&["++", "--"]);
            (format!("{target}{nl}{op}{nl}{target}"), Some(format!("{target}; {op}{target}")))
        }
        11 => {
            let op = src.pick(&["++", "--"]);
            (format!("{target}{nl}{op}"), None)
        }
        12 => (format!("throw{nl}{e}"), None),
        13 => {
            let p = src.pick(&["x", "(x)", "()", "(x, y)", "async x", "async (x)"]);
            (format!("{p}{sp}{nl}=>{sp}{e}"), None)
        }
        14 => {
            let p = src.pick(&["(x)", "()", "(x, y)"]);
            (format!("async{nl}{p} => {e}"), None)
        }
        15 => (format!("async{nl}x => {e}"), Some(format!("async; x => {e}"))),
        16 => (
            format!("async{nl}function f() {{ {e} }}"),
            Some(format!("async; function f() {{ {e} }}")),
        ),
        17 => (format!("function* f() {{ yield{nl}* {e} }}"), None),
        18 => {
            let m = src.pick(&["m() {}", "*m() {}", "[m]() {}", "'m'() {}"]);
            (format!("({{ async{nl}{m} }})"), None)
        }
        19 => {
            let m = src.pick(&["m() {}", "*m() {}", "[m]() {}", "1() {}"]);
            (format!("class A {{ async{nl}{m} }}"), None)
        }
        20 => (format!("do x{nl}while(y) {e}"), Some(format!("do x; while (y); {e}"))),
        21 => (format!("do ; while ({e}){nl}{target}"), Some(format!("do ; while ({e}); {target}"))),
        // The empty statement is never inserted.
        22 => {
            let head = src.pick(&["if (x)", "while (x)", "for (;;)", "for (x in y)", "for (x of y)", "L:", "if (x) y; else", "with (x)", "do"]);
            let tail = src.pick(&["", "}", "else y", "while (x)", "{}", "case"]);
            let (open, close) = if tail == "}" { ("{ ", "") } else { ("", "") };
            let text = format!("{open}{head}{nl}{tail}{close}");
            let fine = (tail == "{}" && head != "do") || (tail == "while (x)" && head != "do") || (head == "with (x)" && module);
            // `while (x)` starts a loop that has no body itself.
            if fine && tail == "{}" {
                return Ok(());
            }
            (text, None)
        }
        // Nor is one in the head of a for loop.
        _ => {
            let a = src.pick(&["", "x", "var x", "let x = 1"]);
            let t = match src.below(3) {
                0 => format!("for ({a}{nl}; x{nl})\n{{}}"),
                1 => format!("for ({a}{nl}x{nl}; y) {{}}"),
                _ => format!("for ({a}; x{nl}y) {{}}"),
            };
            (t, None)
        }
    };
    info.class("restricted production");
    info.set(&text, true);
    match other {
        Some(o) => same_tree(&text, &o, module, why),
        None => must_reject(&text, module, why),
    }
}

fn asi(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    match src.below(8) {
        6 => {
            info.class("broken rule");
            super::early::broken(src, info, idx, &["ø", "throw, try", "expression statements", "declarations as bodies"])
        }
        7 => {
            let module = src.chance(1, 4);
            super::grammar::damaged_programs(src, info, idx, Focus::Stmts, module)
        }
        0..=2 => inserted(src, info, idx),
        3 => not_inserted(src, info, idx),
        _ => restricted(src, info, idx),
    }
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P09",
        rule: "a semicolon is left out, or a line terminator stands in a restricted production, or acorn decided a damaged program",
        quick: 1_000_000,
        thorough: 15_000_000,
        run: asi,
        fixed: None,
        assumptions: &[],
        slow: false,
    }]
}
