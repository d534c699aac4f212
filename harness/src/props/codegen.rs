//! Code generation: what is printed parses back to the same tree.

use super::common::*;
use super::tree::ALL_FOCUS;
use crate::engine::*;
use crate::js::{Focus, G};
use crate::layout::*;
use crate::src::Src;
use fajt_ast::traverse::Traverse;
use fajt_ast::{Expr, Program, SourceType, Stmt};
use fajt_codegen::{generate_code, GeneratorContext};

pub fn context(minified: bool) -> GeneratorContext {
    // The readable format is what a new context stands for.
    let mut ctx = GeneratorContext::new();
    if minified {
        ctx.minified = true;
    }
    ctx
}

pub fn print<T: Traverse>(tree: &mut T, minified: bool, input: &str) -> Result<String, Fail> {
    guard(input, || generate_code(tree, context(minified)))
}

fn is_lt(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}

/// Spaces which are always written.
fn fixed_spaces(toks: &[Tok]) -> usize {
    toks.iter()
        .filter(|t| {
            matches!(t.text.as_str(), "async" | "do" | "case" | "default" | "++" | "--" | "!" | "/")
                || matches!(t.kind, K::Num | K::Regex)
        })
        .count()
}

/// Characters of the minified code that say nothing. None where the code is not the tokens of the
/// source one after the other (strings and names with escapes are printed anew).
fn waste(toks: &[Tok], code: &str) -> Option<Vec<String>> {
    let mut found = vec![];
    let mut at = 0;
    let mut prev: Option<&Tok> = None;
    let mut optional = false;
    for t in toks {
        let spaced = code[at..].starts_with(' ');
        let here = at + spaced as usize;
        if !code[here..].starts_with(&t.text) {
            if matches!(t.text.as_str(), ";" | ",") && !spaced {
                continue;
            }
            return None;
        }
        if let (true, Some(p)) = (spaced, prev) {
            let (last, first) = (p.text.chars().last(), t.text.chars().next());
            // Spaces which are always written.
            let fixed = matches!(p.text.as_str(), "do" | "case")
                || matches!(p.kind, K::Num | K::Regex) && t.text == "."
                || matches!((last, first), (Some('+'), Some('+')) | (Some('-'), Some('-')) | (Some('<'), Some('!')) | (Some('/'), Some('/')));
            if adjacent_ok(p, t) && !fixed {
                found.push(format!("the space between {:?} and {:?}", p.text, t.text));
            }
        }
        if optional && t.text == "}" && t.kind == K::Punct {
            found.push("a semicolon before }".to_owned());
        }
        optional = t.text == ";" && t.asi != Asi::No;
        at = here + t.text.len();
        prev = Some(t);
    }
    if at != code.len() {
        return None;
    }
    if optional {
        found.push("a semicolon at the end".to_owned());
    }
    Some(found)
}

fn print_program(p: &mut Program, prog: &Prog, src: &mut Src, minified: bool, input: &str) -> Result<String, Fail> {
    let before = tree_of(p);
    let code = print(p, minified, input)?;
    if tree_of(p) != before {
        return Err(Fail::new("tree changes while code is generated", input));
    }
    // The result depends on nothing but the tree.
    let again = print(p, minified, input)?;
    if again != code {
        return Err(Fail::new("generated code differs when generated again", format!("{input}\n{code}\n{again}")));
    }
    let other = prog.lay(src, Style::Mixed, true);
    let mut q = must_accept(&other.text, prog.module, "the same program in another layout")?;
    let from_other = print(&mut q, minified, input)?;
    if from_other != code {
        return Err(Fail::new(
            "generated code differs: it depends on the layout of the source",
            format!("{input}\n{}\nfirst:\n{code}\nsecond:\n{from_other}", describe(&other.text, prog.module)),
        ));
    }
    Ok(code)
}

fn round_trip(src: &mut Src, info: &mut Info, idx: u64, minified: bool) -> CaseResult {
    if src.chance(1, 8) {
        return parts(src, info, minified);
    }
    let module = src.chance(1, 3);
    let focus = ALL_FOCUS[src.below(ALL_FOCUS.len())];
    let mut prog = Prog::generate(src, module, focus, fuel(idx, 80));
    if prog.seen.contains("constructor in a generator") {
        // Printed with a star because of known finding K3.
        info.class("left out: constructor in a generator");
        return Ok(());
    }
    let style = pick_style(src);
    let laid = prog.lay(src, style, false);
    prog.classify(info);
    info.class_if(prog.toks.len() > 100, "more than 100 tokens");
    info.set(&laid.text, prog.toks.len() > 4);
    let mut tree = must_accept(&laid.text, module, "a valid program")?;
    let input = describe(&laid.text, module);
    let code = print_program(&mut tree, &prog, src, minified, &input)?;
    let about = format!("{input}\ngenerated code:\n{code}");
    if code.contains('\\') && !laid.text.contains('\\') {
        return Err(Fail::new("generated code escapes what is not escaped in the source", about));
    }
    if minified {
        let broken = prog.toks.iter().any(|t| t.text.contains(is_lt));
        if !broken && code.contains(is_lt) {
            return Err(Fail::new("not minified: line terminators", about));
        }
        match waste(&prog.toks, &code) {
            None => info.class("tokens differ"),
            Some(found) => {
                info.class("tokens the same");
                for f in found {
                    return Err(Fail::new(format!("not minified: {f}"), about));
                }
            }
        }
        let tight = prog.lay(src, Style::Tight, false);
        if !prog.seen.contains("plain method in a generator")
            && code.len() > tight.text.len() + fixed_spaces(&prog.toks) {
            return Err(Fail::new(
                format!("not minified: {} bytes, {} are enough", code.len(), tight.text.len()),
                format!("{about}\nshorter:\n{}", tight.text),
            ));
        }
    }
    let expected = prog.expected(&laid);
    match parse(&code, module)? {
        Err(e) => Err(Fail::new(format!("generated code is invalid: {e:?}"), about)),
        Ok(mut back) => {
            if let Some(d) = diff(&expected, &tree_of(&back), &mut String::new(), Spans::Ignore) {
                return Err(Fail::new(format!("tree of generated code differs: {d}"), about));
            }
            let again = print(&mut back, minified, &about)?;
            if again != code {
                return Err(Fail::new("generated code of the generated code differs", format!("{about}\n{again}")));
            }
            // From one format to the other.
            let other = print(&mut back, !minified, &about)?;
            let mut there = must_accept(&other, module, "generated code in the other format")?;
            let here = print(&mut there, minified, &about)?;
            if here != code {
                return Err(Fail::new(
                    "generated code differs when generated by way of the other format",
                    format!("{about}\nother format:\n{other}\nand back:\n{here}"),
                ));
            }
            Ok(())
        }
    }
}

/// Single expressions and statements.
fn parts(src: &mut Src, info: &mut Info, minified: bool) -> CaseResult {
    let module = src.chance(1, 4);
    let source_type = if module { SourceType::Module } else { SourceType::Script };
    let fuel = src.range(3, 25) as i32;
    let expr = src.chance(1, 2);
    let text = {
        let mut g = G::new(src, module, Focus::All, fuel);
        if expr {
            g.assign();
        } else {
            g.statement(true);
        }
        if g.seen.contains("constructor in a generator") {
            return Ok(());
        }
        let toks = std::mem::take(&mut g.toks);
        layout(&toks, src, LayoutOpt { style: Style::Mixed, module, asi: false }).text
    };
    info.class(if expr { "single expression" } else { "single statement" });
    info.set(&text, true);
    let input = describe(&text, module);
    macro_rules! go {
        ($t:ty) => {{
            let mut tree = match guard(&input, || fajt_parser::parse::<$t>(&text, source_type))? {
                Ok(t) => t,
                Err(e) => return Err(Fail::new(format!("rejected: a valid part is rejected: {e:?}"), input)),
            };
            let code = print(&mut tree, minified, &input)?;
            let about = format!("{input}\ngenerated code:\n{code}");
            let mut back = match guard(&about, || fajt_parser::parse::<$t>(&code, source_type))? {
                Ok(t) => t,
                Err(e) => return Err(Fail::new(format!("generated code is invalid: {e:?}"), about)),
            };
            let (x, y) = (serde_json::to_value(&tree).unwrap(), serde_json::to_value(&back).unwrap());
            if let Some(d) = diff(&x, &y, &mut String::new(), Spans::Ignore) {
                return Err(Fail::new(format!("tree of generated code differs: {d}"), about));
            }
            let again = print(&mut back, minified, &about)?;
            if again != code {
                return Err(Fail::new("generated code of the generated code differs", format!("{about}\n{again}")));
            }
        }};
    }
    if expr {
        go!(Expr)
    } else {
        go!(Stmt)
    }
    Ok(())
}

fn pretty(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    round_trip(src, info, idx, false)
}

fn minified(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    round_trip(src, info, idx, true)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P17",
            rule: "a generated program (more than 4 tokens), expression or statement is parsed, printed, parsed and printed again",
            quick: 500_000,
            thorough: 8_000_000,
            run: pretty,
            fixed: None,
            assumptions: &[],
            slow: false,
        },
        Property {
            id: "P18",
            rule: "a generated program (more than 4 tokens), expression or statement is parsed, printed minified, parsed and printed again",
            quick: 500_000,
            thorough: 8_000_000,
            run: minified,
            fixed: None,
            assumptions: &[],
            slow: false,
        },
    ]
}
