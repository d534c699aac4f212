//! Texts which were not written as programs, against acorn and V8.

use super::common::*;
use super::tree::ALL_FOCUS;
use crate::engine::*;
use crate::js::{Focus, CONTEXTUAL};
use crate::layout::*;
use crate::src::Src;
use crate::reflex::{Goal, Next, Ref, RK};
use crate::text;
use serde_json::Value;

/// Tokens to put somewhere.
fn token(src: &mut Src) -> Tok {
    const OTHER: &[(&str, K)] = &[
        ("1", K::Num), ("'s'", K::Str), ("/r/g", K::Regex), ("`t`", K::Tpl), ("`a${", K::Tpl), ("}b${", K::TplCont), ("}c`", K::TplCont), ("\"use strict\"", K::Str),
        (".5", K::Num), ("0x1", K::Num), ("'\\n'", K::Str), ("x", K::Ident), ("a", K::Ident), ("b", K::Ident),
    ];
    let (text, kind) = match src.weighted(&[4, 3, 4, 5, 3]) {
        0 => (src.pick(PUNCTUATORS), K::Punct),
        1 => (src.pick(crate::reflex::words()), K::Keyword),
        2 => (src.pick(CONTEXTUAL), K::Ident),
        3 => (src.pick(&["(", ")", "{", "}", "[", "]", ",", ";", "=", "=>", ":", "...", "."]), K::Punct),
        _ => OTHER[src.below(OTHER.len())],
    };
    Tok { text: text.to_owned(), kind, no_lt: false, ends: false, asi: Asi::No }
}

fn damage(src: &mut Src, toks: &mut Vec<Tok>, other: &[Tok]) {
    for _ in 0..src.range(1, 3) {
        let n = toks.len();
        if n == 0 {
            toks.push(token(src));
            continue;
        }
        let at = src.below(n);
        match src.below(9) {
            0 => {
                toks.remove(at);
            }
            1 => toks.insert(at, token(src)),
            2 => toks[at] = token(src),
            3 => {
                let t = toks[at].clone();
                toks.insert(at, t);
            }
            4 if at + 1 < n => toks.swap(at, at + 1),
            5 => {
                let t = toks[src.below(n)].clone();
                toks[at] = t;
            }
            6 if !other.is_empty() => {
                let a = src.below(other.len());
                let b = (a + 1 + src.below(8)).min(other.len());
                toks.splice(at..at, other[a..b].iter().cloned());
            }
            7 => {
                let b = (at + 1 + src.below(4)).min(n);
                toks.drain(at..b);
            }
            _ => {
                // One word for another.
                let words: Vec<usize> = (0..n).filter(|i| matches!(toks[*i].kind, K::Ident | K::Keyword)).collect();
                if !words.is_empty() {
                    let i = words[src.below(words.len())];
                    let w = if src.chance(1, 2) { src.pick(CONTEXTUAL) } else { src.pick(crate::reflex::words()) };
                    toks[i].text = w.to_owned();
                }
            }
        }
    }
    if let Some(t) = toks.first_mut() {
        t.asi = Asi::No;
    }
    if src.chance(1, 2) {
        for t in toks.iter_mut() {
            t.no_lt = false;
            t.asi = Asi::No;
        }
    }
}

/// A row of words and punctuators that mean something to each other.
fn words(src: &mut Src) -> String {
    const W: &[&str] = &[
        "async", "await", "yield", "let", "of", "get", "set", "static", "in", "function", "class", "extends", "new", "super", "import", "export", "default", "from", "as",
        "for", "if", "else", "do", "while", "return", "break", "continue", "var", "const", "target", "this", "a", "b", "x", "0", "'s'", "'use strict'", "`t`", "/r/", "case", "switch", "try",
        "catch", "finally", "throw", "typeof", "delete", "with", "debugger", "constructor", "eval", "arguments",
    ];
    const P: &[&str] = &[
        "(", ")", "{", "}", "[", "]", ",", ";", "=", "=>", ":", "...", ".", "*", "?.", "?", "+", "++", "--", "-", "/", "<", "??", "||", "**", "!", "+=", "`${", "}`",
    ];
    // Where the row stands.
    const AROUND: &[(&str, &str)] = &[
        ("async function f() {", "}"), ("function* g() {", "}"), ("async function* h() {", "}"), ("function f() {", "}"), ("(function () { 'use strict'; ", "})"), ("class A {", "}"),
        ("class A extends B {", "}"), ("class A { static ", "(a) {} }"), ("class A { ", "() {} }"), ("({", "});"), ("({ get ", "() {} });"), ("({ ", " = 1 } = a);"), ("({ a: ", " } = a);"),
        ("[", "] = a;"), ("for (", ") ;"), ("for (let ", ") ;"), ("for (", " of a) ;"), ("for (", " in a) ;"), ("for (var a ", ") ;"), ("async () => { for await (", ") ; }"),
        ("(", ") => 0;"), ("async (", ") => 0;"), ("(", ") => {}"), ("async (", ") => await a;"), ("() => {", "}"), ("async () => {", "}"), ("() => ", ";"), ("var ", ";"), ("let ", ";"), ("const ", " = a;"),
        ("var {", "} = a;"), ("let [", "] = a;"), ("function f(", ") {}"), ("function* g(", ") {}"), ("async function f(", ") {}"), ("class A { a(", ") {} }"), ("class A { set a(", ") {} }"),
        ("class A { constructor(", ") {} }"), ("class A extends B { constructor() {", "} }"), ("class A { static a() {", "} }"), ("({ a() {", "} });"), ("({ *a() {", "} });"),
        ("({ async a() {", "} });"), ("({ async *a() {", "} });"), ("import ", ";"), ("import {", "} from 'm';"), ("import ", " from 'm';"), ("export ", ";"), ("export {", "};"), ("export {", "} from 'm';"),
        ("export default ", ";"), ("switch (a) {", "}"), ("switch (a) { case ", "}"), ("if (a) ", " else b"), ("if (a) ", ""), ("while (a) ", ""), ("do ", " while (a)"), ("a: ", ""), ("try {} ", ""),
        ("try {} catch (", ") {}"), ("`${", "}`;"), ("a ? ", " : b;"), ("a ? b : ", ";"), ("new ", ";"), ("new ", "();"), ("a", ";"), ("a.", ";"), ("a?.", ";"), ("a(", ");"), ("a[", "];"), ("(", ");"),
        ("-", " ** a;"), ("a = ", ";"), ("", " = a;"), ("", "++;"), ("++", ";"), ("return ", ";"), ("function* g() { yield ", "}"), ("async function f() { await ", "}"), ("throw ", ";"),
        ("'use strict'; ", ";"), ("var f = function ", "() {}"), ("function ", "() {}"), ("class ", " {}"), ("class A extends ", " {}"), ("async ", ";"), ("(async ", ");"), ("{", "}"),
        ("with (a) ", ""), ("for (;;) ", ""), ("break ", ";"), ("delete ", ";"), ("typeof ", ";"), ("...", ";"), ("a\n", ";"), ("a", "\nb"), ("{ a", "}"),
    ];
    let mut s = String::new();
    let mut open: Vec<&str> = vec![];
    let (before, after, most) = if src.chance(3, 4) {
        let (b, a) = AROUND[src.below(AROUND.len())];
        (b, a, 7)
    } else {
        ("", "", 14)
    };
    s.push_str(before);
    for _ in 0..src.range(1, most) {
        let t = match src.weighted(&[6, 5, 3]) {
            0 => src.pick(W),
            1 => src.pick(P),
            _ => open.pop().unwrap_or(";"),
        };
        match t {
            "(" => open.push(")"),
            "[" => open.push("]"),
            "{" => open.push("}"),
            _ => {}
        }
        s.push_str(t);
        s.push_str(src.pick(&[" ", " ", " ", " ", "\n"]));
    }
    while let Some(t) = open.pop() {
        s.push_str(t);
    }
    s.push_str(after);
    s
}

/// The tokens of a text, each read as what may stand there in most cases.
fn tokens(text: &str) -> Vec<Tok> {
    let mut lexer = Ref::new(text);
    let mut out: Vec<Tok> = vec![];
    let mut open: Vec<char> = vec![];
    loop {
        let operand = match out.last() {
            None => true,
            Some(t) => match t.kind {
                K::Punct => !matches!(t.text.as_str(), ")" | "]" | "}"),
                K::Keyword => !matches!(t.text.as_str(), "this" | "super" | "null" | "true" | "false"),
                K::Tpl | K::TplCont => t.text.ends_with("${"),
                _ => false,
            },
        };
        let template = open.last() == Some(&'`') && text[lexer.pos..].trim_start().starts_with('}');
        let goal = if template { Goal::Template } else if operand { Goal::Regex } else { Goal::Div };
        let Next::Tok(t) = lexer.next(goal, false) else { break };
        let raw = &text[t.start..t.end];
        let kind = match t.kind {
            RK::Word if crate::reflex::words().contains(&raw) => K::Keyword,
            RK::Word => K::Ident,
            RK::Punct => K::Punct,
            RK::Num => K::Num,
            RK::Str(_) => K::Str,
            RK::Regex => K::Regex,
            RK::TplPlain | RK::TplHead => K::Tpl,
            RK::TplMiddle | RK::TplTail => K::TplCont,
        };
        match (t.kind, raw) {
            (RK::TplHead, _) => open.push('`'),
            (RK::TplTail, _) => {
                open.pop();
            }
            (RK::Punct, "{") => open.push('{'),
            (RK::Punct, "}") => {
                open.pop();
            }
            _ => {}
        }
        out.push(Tok { text: raw.to_owned(), kind, no_lt: false, ends: false, asi: if raw == ";" { Asi::Stmt } else { Asi::No } });
    }
    out
}

/// A few of the texts that break a rule or just do not, with other tokens.
fn rules(src: &mut Src, module: bool) -> String {
    let mut toks = vec![];
    for _ in 0..src.range(1, 3) {
        toks.extend(tokens(&super::early::any_text(src, module)));
    }
    if toks.is_empty() {
        return String::new();
    }
    let style = [Style::Mixed, Style::Spaced, Style::Tight][src.below(3)];
    let asi = src.chance(1, 2);
    if src.chance(4, 5) {
        let other = toks.clone();
        damage(src, &mut toks, &other);
    }
    if toks.is_empty() {
        return String::new();
    }
    layout(&toks, src, LayoutOpt { style, module, asi }).text
}

fn damaged(src: &mut Src, idx: u64, module: bool, focus: Focus) -> String {
    let mut a = Prog::generate(src, module, focus, fuel(idx, 30));
    let other = if src.chance(1, 3) { Prog::generate(src, module, Focus::All, fuel(idx / 2, 20)).toks } else { a.toks.clone() };
    damage(src, &mut a.toks, &other);
    let style = [Style::Mixed, Style::Spaced, Style::Tight][src.below(3)];
    if a.toks.is_empty() {
        return String::new();
    }
    a.lay(src, style, src.record.len() % 2 == 0).text
}

fn text(src: &mut Src, idx: u64, module: bool) -> (&'static str, String) {
    match src.weighted(&[10, 8, 2, 5]) {
        0 => {
            let focus = ALL_FOCUS[src.below(ALL_FOCUS.len())];
            ("damaged tokens", damaged(src, idx, module, focus))
        }
        1 => ("words", words(src)),
        3 => ("rules", rules(src, module)),
        _ => text::any(src, idx, module),
    }
}

/// Early errors of which fajt checks none or not all (see DESIGN.md), by the message of acorn.
const UNCHECKED: &[&str] = &[
    "Unsyntactic break", "Unsyntactic continue", "has already been declared", "is disallowed as a lexically bound name", "Argument name clash", "is not defined", "Duplicate export",
    "is already declared", "Multiple default clauses", "Illegal 'use strict' directive", "'with' in strict mode", "Constructor can't", "Duplicate constructor", "Octal literal",
    "Classes can't have", "Classes may not", "can only be used in functions", "Binding ",
    // Known findings K8 and K11, and templates.
    "Bad character escape sequence", "Code point out of bounds", "Bad escape sequence in untagged template",
    // `yield` as a parameter of a generator.
    "Cannot use 'yield' as identifier inside a generator", "Yield expression cannot be a default value",
];

/// Is the disagreement one of those that are known?
/// Is there a pattern as the rest of an object pattern?
fn pattern_as_object_rest(v: &Value) -> bool {
    match v {
        Value::Object(o) => {
            o.get("props").is_some() && o.get("rest").is_some_and(|r| r.get("AssignmentPattern").is_some())
                || o.values().any(pattern_as_object_rest)
        }
        Value::Array(a) => a.iter().any(pattern_as_object_rest),
        _ => false,
    }
}

fn known(text: &str, ours: &ParseResult, a: &crate::oracle::Answer) -> bool {
    match ours {
        Ok(_) if !a.ok => {
            UNCHECKED.iter().any(|m| a.msg.contains(m))
                || a.v8 == "Missing initializer in const declaration"
                // The same in the body of an arrow function, where V8 reports something else.
                || a.msg == "Unexpected token" && text.contains("const") && text.contains("=>")
                || a.v8.starts_with("Illegal continue") || a.v8.starts_with("Illegal break")
                || a.v8.starts_with("Undefined label")
                || a.v8.starts_with("Yield expression not allowed in formal parameter")
                || a.v8.starts_with("Invalid regular expression")
                || a.v8.starts_with("Cannot use 'import.meta' outside a module")
                // K8
                || text.contains("export") && a.v8 == "Unexpected reserved word"
                || text.contains("export") && a.v8 == "Unexpected strict mode reserved word"
                // K3
                || a.msg == "The keyword 'yield' is reserved" && text.contains('*')
                // K5
                || a.v8.contains("must not contain escaped characters")
                // `await` in the head of async arrow functions.
                || text.contains("async") && text.contains("await") && (a.msg.contains("await") || a.v8.contains("await"))
                // K7
                || a.v8.starts_with("`...` must be followed by")
                || a.v8 == "Invalid destructuring assignment target" && ours.as_ref().is_ok_and(|p| pattern_as_object_rest(&tree_of(p)))
        }
        Ok(_) => a.features.contains("K3"),
        Err(_) => {
            !a.features.is_empty()
                // Unicode versions differ.
                || text.chars().any(|c| c > '\x7f' && !crate::reflex::is_part(c) && c.is_alphabetic() || crate::reflex::is_newer(c))
        }
    }
}

fn grammar(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let module = src.chance(1, 4);
    let (kind, text) = text(src, idx, module);
    if text.len() > 1500 {
        return Ok(());
    }
    compare(info, kind, &text, module)
}

/// Programs of a kind, damaged.
pub fn damaged_programs(src: &mut Src, info: &mut Info, idx: u64, focus: Focus, module: bool) -> CaseResult {
    let text = damaged(src, idx, module, focus);
    if text.len() > 1500 {
        return Ok(());
    }
    compare(info, "damaged tokens", &text, module)
}

/// A text of one of these rules, damaged with tokens of another.
pub fn damaged_rules(src: &mut Src, info: &mut Info, only: &'static [&'static str], module: bool) -> CaseResult {
    let (a, b) = super::early::two_texts(src, module, only);
    let (mut toks, other) = (tokens(&a), tokens(&b));
    // What is there already is put in other places more often than anything else.
    for _ in 0..src.count(3) {
        let (n, m) = (toks.len(), other.len());
        if n == 0 || m == 0 {
            break;
        }
        let at = src.below(n + 1);
        let from = src.below(m);
        let to = (from + 1 + src.below(6)).min(m);
        let upto = if src.chance(1, 3) { (at + 1 + src.below(4)).min(n) } else { at };
        toks.splice(at..upto.max(at), other[from..to].iter().cloned());
    }
    if src.chance(1, 3) {
        damage(src, &mut toks, &other);
    }
    if toks.is_empty() {
        return Ok(());
    }
    let style = [Style::Mixed, Style::Spaced, Style::Tight][src.below(3)];
    let asi = src.chance(1, 2);
    let text = layout(&toks, src, LayoutOpt { style, module, asi }).text;
    compare(info, "rules", &text, module)
}

/// A program in which a few characters of a literal are others.
pub fn damaged_words(src: &mut Src, info: &mut Info, idx: u64, module: bool) -> CaseResult {
    let mut prog = Prog::generate(src, module, Focus::Literals, fuel(idx, 12));
    let literals: Vec<usize> = (0..prog.toks.len())
        .filter(|i| matches!(prog.toks[*i].kind, K::Num | K::Str | K::Regex | K::Tpl | K::TplCont | K::Ident))
        .collect();
    if literals.is_empty() {
        return Ok(());
    }
    let at = literals[src.below(literals.len())];
    let kind = prog.toks[at].kind;
    let mut chars: Vec<char> = prog.toks[at].text.chars().collect();
    for _ in 0..src.range(1, 3) {
        let set: &[&str] = match kind {
            K::Num => &["_", "_", "__", ".", "e", "E", "+", "-", "0", "1", "8", "9", "x", "X", "o", "b", "B", "a", "f", "g", "7", "2", "e1", "0x", "\\u0030", "é", " "],
            K::Str => &["\\", "'", "\"", "\n", "\r", "\u{2028}", "\\\n", "u", "x", "{", "}", "a", "\\a", "\\\\", "\u{1F600}", "\\'", " "],
            K::Regex => &["\\", "/", "[", "]", "\n", "\\/", "[/]", "\\]", "\\[", "\u{2029}", "a", "*", "g", "\\\\", "=", " "],
            K::Ident => &["\\u0061", "\\u{62}", "\\u{", "\\", "\\u0030", "$", "_", "0", "é", "\u{200c}", "-", "#", "\u{301}", "\\u002d", "a"],
            _ => &["`", "$", "{", "}", "${", "\\", "\\`", "\\$", "$\\{", "\n", "\\\\", "$$", "a", "{}", "''"],
        };
        let n = chars.len();
        let i = src.below(n + 1);
        match src.below(4) {
            0 if n > 1 => {
                chars.remove(i.min(n - 1));
            }
            1 if i < n => {
                let c = chars[src.below(n)];
                chars[i] = c;
            }
            2 if i < n => {
                let t: Vec<char> = src.pick(set).chars().collect();
                chars.splice(i..i + 1, t);
            }
            _ => {
                let t: Vec<char> = src.pick(set).chars().collect();
                chars.splice(i..i, t);
            }
        }
    }
    prog.toks[at].text = chars.into_iter().collect();
    let style = [Style::Mixed, Style::Spaced][src.below(2)];
    let text = prog.lay(src, style, false).text;
    if text.len() > 1500 {
        return Ok(());
    }
    compare(info, "words", &text, module)
}

/// A row of words, in which those that depend on the context are frequent.
pub fn contextual(src: &mut Src, info: &mut Info) -> CaseResult {
    let module = src.chance(1, 4);
    let text = words(src);
    let contextual = |w: &str| CONTEXTUAL.contains(&w) || matches!(w, "let" | "static" | "yield" | "await");
    if !text.split(|c: char| !c.is_alphanumeric()).any(contextual) {
        return Ok(());
    }
    compare(info, "row of words", &text, module)
}

fn compare(info: &mut Info, kind: &'static str, text: &str, module: bool) -> CaseResult {
    let ours = parse(text, module)?;
    let tree = ours.as_ref().ok().map(tree_of);
    let Some(answer) = crate::oracle::ask(text, module, tree.as_ref()) else {
        return Ok(());
    };
    let problem = match (&ours, answer.ok) {
        (Err(e), true) => format!("rejected: the oracle accepts: {:?}", e.kind()),
        (Ok(_), false) => format!("accepted: the oracle rejects: {} | {}", answer.msg, answer.v8),
        (Ok(_), true) if answer.diff.is_some() => format!("tree differs: {}", answer.diff.as_ref().unwrap()),
        _ => String::new(),
    };
    if !problem.is_empty() && known(text, &ours, &answer) {
        info.class("known disagreement");
        return Ok(());
    }
    info.set(text, true);
    info.class(kind);
    info.class(if answer.ok { "accepted" } else { "rejected" });
    if std::env::var_os("SURVEY").is_some() && !problem.is_empty() {
        eprintln!("S\t{problem}\t{module}\t{text:?}");
        return Ok(());
    }
    if problem.is_empty() {
        return Ok(());
    }
    Err(Fail::new(problem, describe(text, module)))
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P14",
        rule: "acorn and V8 agree on the text",
        quick: 2_000_000,
        thorough: 30_000_000,
        run: grammar,
        fixed: None,
        assumptions: &[],
        slow: false,
    }]
}
