//! Errors: that there is one or a tree for any text, and how they are shown.

use super::common::*;
use crate::engine::*;
use crate::layout::*;
use crate::src::Src;
use crate::text;
use fajt_ast::{Expr, Program, SourceType, Stmt};
use fajt_parser::error::emitter::ErrorEmitter;
use fajt_parser::error::{Error, ErrorKind};
use serde_json::Value;

/// The region an error reports, known from its debug text only.
fn region(err: &Error) -> Option<(usize, usize)> {
    let s = format!("{err:?}");
    let at = s.rfind("span: Span { start: ")?;
    let rest = &s[at + "span: Span { start: ".len()..];
    let (a, rest) = rest.split_once(", end: ")?;
    let (b, _) = rest.split_once(' ')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}

pub fn emit(file: &str, text: &str, err: &Error, input: &str) -> Result<String, Fail> {
    guard(input, || {
        let mut out = vec![];
        ErrorEmitter::new(file, text, &mut out).emit_error(err).expect("written to memory");
        String::from_utf8(out).expect("utf-8")
    })
}

// ---- P01 ----

/// Every region in the tree lies within the text.
fn within(v: &Value, len: usize) -> Option<String> {
    match v {
        Value::Object(o) => o.iter().find_map(|(k, x)| {
            if k == "span" || k == "arguments_span" {
                if let Some((a, b)) = x.as_str().and_then(|s| s.split_once(':')) {
                    let (a, b): (usize, usize) = (a.parse().unwrap_or(usize::MAX), b.parse().unwrap_or(usize::MAX));
                    if a > b || b > len {
                        return Some(format!("{a}:{b} of {len} bytes"));
                    }
                }
            }
            within(x, len)
        }),
        Value::Array(a) => a.iter().find_map(|x| within(x, len)),
        _ => None,
    }
}

fn total<T: fajt_parser::Parse + serde::Serialize>(text: &str, module: bool, what: &str) -> Result<bool, Fail> {
    let input = format!("{what}: {}", describe(text, module));
    let ty = || if module { SourceType::Module } else { SourceType::Script };
    let a = guard(&input, || fajt_parser::parse::<T>(text, ty()))?;
    let b = guard(&input, || fajt_parser::parse::<T>(text, ty()))?;
    let fail = |m: String| Err(Fail::new(m, input.clone()));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let (a, b) = (serde_json::to_value(&a).expect("serialize"), serde_json::to_value(&b).expect("serialize"));
            if a != b {
                return fail("differs: parsing again gives another tree".to_owned());
            }
            if let Some(s) = within(&a, text.len()) {
                return fail(format!("region: a node is outside of the text: {s}"));
            }
            Ok(true)
        }
        (Err(a), Err(b)) => {
            if a != b || format!("{a:?}") != format!("{b:?}") {
                return fail(format!("differs: parsing again gives another error: {a:?} and {b:?}"));
            }
            let Some((s, e)) = region(&a) else {
                return fail(format!("region: the error has none: {a:?}"));
            };
            if s > e || e > text.len() {
                return fail(format!("region: the error reports {s}:{e} of {} bytes: {a:?}", text.len()));
            }
            let x = emit("f.js", text, &a, &input)?;
            let y = emit("f.js", text, &b, &input)?;
            if x != y || x.is_empty() || !x.ends_with('\n') {
                return fail(format!("diagnostic: {x:?} and {y:?}"));
            }
            Ok(false)
        }
        (a, b) => fail(format!("differs: parsing again gives {} after {}", b.is_ok(), a.is_ok())),
    }
}

fn robust(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let module = src.chance(1, 2);
    let (kind, text) = match src.weighted(&[12, 1, 1]) {
        0 => text::any(src, idx, module),
        1 => ("nested", nested(src)),
        _ => {
            let t = text::program(src, idx, module);
            let mut at = src.below(t.len() + 1);
            while !t.is_char_boundary(at) {
                at -= 1;
            }
            ("cut program", t[..at].to_owned())
        }
    };
    info.class(kind);
    info.set(&text, text.len() > 3);
    info.evaluations = 2;
    let ok = total::<Program>(&text, module, "Program")?;
    info.class(if ok { "accepted" } else { "rejected" });
    match src.below(4) {
        0 => {
            total::<Stmt>(&text, module, "Stmt")?;
            info.evaluations += 2;
        }
        1 => {
            total::<Expr>(&text, module, "Expr")?;
            info.evaluations += 2;
        }
        _ => {}
    }
    total::<Program>(&text, !module, "Program")?;
    info.evaluations += 2;
    Ok(())
}

/// Openings one in the other, some of them closed: what is parsed on trial is parsed once per level.
fn nested(src: &mut Src) -> String {
    const OPEN: &[(&str, &str)] = &[
        ("(", ")"), ("[", "]"), ("({a:", "})"), ("{", "}"), ("`${", "}`"), ("f(", ")"), ("async(", ")"), ("(a=", ")=>1"), ("async(a=", ")=>1"), ("[a=", "]=b"),
        ("({a=", "}=b)"), ("function f(){", "}"), ("class A{[", "](){}}"), ("new ", "()"), ("a?", ":b"), ("x=>", ""), ("x=>{", "}"), ("!", ""), ("if(a)", ";else b"),
        ("for(", ";;);"), ("for(x of ", ");"), ("do ", "while(a)"), ("l:", ""), ("(async x=>", ")"), ("a??(", ")"), ("a**", ""), ("yield ", ""), ("await ", ""),
        ("{a:", "}"), ("(...", ")=>1"), ("super(", ")"), ("import(", ")"), ("a?.[", "]"), ("let [", "]=1"), ("({get a(){", "}})"), ("switch(a){case ", ":}"),
    ];
    let max = if src.chance(1, 10) { 60 } else { 12 };
    let depth = src.range(1, max);
    let n = 1 + src.below(3);
    let kinds: Vec<usize> = (0..n).map(|_| src.below(OPEN.len())).collect();
    // K12: the time doubles with each level of these.
    let slow = ["(a=", "async(a=", "[a=", "({a=", "let ["];
    let depth = if kinds.iter().any(|k| slow.contains(&OPEN[*k].0)) { depth.min(9) } else { depth };
    let which: Vec<usize> = (0..depth).map(|_| kinds[src.below(kinds.len())]).collect();
    let mut s: String = which.iter().map(|i| OPEN[*i].0).collect();
    s.push_str(src.pick(&["a", "", "1", "a,b", "...a", "{a}", "@", "a b", "=>", "...", "`", "/"]));
    let close = if src.chance(1, 2) { depth } else { src.below(depth + 1) };
    for i in which.iter().rev().take(close) {
        s.push_str(OPEN[*i].1);
    }
    s
}

/// All short sequences of tokens.
fn short_texts(fixed: &mut Fixed) -> CaseResult {
    const T: &[&str] = &[
        "a", "1", "'s'", "/", "`", "`a${", "}", "{", "(", ")", "[", "]", ".", "...", ";", ",", "=", "=>", ":", "?", "?.", "+", "++", "!", "*", "<", "async", "await", "yield", "let",
        "of", "in", "get", "set", "static", "new", "target", "function", "class", "extends", "import", "export", "default", "from", "as", "for", "if", "else", "while", "do", "return",
        "var", "const", "super", "this", "try", "catch", "switch", "case", "\n", "é", "@", "\\u0061", "//", "/*",
    ];
    for a in T {
        for b in T {
            watch(|| format!("{a:?} {b:?} and one more"));
            for c in std::iter::once("").chain(T.iter().copied()) {
                for (module, sep) in [(false, " "), (true, "")] {
                    total::<Program>(&format!("{a}{sep}{b}{sep}{c}"), module, "Program")?;
                    fixed.evaluations += 2;
                    fixed.distinct += 1;
                }
            }
        }
    }
    fixed.notes.push(format!("all sequences of two or three of {} tokens", T.len()));
    Ok(())
}

// ---- P16 ----

/// What is to be printed. The text of the message itself is that of the error.
fn model(file: &str, text: &str, err: &Error, (s, e): (usize, usize)) -> (String, Option<String>) {
    let mut s = s;
    let mut e = e;
    while !text.is_char_boundary(s) {
        s -= 1;
    }
    while !text.is_char_boundary(e) {
        e += 1;
    }
    if (s, e) == (0, 0) {
        return (format!("{err}\n --> {file}\n"), None);
    }
    // Position by walking over the characters.
    let (mut line, mut col, mut line_start) = (1, 1, 0);
    for (i, c) in text.char_indices() {
        if i >= s {
            break;
        }
        if c == '\n' {
            line += 1;
            col = 1;
            line_start = i + 1;
        } else {
            col += 1;
        }
    }
    let (mut shown, mut under) = (String::new(), String::new());
    let mut marks = 0;
    for (i, c) in text[line_start..].char_indices() {
        let i = i + line_start;
        if c == '\n' {
            break;
        }
        let width = if c == '\t' { 4 } else { 1 };
        match c {
            '\t' => shown.push_str("    "),
            c => shown.push(c),
        }
        if i < s {
            under.push_str(&" ".repeat(width));
        } else if i < e {
            under.push_str(&"^".repeat(width));
            marks += width;
        }
    }
    if marks == 0 {
        under.push('^');
    }
    let pad = " ".repeat(line.to_string().len() + 1);
    (
        format!("{err}\n --> {file}:{line}:{col}\n"),
        Some(format!("{pad}|\n{line} | {shown}\n{pad}| {under}")),
    )
}

/// What messages quote is the text of the region.
fn quoted(t: &str, err: &Error, label: &str, input: &str) -> CaseResult {
    let head = format!("{err}");
    let fail = |m: String| Err(Fail::new(m, input.to_owned()));
    // Names are quoted without their escapes.
    if t.is_empty() || t.contains('\\') {
        return Ok(());
    }
    let literal = t.starts_with(|c: char| c.is_ascii_digit() || matches!(c, '\'' | '"' | '`')) || t.len() > 1 && (t.starts_with('/') && t != "/=" || t.starts_with('}') || t.starts_with('.') && !t.starts_with("..."));
    let quotes = |s: &str| -> Option<String> {
        let (_, rest) = s.split_once('`')?;
        Some(rest.rsplit_once('`')?.0.to_owned())
    };
    match err.kind() {
        ErrorKind::UnexpectedToken(..) | ErrorKind::ExpectedIdentifier(_) | ErrorKind::UnexpectedIdent(_) | ErrorKind::ForbiddenIdentifier(_) => {
            let q = quotes(&head);
            // Parts of templates are not quoted.
            if q.is_none() && (t.starts_with('`') || t.len() > 1 && t.starts_with('}')) {
                return Ok(());
            }
            if literal && q.as_deref() != Some("literal") || !literal && q.as_deref() != Some(t) {
                return fail(format!("message: {t:?} was found, it says {head:?}"));
            }
        }
        ErrorKind::LexerError(e) => {
            let shown = format!("{e}");
            if let Some(c) = shown.strip_prefix("Unknown code point ") {
                if t.chars().next().map(|c| (c as u32).to_string()).as_deref() != Some(c.trim_end_matches('\'')) {
                    return fail(format!("message: {t:?} was found, it says {head:?}"));
                }
            }
        }
        _ => {}
    }
    if let ErrorKind::ExpectedIdentifier(_) = err.kind() {
        let q = if literal { "literal" } else { t };
        if label != format!("Unexpected token, found `{q}`, expected identifier") {
            return fail(format!("label: {t:?} was found, it says {label:?}"));
        }
    }
    Ok(())
}

/// An output that fails after some bytes.
struct Full {
    left: usize,
    got: Vec<u8>,
}

impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn check_rendering(src: &mut Src, info: &mut Info, text: &str, err: &Error, input: &str) -> CaseResult {
    let file = src.pick(&["a.js", "é x.mjs", "", "/b/c:1.js", "{}", "a\tb", "..", "日本.module.js", "--> a:1:1"]);
    let fail = |m: String| Err(Fail::new(m, input.to_owned()));
    let Some(span) = region(err) else {
        return fail(format!("region: the error has none: {err:?}"));
    };
    if span.0 > span.1 || span.1 > text.len() {
        return fail(format!("region: the error reports {span:?} of {} bytes: {err:?}", text.len()));
    }
    let got = emit(file, text, err, input)?;
    if src.chance(1, 4) {
        let room = src.below(got.len() + 1);
        let mut out = Full { left: room, got: vec![] };
        let result = guard(input, || ErrorEmitter::new(file, text, &mut out).emit_error(err).is_ok())?;
        info.class("output fails");
        if result != (room == got.len()) || out.got != got.as_bytes()[..room] {
            return fail(format!("output: after {room} of {} bytes the result is {result}, written was {:?}", got.len(), String::from_utf8_lossy(&out.got)));
        }
    }
    let (head, body) = model(file, text, err, span);
    let Some(rest) = got.strip_prefix(&head) else {
        return fail(format!("head differs: expected {head:?}, got {got:?}"));
    };
    if format!("{err}").trim().is_empty() {
        return fail("message: it is empty".to_owned());
    }
    let Some(body) = body else {
        info.class("at the end of input");
        if *err.kind() == ErrorKind::EndOfStream && !rest.is_empty() {
            return fail(format!("head differs: nothing is to follow, got {rest:?}"));
        }
        return Ok(());
    };
    let region_text = text.get(span.0..span.1);
    info.class_if(region_text.is_some_and(|t| t.contains('\n')), "over several lines");
    info.class_if(body.contains("    "), "tabs or blanks");
    info.class_if(!text.is_ascii(), "not ASCII");
    let Some(label) = rest.strip_prefix(&body) else {
        return fail(format!("body differs: expected {body:?}, got {rest:?}"));
    };
    let Some(label) = label.strip_prefix(' ').and_then(|l| l.strip_suffix('\n')) else {
        return fail(format!("label: {label:?}"));
    };
    if let Some(t) = region_text {
        quoted(t, err, label, input)?;
    }
    // What the label says was found.
    if let (Some(t), ErrorKind::UnexpectedToken(_, Some(_))) = (region_text, err.kind()) {
        info.class("names what was found");
        if !label.contains(&format!("`{t}`")) {
            return fail(format!("label: `{t}` was found, it says {label:?}"));
        }
    }
    if let (Some(t), ErrorKind::ForbiddenIdentifier(_)) = (region_text, err.kind()) {
        info.class("forbidden name");
        if !label.contains(&format!("`{t}`")) && !t.contains('\\') {
            return fail(format!("label: `{t}` is forbidden, it says {label:?}"));
        }
    }
    Ok(())
}

fn diagnostics(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let module = src.chance(1, 3);
    if src.chance(1, 2) {
        let (kind, mut text) = text::any(src, idx, module);
        if src.chance(1, 4) {
            // Many lines: their numbers have several digits.
            let n = src.pick(&["8", "9", "10", "98", "99", "100", "1000"]).parse::<usize>().unwrap();
            text.insert_str(0, &"\n".repeat(n));
        }
        if src.chance(1, 40) {
            text.insert_str(0, &crate::layout::padding(src));
        } else if src.chance(1, 20) {
            // Far to the right.
            let n = src.range(1, 40) * src.range(1, 10);
            let pad = [" ".repeat(n), "\t".repeat(n), format!("/*{}*/", "é".repeat(n)), "a,".repeat(n), format!("/*{}*/", "\t日".repeat(n))][src.below(5)].clone();
            text.insert_str(0, &pad);
        }
        info.class(kind);
        let input = describe(&text, module);
        return match parse(&text, module)? {
            Ok(_) => Ok(()),
            Err(e) => {
                info.set(&text, true);
                check_rendering(src, info, &text, &e, &input)
            }
        };
    }
    // A program with something between its tokens that is part of none.
    let focus = super::tree::ALL_FOCUS[src.below(super::tree::ALL_FOCUS.len())];
    let prog = Prog::generate(src, module, focus, fuel(idx, 45));
    let style = if src.chance(1, 2) { Style::Wild } else { Style::Mixed };
    let laid = prog.lay(src, style, true);
    let places: Vec<(usize, usize)> = (0..prog.toks.len()).filter_map(|i| laid.pos[i].map(|p| (i, p.1))).collect();
    if places.is_empty() {
        return Ok(());
    }
    let (tok, at) = places[src.below(places.len())];
    let what = src.pick(&["@", "#", "\u{1}", "№", "\u{1F600}", "§", "\u{200b}", "\u{2030}", "\u{ad}"]);
    let mut text = laid.text.clone();
    text.insert_str(at, what);
    info.class("something strange");
    info.set(&text, true);
    let input = describe(&text, module);
    let err = match parse(&text, module)? {
        Ok(_) => return Err(Fail::new(format!("accepted: {what:?} at {at} is part of no token"), input)),
        Err(e) => e,
    };
    let (s, e) = region(&err).unwrap_or((0, 0));
    // The head of `for`, and `(a, )`, are parsed again in another way after an error, one of the
    // two errors is then the one reported.
    let before = &prog.toks[..=tok];
    let twice = before.iter().any(|t| t.text == "for") || before.windows(2).any(|w| w[0].text == "," && w[1].text == ")");
    // So is what would be a pattern if `=` followed.
    let twice = twice || matches!(prog.toks[tok].text.as_str(), "}" | "]" | ")");
    if twice && s <= at {
        info.class("maybe read twice");
        return check_rendering(src, info, &text, &err, &input);
    }
    // What follows decides whether the part right before may stand there by itself.
    if s < e && (e == at || e < at && matches!(err.kind(), ErrorKind::InitializedNameNotAllowed | ErrorKind::SyntaxError(_))) {
        info.class("reports the part before");
        return check_rendering(src, info, &text, &err, &input);
    }
    // Where the region of a character ends: K1.
    if s != at || e > at + what.len() {
        return Err(Fail::new(format!("region: {what:?} stands at {at}, the error reports {s}:{e}: {err:?}"), input));
    }
    check_rendering(src, info, &text, &err, &input)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P01",
            rule: "a text of more than 3 bytes, parsed twice for both goals",
            quick: 400_000,
            thorough: 10_000_000,
            run: robust,
            fixed: Some(short_texts),
            assumptions: &[],
            slow: false,
        },
        Property {
            id: "P16",
            rule: "a text that is rejected, whose diagnostic is compared to the model",
            quick: 400_000,
            thorough: 10_000_000,
            run: diagnostics,
            fixed: None,
            assumptions: &[],
            slow: false,
        },
    ]
}
