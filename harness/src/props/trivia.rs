//! White space and comments; positions.

use super::common::*;
use super::tree::ALL_FOCUS;
use crate::engine::*;
use crate::layout::*;
use crate::src::Src;

fn wild(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let module = src.chance(1, 4);
    let focus = ALL_FOCUS[src.below(ALL_FOCUS.len())];
    let mut prog = Prog::generate(src, module, focus, fuel(idx, 45));
    let laid = prog.lay(src, Style::Wild, false);
    let expected = prog.expected(&laid);
    prog.classify(info);
    info.class_if(laid.comments > 0, "comments");
    info.class_if(laid.newlines > 0, "line terminators");
    info.set(&laid.text, laid.comments > 0 && prog.toks.len() > 3);
    check_tree(&laid.text, module, &expected, Spans::Ignore).map(|_| ())
}

/// What looks like trivia and is not, or the other way round.
fn borders(src: &mut Src, info: &mut Info, _idx: u64) -> CaseResult {
    let module = src.chance(1, 3);
    let nl = line_break(src, module);
    let raw_nl = src.pick(&["\n", "\r\n", "\r", "\u{2028}", "\u{2029}"]);
    let sp = blank(src);
    let a = piece(src, module, 6, |g| {
        g.restrict(crate::js::R_BRACE | crate::js::R_FUNC | crate::js::R_LET | crate::js::R_ASYNC | crate::js::R_STRING | crate::js::R_ARRAY);
        g.simple_target();
    });
    let b = piece(src, module, 6, |g| {
        g.restrict(crate::js::R_BRACE | crate::js::R_FUNC | crate::js::R_LET | crate::js::R_ASYNC | crate::js::R_STRING);
        g.unary();
    });
    let junk = src.pick(&["", "x", " ) ] }", " \u{1F600} ' \" `", " */", " /*", "${", "--> <!--", "\\u{"]);
    info.class("borders of comments");
    let (text, other): (String, Option<String>) = match src.below(16) {
        0 => (format!("{a}; /*{}", src.pick(&["", "*", " a", "/", "\n", " /* //", "* /"])), None),
        1 => (format!("{a};{sp}<!--{junk}"), (!module).then(|| format!("{a};"))),
        2 => (format!("{a};{sp}<!--{junk}{raw_nl}{b}"), (!module).then(|| format!("{a};\n{b}"))),
        3 => (format!("{a};{raw_nl}-->{junk}{raw_nl}{b}"), (!module).then(|| format!("{a};\n{b}"))),
        4 => (format!("{a};/*{raw_nl}*/{sp}-->{junk}{raw_nl}{b}"), (!module).then(|| format!("{a};\n{b}"))),
        5 => (format!("-->{junk}{raw_nl}{b}"), (!module).then(|| format!(";{b}").replacen(';', "", 1))),
        // `-->` elsewhere is two operators.
        6 => (format!("{a}-->{b}"), Some(format!("{a} -- > {b}"))),
        7 => (format!("x = 1 {sp}-->{b}"), None),
        // Not comments.
        8 => (format!("x = {a} < ! --{a}"), Some(format!("x = {a} < (!--{a})"))),
        9 => {
            if module || a.contains(['\n', '\r', '\u{2028}', '\u{2029}']) {
                return Ok(());
            }
            (format!("x = {a}<!--{a}\n;{b}"), Some(format!("x = {a};\n{b}")))
        }
        10 => (format!("x = '//'{sp};{b} // '"), Some(format!("x = '//';{b}"))),
        11 => (format!("x = `/*`;{b}/*`*/"), Some(format!("x = `/*`;{b}"))),
        12 => (format!("x = /[/*]/;{b}/*]*/"), Some(format!("x = /[/*]/;{b}"))),
        13 => (format!("{a} //{junk}{raw_nl}= {a}"), Some(format!("{a} = {a}"))),
        14 => (format!("{a} /*{}{raw_nl}*/{nl}= {a}", junk.replace("*/", "")), Some(format!("{a} = {a}"))),
        _ => {
            // Everything after the line comment up to the end of the source.
            (format!("{a}//{junk}"), Some(a.clone()))
        }
    };
    info.set(&text, true);
    if let Some(o) = other {
        if text.starts_with(&format!("x = {a} < ! --")) {
            // The parentheses of the comparison are part of the tree.
            let p = must_accept(&text, module, "operators that are no comment")?;
            let t = tree_of(&p).to_string();
            if !t.contains("LessThan") || !t.contains("\"Not\"") {
                return Err(Fail::new("tree differs: operators are taken for a comment", describe(&text, module)));
            }
            must_accept(&o, module, "parenthesized")?;
            return Ok(());
        }
        if text.starts_with(&format!("{a}-->")) && module {
            // Also fine: it does not stand at the start of a line.
        }
        return same_tree(&text, &o, module, "trivia");
    }
    must_reject(&text, module, "this is not a comment, or one that is not allowed")
}

fn trivia(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    if src.chance(1, 5) {
        borders(src, info, idx)
    } else {
        wild(src, info, idx)
    }
}

fn spans(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let module = src.chance(1, 4);
    let focus = ALL_FOCUS[src.below(ALL_FOCUS.len())];
    let mut prog = Prog::generate(src, module, focus, fuel(idx, 60));
    let style = [Style::Spaced, Style::Tight, Style::Mixed, Style::Wild, Style::Wild][src.below(5)];
    let asi = src.chance(1, 3);
    let laid = prog.lay(src, style, asi);
    let expected = prog.expected(&laid);
    prog.classify(info);
    info.class_if(!laid.text.is_ascii(), "characters of several bytes");
    info.class_if(laid.dropped > 0, "semicolons left out");
    info.set(&laid.text, prog.toks.len() > 3);
    let mut tree = check_tree(&laid.text, module, &expected, Spans::Compare)?;
    if src.chance(1, 6) {
        use fajt_ast::traverse::Traverse;
        let mut v = Asked { wrong: None };
        let whole = tree.span().clone();
        if whole != span_of(&serde_json::to_value(&tree).expect("serialize")) {
            return Err(Fail::new(format!("span differs: Program::span gives {whole:?}"), describe(&laid.text, module)));
        }
        tree.traverse(&mut v);
        if let Some(w) = v.wrong {
            return Err(Fail::new(w, describe(&laid.text, module)));
        }
        info.class("asked nodes for their spans");
    }
    Ok(())
}

/// The span of `{"Variant": {"span": …}}`, or of the variant of a variant.
fn span_of(v: &serde_json::Value) -> fajt_ast::Span {
    match v.get("span") {
        Some(s) => serde_json::from_value(s.clone()).expect("span"),
        None => span_of(v.as_object().and_then(|o| o.values().next()).expect("variant")),
    }
}

/// Asks each node for its span.
struct Asked {
    wrong: Option<String>,
}

impl Asked {
    fn ask<T: fajt_ast::Spanned + serde::Serialize>(&mut self, node: &T) -> bool {
        let v = serde_json::to_value(node).expect("serialize");
        if *node.span() != span_of(&v) && self.wrong.is_none() {
            self.wrong = Some(format!("span differs: {:?} is the span of {v}", node.span()));
        }
        true
    }
}

impl fajt_ast::traverse::Visitor for Asked {
    fn enter_expr(&mut self, node: &mut fajt_ast::Expr) -> bool {
        self.ask(node)
    }

    fn enter_stmt(&mut self, node: &mut fajt_ast::Stmt) -> bool {
        self.ask(node)
    }

    fn enter_binding_pattern(&mut self, node: &mut fajt_ast::BindingPattern) -> bool {
        self.ask(node)
    }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P10",
            rule: "comments stand between the tokens of a program, or at the border of what is a comment",
            quick: 800_000,
            thorough: 20_000_000,
            run: trivia,
            fixed: None,
            assumptions: &[],
            slow: false,
        },
        Property {
            id: "P11",
            rule: "the program has more than 3 tokens",
            quick: 800_000,
            thorough: 20_000_000,
            run: spans,
            fixed: None,
            assumptions: &["tokens whose last character is not ASCII are left out (known finding K1)"],
            slow: false,
        },
    ]
}
