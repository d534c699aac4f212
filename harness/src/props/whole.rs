//! Relations between whole programs: serialization, entry points, composition.

use super::common::*;
use super::tree::ALL_FOCUS;
use crate::engine::*;
use crate::js::{Focus, G};
use crate::layout::*;
use crate::src::Src;
use crate::text;
use fajt_ast::{Expr, Program, SourceType, Stmt};
use fajt_lexer::token::Token;
use fajt_lexer::Lexer;
use serde_json::{json, Value};

fn list(tree: &Value) -> &Value {
    tree.get("Script").or_else(|| tree.get("Module")).expect("program")
}

/// A text that is a valid program, mostly a generated one, at times a damaged one that still is.
fn valid_text(src: &mut Src, idx: u64, module: bool) -> Result<Option<(String, Program)>, Fail> {
    for _ in 0..3 {
        let (_, text) = text::any(src, idx, module);
        if let Ok(p) = parse(&text, module)? {
            return Ok(Some((text, p)));
        }
    }
    let text = text::program(src, idx, module);
    Ok(parse(&text, module)?.ok().map(|p| (text, p)))
}

// ---- P20 ----

fn serialization(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let module = src.chance(1, 3);
    let Some((text, mut tree)) = valid_text(src, idx, module)? else {
        return Ok(());
    };
    let input = describe(&text, module);
    info.set(&text, text.len() > 8);
    info.class_if(module, "module");
    if src.chance(1, 4) {
        // The same tree as if it stood somewhere else.
        let by = 1usize << src.range(4, 50);
        let by = by + src.below(by.min(1 << 30));
        let mut value = tree_of(&tree);
        shift(&mut value, by);
        match serde_json::from_value::<Program>(value.clone()) {
            Err(e) if e.to_string().contains("recursion limit") => {}
            Err(e) => return Err(Fail::new(format!("deserialize: a tree moved by {by} is rejected: {e}"), input)),
            Ok(moved) => {
                if tree_of(&moved) != value {
                    return Err(Fail::new(format!("deserialize: a tree moved by {by} serializes to something else"), input));
                }
                info.class("moved");
                if moved == tree && value != tree_of(&tree) {
                    return Err(Fail::new(format!("equality: a tree moved by {by} equals the one that was not"), input));
                }
                tree = moved;
            }
        }
    }
    let fail = |msg: String| Err(Fail::new(msg, input.clone()));
    let value = tree_of(&tree);
    let string = serde_json::to_string(&tree).expect("serialize");
    let pretty = serde_json::to_string_pretty(&tree).expect("serialize");
    for (what, back) in [
        ("value", serde_json::from_value::<Program>(value.clone())),
        ("text", serde_json::from_str::<Program>(&string)),
        ("pretty text", serde_json::from_str::<Program>(&pretty)),
    ] {
        match back {
            // A limit of serde_json.
            Err(e) if e.to_string().contains("recursion limit") => info.class("too deep for serde_json"),
            Err(e) => return fail(format!("deserialize: the {what} of a tree is rejected: {e}")),
            Ok(b) => {
                if b != tree {
                    return fail(format!("deserialized: the tree from its {what} is another one"));
                }
                if tree_of(&b) != value {
                    return fail(format!("deserialized: the tree from its {what} serializes to something else"));
                }
            }
        }
    }
    // A copy.
    if src.chance(1, 4) {
        let copy = match &tree {
            Program::Script(l) => (&l.directives, &l.body),
            Program::Module(l) => (&l.directives, &l.body),
        };
        let copied = (copy.0.clone(), copy.1.clone());
        if copied.0 != *copy.0 || copied.1 != *copy.1 {
            return fail("equality: a copy differs from its original".to_owned());
        }
        if serde_json::to_value(&copied.1).expect("serialize") != list(&value)["body"] {
            return fail("equality: a copy looks different".to_owned());
        }
    }
    // Trees are equal when they look the same.
    let other = match src.below(3) {
        0 => text.clone(),
        1 => format!("{text}\n"),
        _ => text::mutate(src, &text, &text),
    };
    if let Ok(o) = parse(&other, module)? {
        let (equal, same) = (o == tree, tree_of(&o) == value);
        info.class(if same { "compared to an equal tree" } else { "compared to another tree" });
        if equal != same {
            return fail(format!("equality: trees are {}equal but look {}\n{}", if equal { "" } else { "not " }, if same { "the same" } else { "different" }, describe(&other, module)));
        }
        if (format!("{o:?}") == format!("{tree:?}")) != same {
            return fail(format!("equality: debug texts and trees disagree\n{}", describe(&other, module)));
        }
    }
    // The tokens.
    let tokens = guard(&input, || Lexer::new(&text).and_then(|mut l| l.read_all()))?;
    if let Ok(tokens) = tokens {
        info.class("tokens");
        let v = serde_json::to_string(&tokens).expect("serialize");
        match serde_json::from_str::<Vec<Token>>(&v) {
            Ok(b) if b == tokens => {}
            other => return fail(format!("deserialized: tokens differ: {other:?}")),
        }
    }
    Ok(())
}

// ---- P21 ----

fn part<T: fajt_parser::Parse + serde::Serialize>(text: &str, module: bool) -> Result<Result<Value, String>, Fail> {
    let ty = if module { SourceType::Module } else { SourceType::Script };
    Ok(guard(&describe(text, module), || fajt_parser::parse::<T>(text, ty))?
        .map(|t| serde_json::to_value(&t).expect("serialize"))
        .map_err(|e| format!("{e:?}")))
}

fn entry_points(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    match src.below(6) {
        4 => strictness(src, info),
        0 => {
            // parse::<Program> and the named functions, on any text.
            let module = src.chance(1, 2);
            let (kind, text) = text::any(src, idx, module);
            info.class("program");
            info.class(kind);
            info.set(&text, text.len() > 4);
            let a = part::<Program>(&text, module)?;
            let b = parse(&text, module)?.map(|p| tree_of(&p)).map_err(|e| format!("{e:?}"));
            if a != b {
                return Err(Fail::new(format!("entry points differ: {a:?} and {b:?}"), describe(&text, module)));
            }
            // A reader of one's own.
            let c = guard(&describe(&text, module), || {
                let mut lexer = fajt_lexer::Lexer::new(&text).expect("lexer");
                if module {
                    lexer.set_state(fajt_lexer::LexerState::default().with_html_comments_allowed(false));
                }
                let mut reader = fajt_common::io::PeekReader::new(lexer).expect("reader");
                let ty = if module { SourceType::Module } else { SourceType::Script };
                fajt_parser::Parser::parse::<Program>(&mut reader, ty)
            })?;
            let c = c.map(|p| tree_of(&p)).map_err(|e| format!("{e:?}"));
            if c != b {
                return Err(Fail::new(format!("entry points differ: {c:?} and {b:?}"), describe(&text, module)));
            }
            if let Ok(v) = &b {
                if v.get(if module { "Module" } else { "Script" }).is_none() {
                    return Err(Fail::new("goal: the tree is of the other goal", describe(&text, module)));
                }
            }
            Ok(())
        }
        1 => {
            // An expression by itself, and as the statement of a program.
            let module = src.chance(1, 3);
            let fuel = src.range(2, 30) as i32;
            let mut g = G::new(src, module, ALL_FOCUS[(idx % 10) as usize], fuel);
            let mut e = g.expression();
            let mut toks = std::mem::take(&mut g.toks);
            let s = g.src;
            let laid = layout(&toks, s, LayoutOpt { style: Style::Mixed, module, asi: false });
            laid.resolve(&mut e);
            info.class("expression");
            info.set(&laid.text, toks.len() > 1);
            match part::<Expr>(&laid.text, module)? {
                Err(err) => return Err(Fail::new(format!("rejected: a valid expression is rejected: {err}"), describe(&laid.text, module))),
                Ok(v) => {
                    if let Some(d) = diff(&e, &v, &mut String::new(), Spans::Ignore) {
                        return Err(Fail::new(format!("tree differs: {d}"), describe(&laid.text, module)));
                    }
                }
            }
            // The same within parentheses, all positions three characters later.
            let p = |t: &str| Tok { text: t.to_owned(), kind: K::Punct, no_lt: false, ends: false, asi: Asi::No };
            toks.insert(0, p("("));
            toks.push(p(")"));
            let wrapped = format!("0,({})", laid.text);
            let alone = part::<Expr>(&laid.text, module)?.unwrap();
            let mut want = alone;
            shift(&mut want, 3);
            match part::<Expr>(&wrapped, module)? {
                Err(err) => Err(Fail::new(format!("rejected: a valid expression is rejected: {err}"), describe(&wrapped, module))),
                Ok(v) => {
                    let got = v.pointer("/Sequence/expr/1/Parenthesized/expression").cloned().unwrap_or(Value::Null);
                    match diff(&want, &got, &mut String::new(), Spans::Compare) {
                        None => Ok(()),
                        Some(d) => Err(Fail::new(format!("tree differs within parentheses: {d}"), describe(&wrapped, module))),
                    }
                }
            }
        }
        2 => {
            // The first statement of a program by itself.
            let module = src.chance(1, 3);
            let Some((text, tree)) = valid_text(src, idx, module)? else {
                return Ok(());
            };
            info.class("statement");
            let tree = tree_of(&tree);
            let l = list(&tree);
            let directives = l["directives"].as_array().unwrap().len();
            info.set(&text, !l["body"].as_array().unwrap().is_empty());
            let Some(first) = l["body"].get(0) else {
                return Ok(());
            };
            if directives > 0 {
                return Ok(());
            }
            match part::<Stmt>(&text, module)? {
                Err(err) => Err(Fail::new(format!("rejected: a valid statement is rejected: {err}"), describe(&text, module))),
                Ok(v) => match diff(first, &v, &mut String::new(), Spans::Compare) {
                    None => Ok(()),
                    Some(d) => Err(Fail::new(format!("tree differs from that of the program: {d}"), describe(&text, module))),
                },
            }
        }
        _ => {
            // Code of a module without imports and exports is that of a strict script.
            let focus = ALL_FOCUS[src.below(ALL_FOCUS.len())];
            let focus = if focus == Focus::Modules { Focus::All } else { focus };
            let mut prog = Prog::generate(src, true, focus, fuel(idx, 60));
            if ["import", "export", "import.meta"].iter().any(|s| prog.seen.contains(s)) {
                return Ok(());
            }
            let laid = prog.lay(src, Style::Mixed, true);
            let expected = prog.expected(&laid);
            let body = expected["Module"].clone();
            info.class("both goals");
            info.set(&laid.text, prog.toks.len() > 3);
            check_tree(&laid.text, false, &json!({"Script": body}), Spans::Ignore)?;
            check_tree(&laid.text, true, &json!({"Module": body}), Spans::Ignore)?;
            let strict = format!("'use strict';\n{}", laid.text);
            let mut body = body;
            let d = json!({"value": "use strict", "delimiter": "'"});
            body["directives"].as_array_mut().unwrap().insert(0, d);
            check_tree(&strict, false, &json!({"Script": body}), Spans::Ignore)?;
            Ok(())
        }
    }
}

/// A text, right or wrong, in a module and after directives of which one is `use strict`, or by
/// itself and after what is no such directive.
fn strictness(src: &mut Src, info: &mut Info) -> CaseResult {
    let one = |src: &mut Src| {
        if src.chance(1, 2) {
            super::early::any_text(src, false)
        } else {
            let e = CARRIED[src.below(CARRIED.len())];
            POSITIONS[src.below(POSITIONS.len())].0.replace('@', e)
        }
    };
    let mut text = one(src);
    for _ in 0..src.below(3) {
        text = format!("{text}\n{}", one(src));
    }
    if ["import", "export", "await", "<!--", "-->"].iter().any(|x| text.contains(x)) {
        return Ok(());
    }
    let sloppy = src.chance(1, 3);
    let prefix = if sloppy {
        src.pick(&[
            "'use\\x20strict';", "('use strict');", "'use strict', a;", "'use strict' + '';", "`use strict`;", "'use strict'.a;", "'Use strict';", "'use strict ';",
            "'use  strict';", "{ 'use strict'; }", "; 'use strict';", "a; 'use strict';", "'use strict'\n+ a;", "'a'; 'b'", "if (a) 'use strict';", "a: 'use strict';",
            "function b() { 'use strict'; }", "(function () { 'use strict' });", "x => { 'use strict' };", "class b { c() { 'use strict' } }", "'use strict' in a;",
            "'use strict' ? a : b;", "'use strict'`a`;", "'use strict'[a];", "'a';\n'use strict' / 1;", "'a' + 1; 'use strict';", "'use\u{a0}strict';", "'usestrict'",
            "({ a() { 'use strict' } });", "", "/* 'use strict' */", "// 'use strict'\n",
        ])
    } else {
        src.pick(&[
            "'use strict';", "\"use strict\";", "'a'; 'use strict';", "'a'\n'use strict'\n;", "'use strict'; 'a';", "'' ; \"\"\n'use strict' ;'b'\n\"c\";",
            "'use\\x20strict'; 'use strict';", "/* c */ 'use strict' // d\n;", "'use strict'; 'use strict';", "'use strict' /*\n*/ ;", "\n\n'use asm'\n'use strict';",
            "'a';'b';'c';'d';\"use strict\";", "'Use strict'; 'use strict'; 'use strict ';", "\"'use strict'\"; 'use strict';",
        ])
    };
    info.class(if sloppy { "no directive" } else { "directives" });
    let whole = format!("{prefix}\n;{text}");
    info.set(&whole, true);
    let (a, b) = (parse(&text, !sloppy)?, parse(&whole, false)?);
    let input = format!("{}\nand\n{}", describe(&text, !sloppy), describe(&whole, false));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let (a, b) = (tree_of(&a), tree_of(&b));
            if !list(&a)["directives"].as_array().is_some_and(|d| d.is_empty()) {
                return Ok(());
            }
            let want = list(&a)["body"].as_array().unwrap().clone();
            let got = list(&b)["body"].as_array().unwrap();
            let got = &got[got.len().saturating_sub(want.len())..];
            match diff(&Value::Array(want), &Value::Array(got.to_vec()), &mut String::new(), Spans::Ignore) {
                None => Ok(()),
                Some(d) => Err(Fail::new(format!("tree differs after {prefix:?}: {d}"), input)),
            }
        }
        (Err(_), Err(_)) => Ok(()),
        // (Directives before would be others.)
        (Ok(a), Err(_)) if sloppy && !list(&tree_of(&a))["directives"].as_array().is_some_and(|d| d.is_empty()) => Ok(()),
        (Err(_), Ok(_)) if sloppy && text.contains("use strict") => Ok(()),
        (Ok(_), Err(e)) => Err(Fail::new(format!("strictness differs: rejected after {prefix:?}: {e:?}"), input)),
        (Err(e), Ok(_)) => Err(Fail::new(format!("strictness differs: accepted after {prefix:?}, not {}: {e:?}", if sloppy { "by itself" } else { "in a module" }), input)),
    }
}

/// Moves all positions.
pub fn shift(v: &mut Value, by: usize) {
    match v {
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                if k == "span" || k == "arguments_span" {
                    if let Some((a, b)) = x.as_str().and_then(|s| s.split_once(':')) {
                        let (a, b): (usize, usize) = (a.parse().unwrap(), b.parse().unwrap());
                        *x = Value::String(format!("{}:{}", a + by, b + by));
                        continue;
                    }
                }
                shift(x, by);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| shift(x, by)),
        _ => {}
    }
}

// ---- P24 ----

struct Wrap {
    before: &'static str,
    after: &'static str,
    /// Where the statements are in the tree of the wrapped program.
    at: &'static str,
    strict: bool,
    /// Directives of the text are directives there too.
    directives: bool,
}

const fn w(before: &'static str, after: &'static str, at: &'static str) -> Wrap {
    Wrap { before, after, at, strict: false, directives: true }
}

const WRAPS: &[Wrap] = &[
    Wrap { directives: false, ..w("{", "\n}", "/0/Block/statements") },
    Wrap { directives: false, ..w("if (a) {", "\n}", "/0/If/consequent/Block/statements") },
    Wrap { directives: false, ..w("if (a); else {", "\n}", "/0/If/alternate/Block/statements") },
    Wrap { directives: false, ..w("for (var x of async => {}) {", "\n}", "/0/ForOf/body/Block/statements") },
    Wrap { directives: false, ..w("for (;;) {", "\n}", "/0/For/body/Block/statements") },
    Wrap { directives: false, ..w("try {", "\n} catch {}", "/0/Try/block/statements") },
    Wrap { directives: false, ..w("try {} finally {", "\n}", "/0/Try/finalizer/statements") },
    Wrap { directives: false, ..w("l: while (a) {", "\n}", "/0/Labeled/body/While/body/Block/statements") },
    Wrap { directives: false, ..w("switch (a) { case b: c; default:", "\n}", "/0/Switch/cases/1/consequent") },
    w("function f() {", "\n}", "/0/FunctionDecl/body/statements"),
    w("(function () {", "\n})", "/0/Expr/expr/Parenthesized/expression/Function/body/statements"),
    w("() => {", "\n}", "/0/Expr/expr/ArrowFunction/body/Body/statements"),
    w("(a, [b], {c = () => 1}) => {", "\n}", "/0/Expr/expr/ArrowFunction/body/Body/statements"),
    w("x = ((a)) => {", "\n}", "/none"),
    w("x = [a = function () {", "\n}]", "/0/Expr/expr/Assignment/right/Literal/literal/Array/elements/0/Expr/Assignment/right/Function/body/statements"),
    w("x = {get a() {", "\n}}", "/0/Expr/expr/Assignment/right/Literal/literal/Object/props/0/Method/body/statements"),
    w("x = {m() {", "\n}, b}", "/0/Expr/expr/Assignment/right/Literal/literal/Object/props/0/Method/body/statements"),
    w("(async function () { await 1; (function () {", "\n})})", "/0/Expr/expr/Parenthesized/expression/Function/body/statements/1/Expr/expr/Parenthesized/expression/Function/body/statements"),
    w("(function* () { yield; (function () {", "\n})})", "/0/Expr/expr/Parenthesized/expression/Function/body/statements/1/Expr/expr/Parenthesized/expression/Function/body/statements"),
    w("`a${function () {", "\n}}b`", "/0/Expr/expr/Literal/literal/Template/parts/1/Expr/Function/body/statements"),
    w("f(a, async (b) => await c, function () {", "\n})", "/0/Expr/expr/Call/arguments/2/Expr/Function/body/statements"),
    Wrap { strict: true, ..w("class A extends B { constructor() { super(); (function () {", "\n})} }", "/0/ClassDecl/body/0/Method/body/statements/1/Expr/expr/Parenthesized/expression/Function/body/statements") },
    Wrap { strict: true, ..w("class A { static m() {", "\n} }", "/0/ClassDecl/body/0/Method/body/statements") },
    Wrap { strict: true, ..w("'use strict'; function f() {", "\n}", "/0/FunctionDecl/body/statements") },
];

/// Surroundings of an expression `@`. Then: s = strict; f = no arrow functions there; g = no methods there; m = only in modules.
const POSITIONS: &[(&str, &str)] = &[
    ("for (@;;);", "f"),
    ("for (x = @; y; z);", "f"),
    ("for (;; x = @);", ""),
    ("for (var x = @; y; z);", "f"),
    ("for (let x = y, z = @;;);", "f"),
    ("for (let [x = @] of y);", "f"),
    ("for (const {x = @} in y);", "f"),
    ("for ([x = @] of y);", "f"),
    ("for ({x: y = @} of z);", "f"),
    ("for (x[@] in y);", "f"),
    ("for ((@).x of y);", "f"),
    ("for (x of @) y;", ""),
    ("for (x in @) y;", ""),
    ("for (x in y, @) z;", ""),
    ("for (a(@);;);", "f"),
    ("for (a ? @ : b;;);", "f"),
    ("if (@);", ""),
    ("if (a) b; else c(@);", ""),
    ("while (@);", ""),
    ("do ; while (@)", ""),
    ("do x = @; while (y)", ""),
    ("switch (@) {}", ""),
    ("switch (a) { case @: }", ""),
    ("switch (a) { case b: c = @; break; default: }", ""),
    ("throw @;", ""),
    ("with (@);", ""),
    ("with (a) b = @;", ""),
    ("try { x = @ } catch {}", ""),
    ("try {} catch ({x = @}) {}", ""),
    ("try {} catch ([x, ...[y = @]]) {} finally {}", ""),
    ("l: m: x = @;", ""),
    ("l: for (x of y) { z = @; continue l }", ""),
    ("`a${@}b${c}`;", ""),
    ("a`b${c}${@}`;", ""),
    ("a[@];", ""),
    ("a?.[@];", ""),
    ("a?.(@).b;", ""),
    ("a?.b(c, @)[d];", ""),
    ("new (@);", ""),
    ("new a(@, b);", ""),
    ("new a[@].b(c);", ""),
    ("f(...a, ...@);", ""),
    ("import(@);", ""),
    ("[,, ...@];", ""),
    ("({...@});", ""),
    ("({a: @, b});", ""),
    ("({[@]: 1});", ""),
    ("({get [@]() {}});", ""),
    ("({async *[@]() {}});", ""),
    ("({set a(b = @) {}});", ""),
    ("({a(b, {c} = @) {}});", ""),
    ("let [x = @] = y;", ""),
    ("let {x = @, ...y} = z;", ""),
    ("var {[@]: x} = y;", ""),
    ("const x = @, y = z;", ""),
    ("function f(x = @) {}", ""),
    ("function* f(x = @) { yield x }", "fg"),
    ("async function f({x = @}) { await x }", "f"),
    ("async function* f() { yield* await @; }", "fg"),
    ("function* f() { yield @; }", "fg"),
    ("function* f() { x = yield [@, yield]; }", "fg"),
    ("async function f() { for await (x of @); }", "f"),
    ("async function f() { return @ }", "f"),
    ("(x = @) => x;", ""),
    ("({x = @}) => x;", ""),
    ("([x = @], ...y) => x;", ""),
    ("async (x = @) => x;", "f"),
    ("async x => (@);", "f"),
    ("async () => { await @ };", "f"),
    ("x => (@);", ""),
    ("x => y => [@];", ""),
    ("async (@, x);", ""),
    ("[x = @] = y;", ""),
    ("({x = @} = y);", ""),
    ("({x: [y = @]} = z);", ""),
    ("[x[@]] = y;", ""),
    ("a ? @ : b;", ""),
    ("a ? b : @;", ""),
    ("a, @, b;", ""),
    ("a = b = @;", ""),
    ("a **= @;", ""),
    ("a ** @;", "f"),
    ("a || b && @;", "f"),
    ("a ?? @;", "f"),
    ("a in @;", "f"),
    ("typeof @;", "f"),
    ("!(@);", ""),
    ("(@)();", ""),
    ("(@)`a`;", ""),
    ("++a[@].b;", ""),
    ("class A extends (@) {}", "s"),
    ("(class extends a(@) {});", "s"),
    ("class A { [@]() {} }", "s"),
    ("class A { static async *[@]() {} }", "s"),
    ("class A { set [@](b) {} get a() {} }", "s"),
    ("class A { constructor(a = @) {} }", "s"),
    ("class A extends B { constructor() { super(@) } }", "sf"),
    ("class A extends B { m() { super[@](a) } }", "s"),
    ("class A { static *m() { yield @ } }", "sfg"),
    ("export const x = @;", "m"),
    ("export default [@];", "m"),
    ("import a from 'b'; x = @;", "m"),
    ("await_ = @; export {};", "m"),
];

/// Functions: what comes before and after the statements of their bodies.
const BODIES: &[(&str, &str, &str)] = &[
    ("function () {", "}", "f"),
    ("function zqf() {", "}", "f"),
    ("function (zqa, {zqb}) {", "}", "fn"),
    ("() => {", "}", ""),
    ("zqa => {", "}", ""),
    ("(zqa, ...zqb) => {", "}", "n"),
    ("({zqa = 1}) => {", "}", "n"),
    ("{zqm() {", "}}", "fM"),
    ("{get zqm() {", "}, zqn}", "fM"),
    ("{set zqm(zqa) {", "}}", "fM"),
    ("[zqa, {zqb: function () {", "}}]", "f"),
    ("class {zqm() {", "}}", "fsM"),
    ("class extends zqa {static get zqm() {", "}}", "fsM"),
    ("class {constructor() {", "}}", "fsM"),
    ("function () { try {", "} finally {} }", "fn"),
    ("function () { for (zqa of zqb) {", "} }", "fn"),
    ("function () { switch (zqa) { case zqb:", "} }", "fn"),
    ("() => { if (zqa) {", "} else {} }", "n"),
];

/// Surroundings by combination, one or two levels deep.
fn surroundings(src: &mut Src, info: &mut Info) -> (String, String, bool, bool, bool) {
    let (mut before, mut after) = (String::new(), String::new());
    let (mut strict, mut module, mut directives) = (false, false, true);
    let levels = 1 + src.chance(1, 3) as usize;
    for level in 0..levels {
        let (position, flags) = loop {
            let p = POSITIONS[src.below(POSITIONS.len())];
            if level == 0 || !p.1.contains('m') {
                break p;
            }
        };
        let body = loop {
            let b = BODIES[src.below(BODIES.len())];
            // (Known: plain methods within generators are marked as generators.)
            if (!flags.contains('f') || b.2.contains('f')) && !(flags.contains('g') && b.2.contains('M')) {
                break b;
            }
        };
        info.class(position);
        strict |= flags.contains('s') || flags.contains('m') || body.2.contains('s');
        module |= flags.contains('m');
        directives = !body.2.contains('n');
        let (head, tail) = position.split_once('@').expect("position");
        before += &format!("{head}{}", body.0);
        after = format!("{}{tail}{after}", body.1);
    }
    (before, format!("\n{after}"), strict, module, directives)
}

/// Where the only statement is `zq_marker`.
fn marker(v: &Value, path: &mut Vec<String>) -> bool {
    if let Value::Array(a) = v {
        if a.len() == 1 && a[0]["Expr"]["expr"]["IdentRef"]["name"] == "zq_marker" {
            return true;
        }
    }
    let parts: Vec<(String, &Value)> = match v {
        Value::Object(o) => o.iter().map(|(k, x)| (k.clone(), x)).collect(),
        Value::Array(a) => a.iter().enumerate().map(|(k, x)| (k.to_string(), x)).collect(),
        _ => vec![],
    };
    for (k, x) in parts {
        path.push(k);
        if marker(x, path) {
            return true;
        }
        path.pop();
    }
    false
}

/// Expressions (and what is none) which depend on what the parser carries along.
const CARRIED: &[&str] = &[
    "a in b", "yield", "await", "async", "let", "of", "static", "a => b in c", "a ? b in c : d", "a ? b : c in d", "(a in b)",
    "yield in a", "await in a", "let in a", "a = b in c", "a, b in c", "async (a) => {}", "async a => b in c", "`${a in b}`",
    "[a in b]", "f(a in b)", "a[b in c]", "function () { a in b }", "function* () { yield a in b }", "async () => await a in b",
    "{a = 1}", "{a = 1} = b", "{a = b in c} = d", "[a = b in c] = d", "[a] = b", "...a", "/a/g", "a / b / c", "yield / a / b",
    "await / a / b", "yield\n/a/g", "arguments", "eval = 1", "arguments++", "new a", "new a()", "class {}",
    "class extends a {}", "class { [a in b]() {} }", "class { constructor() { a in b } }", "{ m() { a in b } }", "{ [a in b]: c }",
    "{ get a() { return b in c } }", "yield => 1", "await => 1", "(yield) => 1", "(a = await) => 1", "async await => 1",
    "async (a = await) => 1", "function yield() {}", "function await() {}", "async function () { await a in b }", "import(a in b)",
    "import.meta", "a?.[b in c]", "a`${b in c}`", "a ?? b", "a ?? b || c", "-a ** b", "typeof a in b", "!a in b", "delete a",
    "0777", "with", "package", "a <!-- b", "a --> b", "a\n--> b", "", "a b", "a\nb", "a\n++b", "a;", "a)(b", "a}{b",
];

/// A statement around something which depends on its surroundings, which may make it wrong.
fn carried(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let (before, after, strict, module, directives) = surroundings(src, info);
    let (position, flags) = POSITIONS[src.below(POSITIONS.len())];
    let e = CARRIED[src.below(CARRIED.len())];
    // (Which braces belong to what would be another question.)
    let odd = matches!(e, "a)(b" | "a}{b");
    if flags.contains('m') || odd || (strict && (!directives || before.contains("with ("))) || (module && ["await", "import.meta", "<!--", "-->"].iter().any(|x| e.contains(x))) {
        return Ok(());
    }
    let mut text = position.replace('@', e);
    if idx % 5 == 0 {
        text = format!("{}\n{text}", POSITIONS[src.below(90)].0.replace('@', "zqc"));
    }
    if strict {
        text = format!("'use strict';\n{text}");
    }
    info.class("carried");
    let wrapped = format!("{before}\n{text}{after}");
    info.set(&wrapped, true);
    let input = format!("{}\nwithin\n{}", describe(&text, false), describe(&wrapped, module));
    match (parse(&text, false)?, parse(&wrapped, module)?) {
        (Ok(alone), Ok(within)) => {
            let (alone, within) = (tree_of(&alone), tree_of(&within));
            let sample = format!("{before}\nzq_marker{after}");
            let mut path = vec![];
            if !parse(&sample, module)?.is_ok_and(|p| marker(&tree_of(&p), &mut path)) {
                return Err(Fail::new("rejected: valid surroundings are rejected".to_owned(), describe(&sample, module)));
            }
            let body = path.iter().map(|k| format!("/{k}")).collect::<String>();
            let mut want = list(&alone)["body"].clone();
            shift(&mut want, before.len() + 1);
            match diff(&want, within.pointer(&body).unwrap_or(&Value::Null), &mut String::new(), Spans::Compare) {
                None => Ok(()),
                Some(d) => Err(Fail::new(format!("tree differs within: {d}"), input)),
            }
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => Err(Fail::new(format!("rejected: what is valid by itself is rejected within: {e:?}"), input)),
        (Err(e), Ok(_)) => Err(Fail::new(format!("accepted: what is not valid by itself ({e:?}) is accepted within"), input)),
    }
}

fn surrounded(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let (before, after, strict, module, directives) = surroundings(src, info);
    if strict && before.contains("with (") {
        return Ok(());
    }
    let Some((text, tree)) = valid_text(src, idx, strict)? else {
        return Ok(());
    };
    let tree = tree_of(&tree);
    let l = list(&tree);
    if strict && (text.contains("import") || l.to_string().contains("{\"Export")) {
        return Ok(());
    }
    if !directives && !l["directives"].as_array().unwrap().is_empty() {
        return Ok(());
    }
    let wrapped = format!("{before}\n{text}{after}");
    let input = format!("{}\nwithin\n{}", describe(&text, strict), describe(&wrapped, module));
    info.class("surrounded");
    info.set(&wrapped, !l["body"].as_array().unwrap().is_empty());
    // Whether and where, as a simple statement shows.
    let sample = format!("{before}\nzq_marker{after}");
    let sample_tree = match parse(&sample, module)? {
        Err(e) => return Err(Fail::new(format!("rejected: valid surroundings are rejected: {e:?}"), describe(&sample, module))),
        Ok(p) => tree_of(&p),
    };
    let mut path = vec![];
    if !marker(&sample_tree, &mut path) {
        return Err(Fail::new("tree differs: the statements are not in the tree".to_owned(), describe(&sample, module)));
    }
    let got = match parse(&wrapped, module)? {
        Err(e) => return Err(Fail::new(format!("rejected: what is valid by itself is rejected within: {e:?}"), input)),
        Ok(p) => tree_of(&p),
    };
    let body = path.iter().map(|k| format!("/{k}")).collect::<String>();
    // The whole tree is that of the sample with these statements, apart from the spans behind them.
    let mut want = sample_tree.clone();
    let mut statements = l["body"].clone();
    shift(&mut statements, before.len() + 1);
    *want.pointer_mut(&body).expect("path") = statements.clone();
    let holder = path[..path.len() - 1].iter().map(|k| format!("/{k}")).collect::<String>();
    if let Some(d) = want.pointer_mut(&holder).and_then(|h| h.get_mut("directives")) {
        *d = l["directives"].clone();
        shift(d, before.len() + 1);
    }
    if let Some(d) = diff(&want, &got, &mut String::new(), Spans::Ignore) {
        return Err(Fail::new(format!("tree differs within: {d}"), input));
    }
    match diff(&statements, got.pointer(&body).unwrap_or(&Value::Null), &mut String::new(), Spans::Compare) {
        None => Ok(()),
        Some(d) => Err(Fail::new(format!("tree differs within: {d}"), input)),
    }
}

fn composition(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    if src.chance(1, 3) {
        return concatenation(src, info, idx);
    }
    if src.chance(1, 3) {
        return carried(src, info, idx);
    }
    if src.chance(3, 5) {
        return surrounded(src, info, idx);
    }
    let wrap = &WRAPS[src.below(WRAPS.len())];
    // Strict contexts take what a module takes.
    let Some((text, tree)) = valid_text(src, idx, wrap.strict)? else {
        return Ok(());
    };
    let wrapped = format!("{}\n{text}{}", wrap.before, wrap.after);
    let input = format!("{}\nwithin\n{}", describe(&text, wrap.strict), describe(&wrapped, false));
    let tree = tree_of(&tree);
    let l = list(&tree);
    let shown = l.to_string();
    if wrap.strict && (text.contains("import") || shown.contains("{\"Export")) {
        return Ok(());
    }
    if !wrap.directives && !l["directives"].as_array().unwrap().is_empty() {
        return Ok(());
    }
    info.class("wrapped");
    info.class(wrap.before);
    info.set(&wrapped, !l["body"].as_array().unwrap().is_empty());
    let mut want = l["body"].clone();
    shift(&mut want, wrap.before.len() + 1);
    if wrap.at == "/none" {
        return must_reject(&wrapped, false, "parameters within two parentheses");
    }
    let got = match parse(&wrapped, false)? {
        Err(e) => return Err(Fail::new(format!("rejected: what is valid by itself is rejected within: {e:?}"), input)),
        Ok(p) => tree_of(&p),
    };
    let got = got["Script"]["body"].pointer(wrap.at).cloned();
    let Some(got) = got else {
        return Err(Fail::new("tree differs: the statements are not where they should be".to_owned(), input));
    };
    match diff(&want, &got, &mut String::new(), Spans::Compare) {
        None => Ok(()),
        Some(d) => Err(Fail::new(format!("tree differs within: {d}"), input)),
    }
}

/// One program after the other is both programs.
fn concatenation(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let module = src.chance(1, 3);
    let (Some((a, _)), Some((b, tb))) = (valid_text(src, idx, module)?, valid_text(src, idx / 2, module)?) else {
        return Ok(());
    };
    let a = format!("{a}\n;");
    let Ok(ta) = parse(&a, module)? else {
        return Ok(());
    };
    let (ta, tb) = (tree_of(&ta), tree_of(&tb));
    let (la, lb) = (list(&ta), list(&tb));
    if !lb["directives"].as_array().unwrap().is_empty() {
        return Ok(());
    }
    if !module && !la["directives"].as_array().unwrap().is_empty() {
        // The second would become strict.
        return Ok(());
    }
    if la["body"].as_array().unwrap().is_empty() {
        return Ok(());
    }
    if src.chance(1, 150) && la["directives"].as_array().unwrap().is_empty() {
        // The same program often.
        let n = 1 + [300, 3000, 30_000, 70_000, 140_000][src.below(5)] / a.len().max(40);
        info.class("often");
        let one = format!("{a}\n");
        let text = one.repeat(n);
        info.set(&text, true);
        let input = format!("{}\n{n} times", describe(&a, module));
        let got = match parse(&text, module)? {
            Err(e) => {
                return Err(Fail::new(format!("rejected: a program is rejected when repeated: {e:?}"), input));
            }
            Ok(p) => tree_of(&p),
        };
        let got = list(&got)["body"].as_array().unwrap().clone();
        let body = la["body"].as_array().unwrap();
        if got.len() != n * body.len() {
            return Err(Fail::new(format!("tree differs: {} statements, not {}", got.len(), n * body.len()), input));
        }
        for (i, chunk) in got.chunks(body.len()).enumerate() {
            let mut want = la["body"].clone();
            shift(&mut want, i * one.len());
            if let Some(d) = diff(&want, &Value::Array(chunk.to_vec()), &mut String::new(), Spans::Compare) {
                return Err(Fail::new(format!("tree differs in repetition {i}: {d}"), input));
            }
        }
        return Ok(());
    }
    info.class("one after the other");
    let both = format!("{a}\n{b}");
    info.set(&both, !lb["body"].as_array().unwrap().is_empty());
    let mut want = la["body"].as_array().unwrap().clone();
    let mut second = lb["body"].clone();
    shift(&mut second, a.len() + 1);
    want.extend(second.as_array().unwrap().iter().cloned());
    let input = format!("{}\nthen\n{}", describe(&a, module), describe(&b, module));
    let got = match parse(&both, module)? {
        Err(e) => return Err(Fail::new(format!("rejected: two programs are rejected one after the other: {e:?}"), input)),
        Ok(p) => tree_of(&p),
    };
    match diff(&Value::Array(want), &list(&got)["body"], &mut String::new(), Spans::Compare) {
        None => Ok(()),
        Some(d) => Err(Fail::new(format!("tree differs one after the other: {d}"), input)),
    }
}

pub fn properties() -> Vec<Property> {
    let p = |id, rule, run, quick, thorough| Property { id, rule, quick, thorough, run, fixed: None, assumptions: &[], slow: false };
    vec![
        p("P20", "a valid program of more than 8 bytes", serialization, 250_000, 5_000_000),
        p("P21", "a program with a statement, or an expression of more than one token, parsed through several entry points", entry_points, 400_000, 8_000_000),
        p("P24", "a valid program with a statement, parsed within another construct or after another program", composition, 800_000, 12_000_000),
    ]
}
