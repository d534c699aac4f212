//! Rules of the grammar and early errors, broken somewhere in a program.

use super::common::*;
use super::names::operand;
use super::rules::*;
use super::tree::ALL_FOCUS;
use crate::engine::*;
use crate::js::{Ctx, Focus, Role};
use crate::layout::*;
use crate::src::Src;

const COMPOUND: &[&str] = &["+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^="];

fn name(src: &mut Src) -> &'static str {
    src.pick(&["q", "a", "foo", "x1", "$", "_", "ñ", "Object"])
}

fn target(src: &mut Src) -> String {
    let mut s = name(src).to_owned();
    for _ in 0..src.below(3) {
        s.push_str(match src.below(5) {
            0 => ".b",
            1 => "[q]",
            2 => "(1).c",
            3 => ".if",
            _ => "['k']",
        });
    }
    s
}

/// An expression that fits wherever one without commas does, starts with a name and binds as
/// tightly as a member.
fn operand_text(src: &mut Src, depth: usize) -> String {
    if depth == 0 || src.chance(1, 2) {
        return target(src);
    }
    let a = operand_text(src, depth - 1);
    let b = operand_text(src, depth - 1);
    match src.below(12) {
        0 => format!("{a}({b})"),
        1 => format!("q({a} + {b} * 2)"),
        2 => format!("q({{a: {a}, b() {{ return {b} }}}})"),
        3 => format!("q([{a}, , ...{b}])"),
        4 => format!("q(e => {a}, () => {{ {b} }})"),
        5 => format!("q(`x${{{a}}}y${{{b}}}`)"),
        6 => format!("{a}[{b} ? 1 : 's']"),
        7 => format!("q(function () {{ if ({a}) {{ {b} }} }})"),
        8 => format!("q({} = {b}, -{b}, !{a})", target(src)),
        9 => format!("q(class extends {a} {{ b() {{ {b} }} }})"),
        10 => format!("q(/[/]{{2}}/g, '}}', {a})"),
        _ => format!("q({{...{a}}}, {{[{b}]: {}}} = {b})", target(src)),
    }
}

/// The row with everything filled in; both texts get the same pieces where they can.
fn fill(src: &mut Src, row: &str, names: &[String; 3]) -> String {
    let quoted = row.contains('\'') || row.contains('"');
    let mut out = String::new();
    let mut it = row.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '¤' => out.push_str(&operand_text(src, 2)),
            '§' => out.push_str(&target(src)),
            '¬' => out.push_str(src.pick(COMPOUND)),
            'ø' if quoted => out.push_str(src.pick(&["\n", "\r", "\r\n"])),
            'ø' => out.push_str(src.pick(&["\n", "\r", "\r\n", "\u{2028}", "\u{2029}"])),
            '@' => out.push_str(&names[0]),
            '#' if it.peek() == Some(&'1') => {
                it.next();
                out.push_str(&names[1]);
            }
            '#' if it.peek() == Some(&'2') => {
                it.next();
                out.push_str(&names[2]);
            }
            c => out.push(c),
        }
    }
    out
}

fn target_rules() -> Vec<(u16, Kind, String, String)> {
    let mut v: Vec<(u16, Kind, String, String)> = vec![];
    let mut add = |n: &str, forms: &[(&str, Kind)]| {
        for (f, k) in forms {
            v.push((ANY, *k, f.replace('N', n), f.replace('N', "§")));
        }
    };
    for n in NO_TARGETS {
        add(n, &[
            ("(N) = ¤", E), ("(N) ¬ ¤", E), ("(N)++", E), ("--(N)", E), ("[(N)] = ¤", E), ("[(N) = 1] = ¤", E), ("{a: (N)} = ¤", E), ("{a: (N) = 1} = ¤", E), ("[...(N)] = ¤", E),
            ("((N)) = ¤", E), ("[[(N)]] = ¤", E), ("for ((N) of ¤) ;", S), ("for ((N) in ¤) ;", S), ("for ([(N)] of ¤) ;", S), ("{...(N)} = ¤", E),
        ]);
    }
    for n in PLAIN_NO_TARGETS {
        add(n, &[
            ("N = ¤", E), ("N ¬ ¤", E), ("N++", E), ("N--", E), ("++N", E), ("--N", E), ("[N] = ¤", E), ("[N = 1] = ¤", E), ("{a: N} = ¤", E), ("{a: N = 1} = ¤", E), ("[...N] = ¤", E), ("{...N} = ¤", E),
            ("for (N of ¤) ;", S), ("for (N in ¤) ;", S), ("for ({a: N} of ¤) ;", S), ("for ([N] in ¤) ;", S), ("§ = N = ¤", E),
        ]);
    }
    v
}

/// Where the rest is not last, whatever precedes it.
fn rest_rules() -> Vec<(u16, Kind, String, String)> {
    let mut v = vec![];
    const OBJECT: &[&str] = &["", "N, ", "N = 1, ", "a: N, ", "'b': N, ", "[¤]: N = ¤, ", "a: {b: N = 1}, ", "a: {N = 1}, ", "a: [N], ", "1: N, "];
    const ARRAY: &[&str] = &["", ", ", "N, ", "N = 1, ", "[N], ", "{N = 1}, ", "{a: N}, ", "[N = ¤], "];
    const WRONG: &[&str] = &["...#1,", "...#1, #2", "...#1, ...#2", "...#1 = 1", "...#1,,", "...#1, a: #2", "...#1 #2", "...(#1, #2)", "... ...#1"];
    const CONTEXTS: &[(&str, Kind)] = &[
        ("X = ¤", E), ("[X] = ¤", E), ("{b: X} = ¤", E), ("{b: X = ¤} = ¤", E), ("for (X of ¤) ;", S), ("for (X in ¤) ;", S), ("(X) => ¤", E), ("(X = ¤) => ¤", E), ("async (X) => ¤", E), ("({b: X}) => ¤", E),
        ("(w$3, X) => ¤", E), ("function (X) {}", E), ("{a(X) {}}", E), ("class { set a(X) {} }", E), ("var X = ¤;", S), ("let [X] = ¤;", S), ("const {b: X} = ¤;", S), ("try {} catch (X) {}", S), ("for (const X of ¤) ;", S),
    ];
    for (object, before) in [(true, OBJECT), (false, ARRAY)] {
        for b in before {
            for (i, w) in WRONG.iter().enumerate() {
                // Each in a few contexts.
                for (j, (c, k)) in CONTEXTS.iter().enumerate() {
                    if (i + j) % 3 != 0 && !b.contains('=') {
                        continue;
                    }
                    let form = |rest: &str| {
                        let inner = format!("{}{rest}", b.replace('N', "@"));
                        c.replace('X', &if object { format!("{{{inner}}}") } else { format!("[{inner}]") })
                    };
                    v.push((ANY, *k, form(w), form("...#1")));
                }
            }
        }
    }
    v
}

/// Default values in literals which are no patterns.
fn default_rules() -> Vec<(u16, Kind, String, String)> {
    let mut v = vec![];
    const CONTEXTS: &[&str] = &[
        "X", "§(X)", "[X]", "{b: X}", "{b: [X]}", "X.c", "X + 1", "(X)", "() => (X)", "§ = X", "new §(X)", "§[X]", "§ ? X : 1", "§ ? 1 : X", "X, §", "§, X", "{...X}", "§(...X)", "`${X}`", "async (X)",
        "async (§, X)", "(X, §)", "typeof X", "X ?? ¤", "{[X]: 1}", "(@ = X) => 1", "function (@ = X) {}", "{a() { (X) }}", "class extends (X) {}", "X in ¤", "[X][0]", "[...[X]]", "(X)()", "X`t`", "import(X)", "X?.a",
    ];
    const OBJECTS: &[&str] = &["{#1D}", "{a, #1D}", "{#1D, a}", "{...§, #1D}", "{a() {}, #1D}", "{'a': 1, #1D, b: 2}", "{#1D,}", "{get a() {}, #1D}", "{#2 = 2, #1D}", "{a: § = 1, #1D}", "{a: {#1D}}", "{a: [{#1D}]}"];
    for (i, c) in CONTEXTS.iter().enumerate() {
        for (j, o) in OBJECTS.iter().enumerate() {
            if (i + j) % 2 == 0 {
                continue;
            }
            let bad = c.replace('X', &o.replace('D', " = ¤"));
            let good = c.replace('X', &o.replace("#2 = 2", "#2").replace('D', ""));
            v.push((ANY, E, bad, good));
        }
    }
    v
}

/// Methods of all kinds with wrong parameters.
fn method_rules() -> Vec<(u16, Kind, String, String)> {
    let mut v = vec![];
    const AROUND: &[&str] = &["{X}", "class { X }", "class { static X }", "class @ extends § { static X a() {} }", "class { a() {} X }", "{a: 1, X, b() {}}", "{get a() {}, X}", "class { static a() {}; X; }", "class { static X; static X }", "class @ { static set a(@) {} X }"];
    const KEYS: &[&str] = &["a", "'a'", "1", "[¤]", "get", "set", "static", "async", "if", "\"b c\"", "0x1", "[¤, §]"];
    const STRICT: &[&str] = &["'use strict'", "'a'; 'use strict'; ¤", "\"use strict\"; ¤", "'use strict';", "'use'; \"use strict\"; 'b'"];
    let mut add = |bad: &str, good: &str| {
        for (i, a) in AROUND.iter().enumerate() {
            for (j, k) in KEYS.iter().enumerate() {
                // A comma in a computed key needs parentheses.
                let k = if k.contains(',') { "[(¤, §)]" } else { k };
                if (i + j) % 3 == bad.len() % 3 {
                    v.push((ANY, E, a.replacen('X', bad, 1).replace('X', good).replace('K', k), a.replace('X', good).replace('K', k)));
                }
            }
        }
    };
    add("get K(#1) {}", "get K() {}");
    add("get K(...#1) {}", "get K() {}");
    add("get K(#1, #2) { ¤ }", "get K() { ¤ }");
    add("set K() {}", "set K(#1) {}");
    add("set K(#1, #2) {}", "set K(#1) {}");
    add("set K(...#1) {}", "set K(#1) {}");
    add("set K(#1, ...#2) {}", "set K([#1, ...#2]) {}");
    add("set K([#1, #1]) {}", "set K([#1, #2]) {}");
    for (i, p) in ["K", "*K", "async K", "async *K"].iter().enumerate() {
        add(&format!("{p}(#1, #1) {{}}"), &format!("{p}(#1, #2) {{}}"));
        add(&format!("{p}(#1, [#2, #1]) {{ ¤ }}"), &format!("{p}(#1, [#2]) {{ ¤ }}"));
        add(&format!("{p}({{a: #1}}, ...#1) {{}}"), &format!("{p}({{a: #1}}, ...#2) {{}}"));
        add(&format!("{p}(#1 = ¤, #2, #1) {{}}"), &format!("{p}(#1 = ¤, #2) {{}}"));
        for (j, list) in ["#1 = ¤", "...#1", "[#1]", "{#1}", "#1, #2 = 1", "#1, ...#2", "#1, {a: [#2]}", "[]", "{}"].iter().enumerate() {
            let s = STRICT[(i + j) % STRICT.len()];
            add(&format!("{p}({list}) {{ {s} }}"), &format!("{p}(#1, #2) {{ {s} }}"));
        }
    }
    for (j, p) in ["#1 = ¤", "[#1]", "{#1}", "{a: [#1]}", "[]", "{}"].iter().enumerate() {
        let s = STRICT[j % STRICT.len()];
        add(&format!("set K({p}) {{ {s} }}"), &format!("set K(#1) {{ {s} }}"));
    }
    // The same name at two places of the lists, each of them in a pattern of its own.
    const SLOTS: &[&str] = &["N", "N = ¤", "[N]", "{N}", "{N = ¤}", "{a: N}", "{a: N = ¤}", "{a: [N]}", "{a: {N}}", "{a: {b: N}}", "[[N]]", "[{N}]", "[, N]", "[...N]", "{...N}", "[...[N]]", "{[¤]: N}", "{a: #2, N}", "[{a: {N}}]", "[N] = ¤", "{a: {N} = ¤}", "{b: {a: {'c': N}}}", "[[[N]]]", "{a: [{N}] = []}", "{a: #2, ...N}", "[#2, ...{N}]"];
    for (i, one) in SLOTS.iter().enumerate() {
        for (j, two) in SLOTS.iter().enumerate() {
            let p = ["K", "*K", "async K", "async *K", "set K"][(i + j) % 5];
            let other = two.replace("#2", "zz3");
            let (one, bad, good) = (one.replace('N', "#1"), other.replace('N', "#1"), other.replace('N', "zz4"));
            let (open, close) = match (p, (i * 3 + j) % 4) {
                ("set K", 0) => ("{k: [", "]}"),
                ("set K", _) | (_, 0) => ("[", "]"),
                _ => ("", ""),
            };
            let rest = if open.is_empty() && !two.ends_with(" = ¤") && (i + j) % 3 == 0 { "..." } else { "" };
            v.push((ANY, E, format!("{{{p}({open}{one}, {rest}{bad}{close}) {{}}}}").replace('K', "a"), format!("{{{p}({open}{one}, {rest}{good}{close}) {{}}}}").replace('K', "a")));
        }
    }
    v
}

/// Declarations where only statements may stand.
fn body_rules() -> Vec<(u16, Kind, String, String)> {
    let mut v = vec![];
    const HEADS: &[&str] = &["if (¤) N", "if (¤) ; else N", "while (¤) N", "for (;;) N", "for (§ in ¤) N", "for (var #1 of ¤) N", "do N while (¤)", "lll: N", "if (¤) lll: N", "if (¤) { } else if (¤) N", "while (¤) if (¤) ; else N", "lll: while (¤) N", "for (let #1 = ¤; ; ) N", "if (¤) N else ;"];
    const DECLS: &[&str] = &["let @;", "let @ = ¤;", "let [@] = ¤;", "letø[@] = ¤;", "let {@} = ¤;", "const @ = 1;", "class @ {}", "class @ extends § { }", "function* @() {}", "async function @() {}", "async function* @() {}"];
    for h in HEADS {
        for d in DECLS {
            v.push((ANY, S, h.replace('N', d), h.replace('N', &format!("{{ {} }}", d.replace('ø', " ")))));
        }
    }
    v
}

/// `in` as an operator in the head of a for loop.
fn in_rules() -> Vec<(u16, Kind, String, String)> {
    let mut v = vec![];
    const HEADS: &[&str] = &["for (var #1 = X;;) ;", "for (let #1 = X; ; ) ;", "for (const #1 = X;;) ;", "for (var #2, #1 = X;;) ;", "for (let [#1] = X;;) ;", "for (§ = X;;) ;", "for (§, §, § = X;;) ;", "for (var {#1 = 1} = X;;) ;", "for (var #1 = 1, #2 = X;;) { }", "for (§ ¬ X; ¤; ¤) ;"];
    const EXPRS: &[&str] = &[
        "N", "() => N", "async () => N", "async @ => N", "@ => N", "(@) => N", "async (@) => N", "({@}) => N", "(@ = 1) => N", "async ([@]) => N", "() => () => N", "() => async () => N", "-N", "!N", "typeof N", "§ + N", "§ && N", "§ || N", "§ ?? N", "§ ? § : N", "§ = N",
        "§ ¬ N", "§ ** N", "§ * § - N", "§ < N", "§ == N", "§ & N", "(§), N", "§() + N", "() => § = N", "() => § ? § : N", "++N", "§++, N", "§ instanceof N", "[§] = N", "{a: §} = N", "class {} + N", "new § + N", "§ ? (§ in §) : N", "() => {} + 1, N", "async () => {}, N",
    ];
    for (i, h) in HEADS.iter().enumerate() {
        for (j, e) in EXPRS.iter().enumerate() {
            if e.contains(", ") && !h.starts_with("for (§") || e.contains("() => {} +") || e.contains("() => {},") {
                continue;
            }
            let (n, m) = [("§ in ¤", "(§ in ¤)"), ("§ in § in §", "(§ in § in §)"), ("§ in ¤", "q(§ in ¤)"), ("§ in §", "[§ in §][0]"), ("§ in §", "§[§ in §]")][(i + j) % 5];
            v.push((ANY, S, h.replace('X', &e.replace('N', n)), h.replace('X', &e.replace('N', if e.starts_with("++") { "§" } else { m }))));
        }
    }
    // What stands in brackets of any kind takes `in`.
    const INSIDE: &[&str] = &[
        "[N]", "q(N)", "§[N]", "{a: N}", "{[N]: 1}", "`${N}`", "(N)", "function () { N }", "() => { N }", "async () => { N }", "(@ = N) => 1", "async (@ = N) => 1", "function (@ = N) {}", "{a() { N }}", "{a(@ = N) {}}", "class { [N]() {} }", "class { a() { N } }", "class extends q(N) {}", "§ ? N : §",
        "new §(N)", "import(N)", "§?.[N]", "§?.(N)", "§`${N}`", "[§ = N] = ¤", "{a: § = N} = ¤", "{@ = N} = ¤", "() => ({a: N})", "async () => [N]", "() => q(N)", "({a = N}) => 1", "([@ = N]) => 1", "function () { return N }", "() => { if (N) ; }", "function* () { yield N }", "[...N]", "q(...N)", "{...N}", "(@, #2 = N) => 1",
        "() => { for (; N; N) ; }", "{get a() { return N }}",
    ];
    for (i, h) in HEADS.iter().enumerate() {
        for e in INSIDE {
            let e = if e.starts_with("new §") { e.replace("new §", "new q") } else { e.to_string() };
            if i % 2 == 0 || e.contains("=>") {
                v.push((ANY, S, h.replace('X', &format!("{} in ¤", e.replace('N', "§ in ¤"))), h.replace('X', &e.replace('N', "§ in ¤"))));
            }
        }
    }
    v
}

pub struct Row {
    pub name: String,
    pub when: u16,
    pub kind: Kind,
    pub bad: String,
    pub good: String,
}

pub fn rows() -> &'static [Row] {
    static ROWS: std::sync::OnceLock<Vec<Row>> = std::sync::OnceLock::new();
    ROWS.get_or_init(|| {
        let mut v = vec![];
        for r in RULES {
            for (b, g) in r.rows {
                let fix = |s: &str| s.replace(" ~ ", " ¬ ");
                v.push(Row { name: r.name.to_owned(), when: r.when, kind: r.kind, bad: fix(b), good: fix(g) });
            }
        }
        for (name, rules) in [
            ("target", target_rules()),
            ("rest comes last", rest_rules()),
            ("default value outside of a pattern", default_rules()),
            ("declarations as bodies", body_rules()),
            ("in within heads of for", in_rules()),
            ("parameters of methods", method_rules()),
        ] {
            for (when, kind, bad, good) in rules {
                v.push(Row { name: name.to_owned(), when, kind, bad, good });
            }
        }
        v
    })
}

/// Rows by name, so that each rule gets its share.
fn groups() -> &'static [Vec<usize>] {
    static GROUPS: std::sync::OnceLock<Vec<Vec<usize>>> = std::sync::OnceLock::new();
    GROUPS.get_or_init(|| {
        let mut m: Vec<(String, Vec<usize>)> = vec![];
        for (i, r) in rows().iter().enumerate() {
            match m.iter_mut().find(|(n, _)| *n == r.name) {
                Some((_, v)) => v.push(i),
                None => m.push((r.name.clone(), vec![i])),
            }
        }
        m.into_iter().map(|(_, v)| v).collect()
    })
}

fn selection(only: &'static [&'static str]) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = groups().iter().filter(|g| only.contains(&rows()[g[0]].name.as_str())).cloned().collect();
    if only.contains(&"ø") {
        v.push((0..rows().len()).filter(|i| rows()[*i].bad.contains('ø') && rows()[*i].name != "words of literals").collect());
    }
    v
}

fn fits(when: u16, c: &Ctx, module: bool, top: bool) -> bool {
    let has = |f: u16| when & f != 0;
    !(has(STRICT) && (!c.strict || c.maybe_sloppy)
        || has(SLOPPY) && c.strict
        || has(NO_SUPER) && c.super_prop
        || has(NO_SUPER_CALL) && (c.super_call || c.maybe_super_call)
        || has(NO_RETURN) && c.ret
        || has(SCRIPT) && module
        || has(MODULE) && !module
        || has(NESTED) && top
        || has(NO_LOOP) && c.in_loop
        || has(NO_BREAK) && (c.in_loop || c.in_switch)
        || has(TOP) && !top)
}

/// Another layout of the row: blanks and comments anywhere, line terminators within parentheses and
/// brackets, where no semicolon is inserted, of the wrong text.
fn vary(src: &mut Src, row: &Row, text: &str, breaks: bool) -> String {
    if row.name == "words of literals" || text.contains('`') || text.contains("/*") || text.contains("//") || !src.chance(1, 3) {
        return text.to_owned();
    }
    let mut out = String::new();
    let mut quote = None;
    let mut open: Vec<char> = vec![if row.kind == E { '(' } else { '{' }];
    for c in text.chars() {
        match (quote, c) {
            (Some(q), _) => {
                if c == q {
                    quote = None;
                }
            }
            (None, '\'' | '"') => quote = Some(c),
            (None, '(' | '[' | '{') => open.push(c),
            (None, ')' | ']' | '}') => {
                open.pop();
            }
            (None, ' ') if src.chance(1, 2) => {
                let nl = breaks && matches!(open.last(), Some('(' | '['));
                out.push_str(match src.below(if nl { 9 } else { 5 }) {
                    0 => "  ",
                    1 => "\t",
                    2 => " /* ; */ ",
                    3 => "\u{a0}",
                    4 => " /**/ ",
                    5 => "\n",
                    6 => " // )\n ",
                    7 => "\r\n",
                    _ => " /*\n*/ ",
                });
                continue;
            }
            _ => {}
        }
        out.push(c);
    }
    out
}

/// The two texts of a row, ready to be put in.
fn texts(src: &mut Src, row: &Row) -> (String, String) {
    let (row_bad, row_good) = (vary(src, row, &row.bad, true), vary(src, row, &row.good, false));
    let names = ["w$0".to_owned(), "w$1".to_owned(), "w$2".to_owned()];
    let start = src.record.len();
    let mut bad = fill(src, &row_bad, &names);
    let drawn = src.record[start..].to_vec();
    // The same choices again, as far as the other text has a use for them.
    let mut again = Src::replay(&drawn);
    let good = fill(&mut again, &row_good, &names);
    if row.name == "words of literals" {
        bad.push_str("\n\n");
    }
    if row.kind == Kind::E {
        return (format!("({bad})"), format!("({good})"));
    }
    if row.when & TOP != 0 {
        return (format!("{bad};"), format!("{good};"));
    }
    (format!("{{ {bad} }}"), format!("{{ {good} }}"))
}

/// One of the two texts of any row.
pub fn any_text(src: &mut Src, module: bool) -> String {
    any_text_of(src, module, groups())
}

/// One of the two texts of any row of the rules with these names, twice.
pub fn two_texts(src: &mut Src, module: bool, only: &'static [&'static str]) -> (String, String) {
    let groups = selection(only);
    let groups = if groups.is_empty() { groups } else { vec![groups[src.below(groups.len())].clone()] };
    if groups.is_empty() {
        return Default::default();
    }
    (any_text_of(src, module, &groups), any_text_of(src, module, &groups))
}

fn any_text_of(src: &mut Src, module: bool, groups: &[Vec<usize>]) -> String {
    let g = &groups[src.below(groups.len())];
    let row = &rows()[g[src.below(g.len())]];
    if row.when & MODULE != 0 && !module || row.when & SCRIPT != 0 && module {
        return String::new();
    }
    let (bad, good) = texts(src, row);
    let text = if src.chance(1, 2) { bad } else { good };
    let text = if row.when & TOP == 0 && src.chance(1, 2) { text[1..text.len() - 1].to_owned() } else { text };
    if row.when & STRICT != 0 && src.chance(1, 2) { format!("'use strict'; {text};") } else { format!("{text};") }
}

fn early(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    broken(src, info, idx, &[])
}

/// A broken rule, of those with these names (or all): `ø` for all about line terminators.
pub fn broken(src: &mut Src, info: &mut Info, idx: u64, only: &'static [&'static str]) -> CaseResult {
    let module = only.contains(&"import and export") && src.chance(3, 4) || src.chance(1, 4);
    let focus = if src.chance(1, 2) { ALL_FOCUS[src.below(ALL_FOCUS.len())] } else { Focus::Functions };
    let mut prog = Prog::generate(src, module, focus, fuel(idx, 30));
    let picked;
    let groups = if only.is_empty() {
        groups()
    } else {
        picked = selection(only);
        picked.as_slice()
    };
    let g = &groups[src.below(groups.len())];
    let row = &rows()[g[src.below(g.len())]];
    let style = [Style::Spaced, Style::Mixed, Style::Wild][src.below(3)];
    let open = row.name == "words of literals" && (row.bad.contains('`') || row.bad.contains("/*"));
    let style = if open { Style::Spaced } else { style };
    // K3: methods within generators.
    let fits = |c: &Ctx, top: bool| fits(row.when, c, module, top) && !(c.k3 && row.bad.contains("yield"));
    let places: Vec<(usize, Ctx)> = match row.kind {
        Kind::E => prog
            .names
            .iter()
            .filter(|n| n.role == Role::Ref && operand(&prog.toks, n.tok) && fits(&n.c, false))
            .map(|n| (n.tok, n.c))
            .collect(),
        Kind::S => prog.spots.iter().filter(|s| fits(&s.c, s.top)).map(|s| (s.tok, s.c)).collect(),
    };
    if places.is_empty() {
        return Ok(());
    }
    let (at, c) = places[src.below(places.len())];
    let (bad, good) = texts(src, row);
    let rest = match row.kind {
        Kind::E => at + 1,
        Kind::S => at,
    };
    // What is left open might be closed by what a literal contains.
    let count = |set: &str| row.bad.chars().filter(|c| set.contains(*c)).count();
    let unbalanced = ["()", "[]", "{}"].iter().any(|p| count(&p[..1]) != count(&p[1..]));
    if (open || unbalanced) && prog.toks[rest..].iter().any(|t| t.text.contains('`') || t.text.contains("*/")) {
        return Ok(());
    }
    let tok = |text: &str, no_lt: bool| Tok { text: text.to_owned(), kind: K::Punct, no_lt, ends: false, asi: Asi::No };
    match row.kind {
        Kind::E => {
            let no_lt = prog.toks[at].no_lt;
            prog.toks[at] = tok(&bad, no_lt);
        }
        Kind::S => prog.toks.insert(at, tok(&bad, false)),
    }
    let start = src.record.len();
    let laid = prog.lay(src, style, false);
    let drawn = src.record[start..].to_vec();
    prog.toks[at].text = good.clone();
    let mended = prog.lay(&mut Src::replay(&drawn), style, false);
    info.set(&laid.text, true);
    info.class(row.name.as_str());
    info.class_if(c.strict, "strict");
    info.class_if(module, "module");
    info.class_if(c.ret, "in a function");
    must_accept(&mended.text, module, &format!("{}: {good}", row.name))?;
    must_reject(&laid.text, module, &format!("{}: {bad}", row.name))
}

/// Development: the rows on their own, against the oracle.
fn alone(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let row = &rows()[idx as usize % rows().len()];
    let module = row.when & MODULE != 0;
    let (bad, good) = texts(src, row);
    let wrap = |t: &str| {
        let t = if row.when & NESTED != 0 && row.kind == Kind::E { format!("() => {t}") } else { t.to_owned() };
        if row.when & STRICT != 0 { format!("'use strict'; {t}") } else { t }
    };
    for (text, fine) in [(wrap(&bad), false), (wrap(&good), true)] {
        info.set(&text, true);
        let ours = parse(&text, module)?.is_ok();
        let a = crate::oracle::ask(&text, module, None);
        let theirs = a.as_ref().map(|a| a.ok);
        let v8 = a.as_ref().map(|a| a.v8.clone()).unwrap_or_default();
        if theirs != Some(fine) || ours != fine {
            eprintln!("ROW {} | {} | {} | should be {fine}: fajt {ours} acorn {theirs:?} v8 {v8} | {:?}", row.name, row.bad, row.good, text);
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P13",
            rule: "a part that breaks a rule was put into the program at a place where the rule applies",
            quick: 1_000_000,
            thorough: 30_000_000,
            run: early,
            fixed: None,
            assumptions: &[],
            slow: false,
        },
        Property {
            id: "T03",
            rule: "the rows of the rules agree with the oracle",
            quick: 3000,
            thorough: 10_000,
            run: alone,
            fixed: None,
            assumptions: &[],
            slow: false,
        },
    ]
}
