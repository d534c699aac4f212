//! Properties decided by comparing the parsed tree to the one the generator built.

use super::common::*;
use crate::engine::*;
use crate::js::Focus;
use crate::layout::*;
use crate::src::Src;

pub const ALL_FOCUS: &[Focus] = &[
    Focus::All,
    Focus::Operators,
    Focus::Lhs,
    Focus::Stmts,
    Focus::Functions,
    Focus::Classes,
    Focus::Patterns,
    Focus::Modules,
    Focus::Literals,
    Focus::Names,
    Focus::Slashes,
];

struct Cfg {
    focus: &'static [Focus],
    module: Option<bool>,
    /// Classes of constructs of which one makes the case count as non-trivial.
    want: &'static [&'static str],
    /// Rules that are broken now and then.
    rules: &'static [&'static str],
}

fn run(src: &mut Src, info: &mut Info, idx: u64, cfg: &Cfg) -> CaseResult {
    let module = cfg.module.unwrap_or_else(|| src.chance(1, 4));
    let focus = cfg.focus[src.below(cfg.focus.len())];
    match src.weighted(&[16, 2, 2, 2]) {
        1 => {
            info.class("broken rule");
            return super::early::broken(src, info, idx, cfg.rules);
        }
        2 => return super::grammar::damaged_programs(src, info, idx, focus, module),
        3 if matches!(focus, Focus::Literals | Focus::Slashes) && src.chance(2, 3) => return super::grammar::damaged_words(src, info, idx, module),
        3 => return super::grammar::damaged_rules(src, info, cfg.rules, module),
        _ => {}
    }
    let mut prog = Prog::generate(src, module, focus, fuel(idx, 80));
    let wild = focus == Focus::Slashes && src.chance(1, 3);
    let style = if wild { Style::Wild } else { pick_style(src) };
    let asi = src.chance(1, 4);
    let laid = prog.lay(src, style, asi);
    let expected = prog.expected(&laid);
    prog.classify(info);
    info.set(&laid.text, prog.seen.iter().any(|s| cfg.want.contains(s)));
    check_tree(&laid.text, module, &expected, Spans::Ignore).map(|_| ())
}

macro_rules! tree_property {
    ($name:ident, $cfg:expr) => {
        fn $name(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
            const CFG: Cfg = $cfg;
            run(src, info, idx, &CFG)
        }
    };
}

tree_property!(operators, Cfg {
    focus: &[Focus::Operators],
    module: None,
    want: &["binary", "logical", "coalesce", "unary", "prefix-update", "postfix-update", "conditional", "assignment", "sequence", "exponent", "await", "yield"],
    rules: &["update", "target", "target of an assignment", "shapes of expressions", "functions of their own", "in within heads of for", "delete of a name"],
});
tree_property!(lhs, Cfg {
    focus: &[Focus::Lhs],
    module: None,
    want: &["member", "call", "new", "optional-chain", "tagged-template", "super-property", "super-call", "import-call", "new.target", "import.meta"],
    rules: &["optional chains", "import calls", "super", "super call", "shapes of functions", "shapes of expressions"],
});
tree_property!(statements, Cfg {
    focus: &[Focus::Stmts],
    module: None,
    want: &["if", "for", "for-in", "for-of", "while", "do-while", "switch", "try", "throw", "label", "with", "return", "break", "continue", "block", "var", "let", "const", "debugger", "empty-statement"],
    rules: &["destructuring declarations", "return", "labels", "throw, try", "declarations as bodies", "expression statements", "shapes of statements", "in within heads of for"],
});
tree_property!(functions, Cfg {
    focus: &[Focus::Functions, Focus::Classes],
    module: None,
    want: &["function-expression", "function-declaration", "arrow-function", "method", "getter", "setter", "class-expression", "class-declaration"],
    rules: &["getters and setters", "parameters of methods", "parameters of arrow functions", "rest comes last", "functions of their own", "shapes of functions", "shapes of classes", "super", "super call"],
});
tree_property!(patterns, Cfg {
    focus: &[Focus::Patterns],
    module: None,
    want: &["array-binding", "object-binding", "array-assignment-pattern", "object-assignment-pattern", "arrow-function", "for-pattern"],
    rules: &["target of an assignment", "target", "default value outside of a pattern", "rest comes last", "destructuring declarations", "parameters of arrow functions", "eval and arguments as targets", "eval and arguments as heads of loops"],
});
tree_property!(modules, Cfg { focus: &[Focus::Modules], module: Some(true), want: &["import", "export"], rules: &["import and export", "shapes of imports", "shapes of exports", "nameless declarations within default exports"] });
tree_property!(literals, Cfg {
    focus: &[Focus::Literals],
    module: None,
    want: &["escape", "regex", "template", "template-substitution", "array-literal", "object-literal"],
    rules: &["words of literals", "default value outside of a pattern", "shapes of functions"],
});

tree_property!(slashes, Cfg {
    focus: &[Focus::Slashes],
    module: None,
    want: &["division", "regex", "template-substitution"],
    rules: &["words of literals", "optional chains", "shapes of expressions"],
});

/// Is the generator right? Every program it makes has to be fine with the oracle.
fn sound(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let focus = ALL_FOCUS[src.below(ALL_FOCUS.len())];
    let module = src.chance(1, 3);
    let mut prog = Prog::generate(src, module, focus, fuel(idx, 80));
    let style = [Style::Spaced, Style::Tight, Style::Mixed, Style::Wild][src.below(4)];
    let asi = src.chance(1, 2);
    let laid = prog.lay(src, style, asi);
    let expected = prog.expected(&laid);
    prog.classify(info);
    info.set(&laid.text, prog.toks.len() > 6);
    let input = describe(&laid.text, module);
    let parsed = parse(&laid.text, module)?;
    let ast = parsed.as_ref().ok().map(tree_of);
    match crate::oracle::ask(&laid.text, module, ast.as_ref()) {
        Some(a) if !a.ok && a.v8.starts_with("Invalid regular expression") => info.class("regular expression"),
        Some(a) if !a.ok => return Err(Fail::new(format!("acorn rejects: {} / {}", a.msg, a.v8), input)),
        Some(a) if a.diff.is_some() => return Err(Fail::new(format!("acorn differs: {}", a.diff.unwrap()), input)),
        Some(_) => {}
        None => info.class("no verdict"),
    }
    check_tree(&laid.text, module, &expected, Spans::Compare).map(|_| ())
}

pub fn properties() -> Vec<Property> {
    let p = |id, rule, run, quick, thorough| Property {
        id,
        rule,
        quick,
        thorough,
        run,
        fixed: None,
        assumptions: &[],
        slow: false,
    };
    vec![
        p("T01", "more than 6 tokens", sound, 20_000, 200_000),
        p("P03", "the program contains an operator expression; or a rule about such is broken, or acorn decided a damaged one", operators, 1_000_000, 20_000_000),
        p("P04", "the program contains a member, call, new, optional chain, tagged template, super, import() or meta property; or a rule about such is broken, or acorn decided a damaged one", lhs, 1_000_000, 20_000_000),
        p("P05", "the program contains a statement that is not an expression statement; or a rule about such is broken, or acorn decided a damaged one", statements, 1_000_000, 20_000_000),
        p("P06", "the program contains a function, arrow function, class or method; or a rule about such is broken, or acorn decided a damaged one", functions, 1_000_000, 20_000_000),
        p("P07", "the program contains a pattern or arrow function; or a rule about such is broken, or acorn decided a damaged one", patterns, 1_000_000, 20_000_000),
        p("P08", "the program contains an import or export; or a rule about such is broken, or acorn decided a damaged one", modules, 1_000_000, 20_000_000),
        p("P25", "the program contains a division, regular expression, or template with substitutions; or a rule about such is broken, or acorn decided a damaged one", slashes, 1_000_000, 20_000_000),
        p("P15", "the program contains a literal that is not a plain number; or a rule about such is broken, or acorn decided a damaged one", literals, 1_000_000, 20_000_000),
    ]
}
