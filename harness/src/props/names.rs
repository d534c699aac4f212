//! Words as names.

use super::common::*;
use super::tree::ALL_FOCUS;
use crate::engine::*;
use crate::js::{Focus, NameUse, Role, CONTEXTUAL, KEYWORDS, SLOPPY};
use crate::layout::*;
use crate::src::Src;
use serde_json::Value;

/// Words an operand may start with, or after which one may go on.
const OPERANDS: &[&str] = &[
    "this", "null", "true", "false", "new", "typeof", "delete", "void", "function", "class", "super", "import",
];

/// May the word be a name in this place? None where the generator does not know.
fn verdict(word: &str, u: &NameUse, module: bool) -> Option<bool> {
    let c = &u.c;
    if u.role == Role::Property {
        return Some(true);
    }
    if KEYWORDS.contains(&word) {
        let unclear = match u.role {
            Role::Ref | Role::Target => OPERANDS.contains(&word),
            Role::Label => word == "default",
            Role::Binding => word == "extends",
            // `let` may be a name itself.
            Role::Lexical => word == "in" || word == "instanceof",
            _ => false,
        };
        return if unclear { None } else { Some(false) };
    }
    let strict_word = SLOPPY.contains(&word) || word == "let" || word == "yield";
    if strict_word && c.strict && !c.maybe_sloppy {
        // `yield` as operator in strict code of a generator.
        return if word == "yield" && (c.yield_ || c.maybe_yield) && matches!(u.role, Role::Ref | Role::Target) { None } else { Some(false) };
    }
    match word {
        "let" if matches!(u.role, Role::Lexical | Role::Label) => return None,
        "async" if u.role == Role::Label => return None,
        "yield" => {
            if c.yield_ && matches!(u.role, Role::Ref | Role::Target) {
                return None;
            }
            if !c.yield_id {
                return if c.maybe_yield { None } else { Some(false) };
            }
        }
        "await" => {
            if c.await_ && matches!(u.role, Role::Ref | Role::Target) {
                return None;
            }
            if matches!(u.role, Role::Ref | Role::Target) && c.maybe_await {
                return None;
            }
            if module {
                return Some(false);
            }
            if !c.await_id {
                return if c.maybe_await { None } else { Some(false) };
            }
        }
        _ => {}
    }
    if strict_word && c.strict {
        return None;
    }
    Some(true)
}

/// Replaces the name of the identifier that is the token.
fn rename(v: &mut Value, mark: &str, name: &str) -> usize {
    match v {
        Value::Object(m) => {
            let here = m.get("span").and_then(|s| s.as_str()) == Some(mark) && m.get("name").is_some_and(|n| n.is_string());
            if here {
                m.insert("name".to_owned(), Value::String(name.to_owned()));
                return 1;
            }
            m.values_mut().map(|x| rename(x, mark, name)).sum()
        }
        Value::Array(a) => a.iter_mut().map(|x| rename(x, mark, name)).sum(),
        _ => 0,
    }
}

fn escape(src: &mut Src, word: &str) -> String {
    let at = src.below(word.len());
    let c = word.as_bytes()[at];
    let e = match src.below(4) {
        0 => format!("\\u{{{c:x}}}"),
        1 => format!("\\u{{000{c:X}}}"),
        2 => format!("\\u{c:04X}"),
        _ => format!("\\u{c:04x}"),
    };
    format!("{}{e}{}", &word[..at], &word[at + 1..])
}

/// Is the token where an operand has to stand, and nothing else can?
pub fn operand(toks: &[Tok], at: usize) -> bool {
    if at == 0 {
        return false;
    }
    let p = &toks[at - 1];
    match p.kind {
        K::Punct => match p.text.as_str() {
            "(" => !(at > 1 && matches!(toks[at - 2].text.as_str(), "for" | "await")),
            "," | "[" | "?" | "=>" | "=" | "!" | "~" | "..." => true,
            "{" | "}" | ")" | "]" | ";" | ":" | "." | "?." | "++" | "--" => false,
            // `/` might be a regular expression elsewhere, but not as a token of its own.
            _ => true,
        },
        K::Keyword => matches!(
            p.text.as_str(),
            "typeof" | "void" | "new" | "in" | "instanceof" | "return" | "throw" | "case"
        ),
        K::TplCont | K::Tpl => p.text.ends_with("${"),
        _ => false,
    }
}

fn names(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    if idx % 16 == 7 {
        return super::grammar::contextual(src, info);
    }
    let module = src.chance(1, 4);
    let focus = if src.chance(1, 2) { ALL_FOCUS[src.below(ALL_FOCUS.len())] } else { Focus::Functions };
    let mut prog = Prog::generate(src, module, focus, fuel(idx, 45));
    let roles = [Role::Ref, Role::Target, Role::Shorthand, Role::Binding, Role::Lexical, Role::Label, Role::Property];
    let present: Vec<Role> = roles.iter().copied().filter(|r| prog.names.iter().any(|n| n.role == *r)).collect();
    if present.is_empty() {
        return Ok(());
    }
    let role = present[src.below(present.len())];
    let reference = matches!(role, Role::Ref | Role::Target);
    let candidates: Vec<NameUse> = prog
        .names
        .iter()
        .copied()
        .filter(|n| n.role == role && (!reference || operand(&prog.toks, n.tok)))
        .collect();
    if candidates.is_empty() {
        return Ok(());
    }
    let u = candidates[src.below(candidates.len())];
    let word = match src.weighted(&[3, 3, 2, 2, 1, 2]) {
        0 => src.pick(KEYWORDS),
        1 => src.pick(SLOPPY),
        2 => "yield",
        3 => "await",
        4 => "let",
        _ => src.pick(CONTEXTUAL),
    };
    let old = prog.toks[u.tok].text.clone();
    let Some(mut fine) = verdict(word, &u, module) else {
        return Ok(());
    };
    let taken = |roles: &[Role]| prog.names.iter().any(|n| roles.contains(&n.role) && prog.toks[n.tok].text == word);
    let mut at = vec![u.tok];
    match role {
        Role::Label => {
            if taken(&[Role::Label]) {
                return Ok(());
            }
            // All of that name.
            let all: Vec<NameUse> =
                prog.names.iter().copied().filter(|n| n.role == Role::Label && prog.toks[n.tok].text == old).collect();
            for n in &all {
                match verdict(word, n, module) {
                    None => return Ok(()),
                    Some(v) => fine &= v,
                }
            }
            at = all.iter().map(|n| n.tok).collect();
        }
        Role::Binding | Role::Lexical => {
            if taken(&[Role::Binding, Role::Lexical]) {
                return Ok(());
            }
            // It may be one that is exported.
            if module && prog.toks.iter().filter(|t| t.text == old).count() > 1 {
                return Ok(());
            }
        }
        _ => {}
    }
    let escaped = src.chance(1, 8);
    let text = if escaped { escape(src, word) } else { word.to_owned() };
    for &i in &at {
        let t = &mut prog.toks[i];
        t.text = text.clone();
        t.kind = K::Ident;
        if role == Role::Lexical && !fine {
            // `let` alone on a line may be a statement.
            t.no_lt = true;
        }
        if rename(&mut prog.tree, span_mark(i, i).as_str().unwrap(), word) == 0 {
            panic!("name not found in the tree");
        }
    }
    let style = [Style::Spaced, Style::Mixed, Style::Wild][src.below(3)];
    let laid = prog.lay(src, style, false);
    info.set(&laid.text, true);
    info.class(match role {
        Role::Ref => "reference",
        Role::Target => "target",
        Role::Shorthand => "shorthand",
        Role::Binding => "binding",
        Role::Lexical => "let or const",
        Role::Label => "label",
        _ => "property",
    });
    info.class(if fine { "accepted" } else { "rejected" });
    info.class_if(escaped, "escaped");
    info.class_if(u.c.strict, "strict");
    let what = format!("{word} as {role:?}");
    if fine {
        let expected = prog.expected(&laid);
        return check_tree(&laid.text, module, &expected, Spans::Compare)
            .map(|_| ())
            .map_err(|f| Fail::new(format!("{}, {what}", f.msg), f.input));
    }
    must_reject(&laid.text, module, &what)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P12",
        rule: "a name of the program was replaced by a word whose use there is decided, or a row of contextual words is decided by acorn and V8",
        quick: 2_000_000,
        thorough: 20_000_000,
        run: names,
        fixed: None,
        assumptions: &[],
        slow: false,
    }]
}
