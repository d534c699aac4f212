//! The lexer and its readers, against a reference lexer and models of the readers.

use crate::engine::*;
use crate::reflex::{self, Goal, Next, Ref, RK};
use crate::src::Src;
use crate::text;
use fajt_ast::{LitTemplate, Literal, TemplatePart};
use fajt_common::io::char_reader::Error as CharError;
use fajt_common::io::PeekReader;
use fajt_lexer::error::{Error, ErrorKind};
use fajt_lexer::token::{Keyword, Punctuator, Token, TokenValue};
use fajt_lexer::{Lexer, LexerState};

fn state(goal: Goal, html: bool) -> LexerState {
    match goal {
        Goal::Div => LexerState::default(),
        Goal::Regex => LexerState::regex_allowed(),
        Goal::Template => LexerState::inside_template(),
    }
    .with_html_comments_allowed(html)
}

fn same_token(t: &Token, r: &reflex::RTok) -> Result<(), String> {
    let value = match (&t.value, r.kind) {
        (TokenValue::Keyword(k), RK::Word) => k.as_str() == r.text && reflex::words().contains(&r.text.as_str()),
        (TokenValue::Identifier(i), RK::Word) => *i == r.text && (r.escaped || !reflex::words().contains(&r.text.as_str())),
        (TokenValue::Punctuator(p), RK::Punct) => p.as_str() == r.text,
        (TokenValue::Literal(Literal::Number(n)), RK::Num) => n.raw == r.text,
        (TokenValue::Literal(Literal::String(s)), RK::Str(q)) => s.value == r.text && s.delimiter == q,
        (TokenValue::Literal(Literal::Regexp(s)), RK::Regex) => *s == r.text,
        (TokenValue::Literal(Literal::Template(LitTemplate { parts })), RK::TplPlain) => {
            matches!(parts.as_slice(), [TemplatePart::String(s)] if *s == r.text)
        }
        (TokenValue::TemplateHead(s), RK::TplHead) => *s == r.text,
        (TokenValue::TemplateMiddle(s), RK::TplMiddle) => *s == r.text,
        (TokenValue::TemplateTail(s), RK::TplTail) => *s == r.text,
        _ => false,
    };
    if !value {
        return Err(format!("token differs: expected {r:?}, got {t:?}"));
    }
    if t.first_on_line != r.first {
        return Err(format!("first on line differs: expected {r:?}, got {t:?}"));
    }
    if t.span.start != r.start {
        return Err(format!("start differs: expected {r:?}, got {t:?}"));
    }
    Ok(())
}

/// The end of a token whose last character has several bytes is known finding K1.
fn same_end(text: &str, t: &Token, r: &reflex::RTok) -> Result<(), String> {
    if !text[..r.end].ends_with(|c: char| c.is_ascii()) || t.span.end == r.end {
        Ok(())
    } else {
        Err(format!("end differs: expected {r:?}, got {t:?}"))
    }
}

/// Some(true) when the comparison goes on.
fn same_result(text: &str, got: Result<&Token, &Error>, want: &Next) -> Result<bool, String> {
    match (want, got) {
        (Next::Unspecified(_), _) => Ok(false),
        (Next::Tok(r), Ok(t)) => {
            same_token(t, r)?;
            same_end(text, t, r)?;
            Ok(true)
        }
        (Next::End, Err(e)) if *e.kind() == ErrorKind::EndOfStream => Ok(true),
        (Next::Error(_), Err(e)) if *e.kind() != ErrorKind::EndOfStream => Ok(false),
        (w, g) => Err(format!("token differs: expected {w:?}, got {g:?}")),
    }
}

/// Reads all of a text, with the goals `pick` chooses.
fn compare(text: &str, html: bool, mut pick: impl FnMut(usize, &Ref) -> Goal) -> Result<(usize, Next), Fail> {
    let input = format!("{text:?} (HTML-like comments allowed: {html})");
    let mut lexer = guard(&input, || Lexer::new(text))?.map_err(|e| Fail::new(format!("cannot start: {e:?}"), input.clone()))?;
    let mut reference = Ref::new(text);
    let mut n = 0;
    let mut goals = vec![];
    loop {
        let goal = pick(n, &reference);
        goals.push(goal);
        let want = reference.next(goal, html);
        if matches!(want, Next::Unspecified(_)) {
            return Ok((n, want));
        }
        let got = guard(&input, || {
            lexer.set_state(state(goal, html));
            lexer.read()
        })?;
        match same_result(text, got.as_ref(), &want) {
            Err(e) => return Err(Fail::new(format!("{e} (token {n}, goals {goals:?})"), input)),
            Ok(false) => return Ok((n, want)),
            Ok(true) if want == Next::End => return Ok((n, want)),
            Ok(true) => n += 1,
        }
    }
}

fn tokens(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let module = src.chance(1, 4);
    let (kind, text) = text::any(src, idx, module);
    let html = !src.chance(1, 4);
    let mode = src.below(4);
    info.class(kind);
    let (n, last) = match mode {
        0 => compare(&text, html, |_, _| Goal::Div)?,
        1 => compare(&text, html, |_, _| Goal::Regex)?,
        _ => compare(&text, html, |_, r| {
            if text[r.pos..].starts_with('}') && src.chance(1, 3) {
                Goal::Template
            } else if src.chance(1, 3) {
                Goal::Regex
            } else {
                Goal::Div
            }
        })?,
    };
    info.class(match last {
        Next::End => "read to the end",
        Next::Error(_) => "ends in an error",
        _ => "ends where nothing is claimed",
    });
    if let Next::Error(e) | Next::Unspecified(e) = last {
        info.class(e);
    }
    info.class_if(!html, "no HTML-like comments");
    info.set(&text, n > 2);
    // The whole of the text at once.
    if mode == 0 && html {
        let input = format!("{text:?}");
        let all = guard(&input, || Lexer::new(&text).and_then(|mut l| l.read_all()))?;
        match last {
            Next::Unspecified(_) => {}
            Next::End => match all {
                Ok(t) if t.len() == n => {}
                other => return Err(Fail::new(format!("read_all differs: expected {n} tokens, got {other:?}"), input)),
            },
            _ => {
                if all.is_ok() {
                    return Err(Fail::new("read_all differs: expected an error".to_owned(), input));
                }
            }
        }
    }
    Ok(())
}

const DENSE: &[char] = &[
    '{', '}', '(', ')', '[', ']', '.', ';', ',', '<', '>', '=', '!', '+', '-', '*', '/', '%', '&', '|', '^', '~', '?', ':', '#', '@',
    '\\', '`', '"', '\'', '$', '_', 'a', 'e', 'x', 'u', '0', '1', '8', '\n', ' ', '\u{2028}', 'é',
];
const OPERATORS: &[char] = &['.', '<', '>', '=', '!', '+', '-', '*', '/', '%', '&', '|', '^', '?', ':', '1', 'a', '\n'];
const NUMBERS: &[char] = &['0', '1', '7', '8', '_', '.', 'e', 'E', '+', '-', 'x', 'X', 'o', 'b', 'B', 'f', 'n', ' '];

fn all_texts(alphabet: &[char], len: usize, f: &mut dyn FnMut(&str) -> CaseResult) -> CaseResult {
    let mut at = vec![0usize; len];
    let mut text = String::new();
    loop {
        text.clear();
        text.extend(at.iter().map(|i| alphabet[*i]));
        f(&text)?;
        let mut i = len;
        loop {
            if i == 0 {
                return Ok(());
            }
            i -= 1;
            at[i] += 1;
            if at[i] < alphabet.len() {
                break;
            }
            at[i] = 0;
        }
    }
}

fn enumerate(fixed: &mut Fixed) -> CaseResult {
    // Words and punctuators and their texts.
    for w in reflex::words() {
        let k = w.parse::<Keyword>();
        if !matches!(&k, Ok(k) if k.as_str() == *w && k.to_string() == *w && TokenValue::Keyword(k.clone()) == keyword_token(w)) {
            return Err(Fail::new(format!("keyword differs: {k:?}"), *w));
        }
        for other in [w.to_uppercase(), format!("{w}x"), w[1..].to_owned(), format!("{}{}", w[..1].to_uppercase(), &w[1..])] {
            if other.parse::<Keyword>().is_ok() != reflex::words().contains(&other.as_str()) {
                return Err(Fail::new("keyword differs", other));
            }
        }
        fixed.evaluations += 5;
    }
    for p in reflex::punctuators() {
        let k = p.parse::<Punctuator>();
        if !matches!(&k, Ok(k) if k.as_str() == *p && k.to_string() == *p) {
            return Err(Fail::new(format!("punctuator differs: {k:?}"), *p));
        }
        fixed.evaluations += 1;
    }
    // Each character alone, within a name, and within a string, as far as it is a character.
    for c in (0..0x110000).filter_map(char::from_u32) {
        watch(|| format!("{c:?}"));
        for text in [format!("{c}"), format!("a{c}b"), format!("'{c}'"), format!("a//{c}b"), format!("\\u{{{:x}}}", c as u32)] {
            compare(&text, true, |_, _| Goal::Div)?;
            fixed.evaluations += 1;
        }
    }
    fixed.notes.push("each Unicode character alone, in a name, in a string, in a comment, as an escape".to_owned());
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let sets: &[(&[char], usize)] = if thorough {
        &[(DENSE, 1), (DENSE, 2), (DENSE, 3), (DENSE, 4), (OPERATORS, 5), (NUMBERS, 5), (NUMBERS, 6)]
    } else {
        &[(DENSE, 1), (DENSE, 2), (DENSE, 3), (OPERATORS, 4), (NUMBERS, 4)]
    };
    let depth = if thorough { 6 } else { 5 };
    for (open, close, goal, alphabet) in [
        ("'", "';a", Goal::Div, &['\'', '\\', '\n', '\r', '\u{2028}', 'n', 'x', 'u', '{', '}', '1', 'é'][..]),
        ("\"", "\"", Goal::Div, &['"', '\'', '\\', '\n', '\r', '0', '`'][..]),
        ("`", "`;a", Goal::Div, &['`', '\\', '\n', '\r', '$', '{', '}', 'a', '\''][..]),
        ("}", "`;a", Goal::Template, &['`', '\\', '\n', '\r', '$', '{', '}', 'a'][..]),
        ("/", "/g;a", Goal::Regex, &['/', '[', ']', '\\', '\n', '\r', '*', 'a', '\u{2029}', 'é'][..]),
        ("a/*", "*/b", Goal::Div, &['*', '/', '\n', '\r', '\u{2028}', 'a', '\''][..]),
        ("a//", "b", Goal::Div, &['*', '/', '\n', '\r', '\u{2028}', 'a', '\\'][..]),
        ("a\n", "b", Goal::Div, &['-', '>', '<', '!', '\n', '\r', ' ', '/', '*'][..]),
        ("\\u", "b", Goal::Div, &['{', '}', '0', '1', '4', '6', 'a', 'G', '\\'][..]),
    ] {
        for len in 0..=depth {
            all_texts(alphabet, len, &mut |body| {
                for text in [format!("{open}{body}{close}"), format!("{open}{body}")] {
                    watch(|| text.clone());
                    fixed.evaluations += 1;
                    fixed.distinct += 1;
                    compare(&text, true, |n, _| if n == 0 { goal } else { Goal::Div })?;
                }
                Ok(())
            })?;
        }
        fixed.notes.push(format!("all of up to {depth} characters of {:?} after {open:?}", alphabet.iter().collect::<String>()));
    }
    for (alphabet, len) in sets {
        for goal in [Goal::Div, Goal::Regex] {
            for html in [true, false] {
                if alphabet.contains(&'\'') || goal == Goal::Div && html {
                    all_texts(alphabet, *len, &mut |text| {
                        watch(|| text.to_owned());
                        fixed.evaluations += 1;
                        fixed.distinct += 1;
                        compare(text, html, |_, _| goal).map(|_| ())
                    })?;
                }
            }
        }
        fixed.notes.push(format!("all texts of {len} characters of {:?}", alphabet.iter().collect::<String>()));
    }
    Ok(())
}

fn keyword_token(w: &str) -> TokenValue {
    match Lexer::new(w).and_then(|mut l| l.read()) {
        Ok(t) => t.value,
        Err(_) => TokenValue::Identifier(String::new()),
    }
}

// ---- readers ----

/// What a reader over the tokens of the reference would hold.
struct Model<'a> {
    reference: Ref<'a>,
    html: bool,
    current: Next,
    next: Next,
    position: Option<usize>,
}

impl Model<'_> {
    fn read(&mut self, goal: Goal) -> Next {
        self.reference.next(goal, self.html)
    }

    fn broken(&self) -> bool {
        let bad = |n: &Next| matches!(n, Next::Error(_) | Next::Unspecified(_));
        bad(&self.current) || bad(&self.next)
    }
}

/// Histories of reading, rewinding and reading again with another goal.
fn histories(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    if src.chance(1, 5) {
        return characters(src, info, idx);
    }
    let module = src.chance(1, 4);
    let (_, text) = text::any(src, idx, module);
    let html = !src.chance(1, 4);
    info.class("tokens");
    let mut log = vec![];
    let input = |log: &[String]| format!("{text:?} (HTML-like comments allowed: {html})\noperations: {}", log.join(", "));
    let mut lexer = guard(&text, || Lexer::new(&text))?.map_err(|e| Fail::new(format!("cannot start: {e:?}"), text.clone()))?;
    lexer.set_state(state(Goal::Div, html));
    let reader = guard(&text, || PeekReader::<Token, Lexer>::new(lexer))?;
    let mut reader = reader.map_err(|e| Fail::new(format!("cannot start: {e:?}"), text.clone()))?;
    let mut m = Model { reference: Ref::new(&text), html, current: Next::End, next: Next::End, position: Some(0) };
    m.current = m.read(Goal::Div);
    m.next = m.read(Goal::Div);
    let mut kept: Vec<(Token, reflex::RTok)> = vec![];
    let steps = src.range(1, 40);
    let (mut rewinds, mut rereads) = (0, 0);
    for _ in 0..steps {
        // What is visible now.
        let check = guard(&input(&log), || -> Result<(), String> {
            same_result(&text, reader.current(), &m.current).map_err(|e| format!("current: {e}"))?;
            if !matches!(m.current, Next::Error(_) | Next::Unspecified(_)) {
                same_result(&text, reader.peek(), &m.next).map_err(|e| format!("peek: {e}"))?;
            }
            if matches!(m.position, Some(p) if p != reader.position()) {
                return Err(format!("position differs: expected {:?}, got {}", m.position, reader.position()));
            }
            Ok(())
        })?;
        if let Err(e) = check {
            return Err(Fail::new(e, input(&log)));
        }
        if let (Ok(t), Next::Tok(r)) = (reader.current(), &m.current) {
            if kept.len() < 60 && !kept.iter().any(|k| k.1 == *r) {
                kept.push((t.clone(), r.clone()));
            }
        }
        let op = if m.broken() { 2 + src.below(2) } else { src.weighted(&[6, 0, 2, 3]) };
        match op {
            0 | 1 => {
                log.push("consume".to_owned());
                let got = guard(&input(&log), || reader.consume())?;
                let want = std::mem::replace(&mut m.current, Next::End);
                m.current = std::mem::replace(&mut m.next, Next::End);
                m.next = m.read(Goal::Div);
                if let Err(e) = same_result(&text, got.as_ref(), &want) {
                    return Err(Fail::new(format!("consume: {e}"), input(&log)));
                }
                if let Next::Tok(r) = want {
                    m.position = text[..r.end].ends_with(|c: char| c.is_ascii()).then_some(r.end);
                }
            }
            2 => {
                if kept.is_empty() {
                    break;
                }
                rewinds += 1;
                let (t, r) = &kept[src.below(kept.len())];
                log.push(format!("rewind to {:?}", &text[r.start..r.end]));
                let done = guard(&input(&log), || reader.rewind_to(t).is_ok())?;
                if !done {
                    return Err(Fail::new("rewinding failed", input(&log)));
                }
                m.reference.pos = r.start;
                m.reference.first = r.first;
                m.current = m.read(Goal::Div);
                m.next = m.read(Goal::Div);
            }
            _ => {
                let goal = [Goal::Regex, Goal::Template, Goal::Div][src.below(3)];
                let Next::Tok(r) = m.current.clone() else {
                    // Nothing to read again.
                    let _ = guard(&input(&log), || reader.reread_with_state(state(goal, true)).is_ok())?;
                    continue;
                };
                rereads += 1;
                log.push(format!("read again {goal:?}"));
                let done = guard(&input(&log), || reader.reread_with_state(state(goal, html)).is_ok())?;
                if !done {
                    return Err(Fail::new("reading again failed", input(&log)));
                }
                m.reference.pos = r.start;
                m.reference.first = r.first;
                m.current = m.read(goal);
                if matches!(m.current, Next::Error(_) | Next::Unspecified(_)) {
                    m.next = Next::Unspecified("after an error");
                } else {
                    m.next = m.read(Goal::Div);
                }
            }
        }
        if matches!(m.current, Next::Unspecified(_)) {
            break;
        }
    }
    info.class_if(rewinds > 0, "rewinds");
    info.class_if(rereads > 0, "reads again");
    info.set(&input(&log), rewinds + rereads > 0 && log.len() > 3);
    Ok(())
}

/// Histories of reading characters.
fn characters(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let text = match src.below(3) {
        0 => text::any(src, idx, false).1,
        _ => text::soup(src, 12),
    };
    let starts: Vec<usize> = text.char_indices().map(|c| c.0).collect();
    let from = if src.chance(1, 2) || starts.is_empty() { 0 } else { starts[src.below(starts.len())] };
    let mut log = vec![];
    let input = |log: &[String]| format!("{text:?} from {from}\noperations: {}", log.join(", "));
    let made = guard(&text, || {
        if from == 0 {
            PeekReader::new(text.char_indices())
        } else {
            PeekReader::with_offset(text[from..].char_indices(), from)
        }
    })?;
    let mut reader = made.map_err(|_| Fail::new("cannot start", text.clone()))?;
    let mut at = from;
    let mut position = Some(from);
    info.class("characters");
    for _ in 0..src.range(1, 30) {
        let check = guard(&input(&log), || -> Result<(), String> {
            let mut cs = text[at..].chars();
            let (a, b) = (cs.next(), cs.next());
            let got = (reader.current().ok().copied(), reader.peek().ok().copied());
            if got != (a, b) {
                return Err(format!("characters differ: expected {:?}, got {got:?}", (a, b)));
            }
            if a.is_some() && reader.current_start() != at {
                return Err(format!("start differs: expected {at}, got {}", reader.current_start()));
            }
            if matches!(position, Some(p) if p != reader.position()) {
                return Err(format!("position differs: expected {position:?}, got {}", reader.position()));
            }
            Ok(())
        })?;
        if let Err(e) = check {
            return Err(Fail::new(e, input(&log)));
        }
        let mark = |text: &str, at: usize, position: &mut Option<usize>| {
            *position = text[..at].ends_with(|c: char| c.is_ascii()).then_some(at);
        };
        if src.chance(2, 3) {
            log.push("consume".to_owned());
            let want = text[at..].chars().next();
            let got = guard(&input(&log), || reader.consume())?;
            match (want, got) {
                (Some(w), Ok(g)) if w == g => {
                    at += w.len_utf8();
                    mark(&text, at, &mut position);
                }
                (None, Err(CharError::EndOfStream)) => {}
                (w, g) => return Err(Fail::new(format!("consume differs: expected {w:?}, got {g:?}"), input(&log))),
            }
        } else {
            let until = src.pick(&["letters", "ascii", "not a line end", "nothing", "all"]);
            log.push(format!("read while {until}"));
            let check = |c: &char| match until {
                "letters" => c.is_alphabetic(),
                "ascii" => c.is_ascii(),
                "not a line end" => !reflex::is_line_end(*c),
                "nothing" => false,
                _ => true,
            };
            let want: String = text[at..].chars().take_while(check).collect();
            let got = guard(&input(&log), || reader.read_while(check))?;
            match got {
                Ok(g) if g == want => {
                    at += want.len();
                    if !want.is_empty() {
                        mark(&text, at, &mut position);
                    }
                }
                g => return Err(Fail::new(format!("read_while differs: expected {want:?}, got {g:?}"), input(&log))),
            }
        }
    }
    info.set(&input(&log), log.len() > 3 && text.len() > 2);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P02",
            rule: "a text of fragments, tokens, a program, or a damaged program, of which more than two tokens are read and compared",
            quick: 1_000_000,
            thorough: 20_000_000,
            run: tokens,
            fixed: Some(enumerate),
            assumptions: &["letters newer than Unicode 15.0, BigInt and malformed escapes in strings are not compared"],
            slow: false,
        },
        Property {
            id: "P23",
            rule: "a history of more than three operations, with at least one rewind or reading again (tokens), or on a text of more than two bytes (characters)",
            quick: 500_000,
            thorough: 10_000_000,
            run: histories,
            fixed: None,
            assumptions: &["after an error, reading goes on only by rewinding"],
            slow: false,
        },
    ]
}
