//! Generators of texts which need not be programs.

use crate::js::{Focus, KEYWORDS, PART_CHARS, START_CHARS};
use crate::layout::{Style, PUNCTUATORS};
use crate::props::common::{fuel, Prog};
use crate::props::tree::ALL_FOCUS;
use crate::src::Src;

const FRAGMENTS: &[&str] = &[
    " ", "\n", "\r\n", "\r", "\u{2028}", "\u{2029}", "\t", "\u{b}", "\u{a0}", "\u{feff}", "\u{85}", "\u{180e}", "\u{200b}", "//", "/*", "*/", "/**/", "/*\n*/", "<!--", "-->", "<!-",
    "--", ">", "/", "[", "]", "\\", "\\/", "'", "\"", "`", "${", "}", "{", "\\u", "\\u0061", "\\u{62}", "\\u{110000}", "\\u{d800}", "\\ud800", "\\x41", "\\x", "\\0",
    "\\\n", "\\\r\n", "\\u{0}", "0", "1", "00", "01", "0x", "0xfF", "0o7", "0b1", "0b2", "1_0", "1__0", "_", "e1", "e+", "E-5", ".", "..", "...", ".5", "5.", "1n",
    "a", "b1", "$", "é", "\u{1F600}", "\u{20BB7}", "日", "\u{301}", "\u{200d}", "#", "@", "\u{0}", "\u{7f}", "?.", "?", "??", "?.1", "=", "=>", "!", "(", ")", ";", ",", ":",
    "if", "function", "async", "await", "yield", "let", "of", "get", "static", "class", "new", "import", "export", "return",
];

/// One piece of text.
pub fn fragment(src: &mut Src) -> String {
    match src.weighted(&[8, 4, 3, 2, 2, 1]) {
        0 => src.pick(FRAGMENTS).to_owned(),
        1 => src.pick(PUNCTUATORS).to_owned(),
        2 => match src.below(3) {
            0 => src.pick(KEYWORDS).to_owned(),
            1 => src.pick(crate::reflex::words()).to_owned(),
            _ => {
                let mut s = src.pick(START_CHARS).to_owned();
                for _ in 0..src.below(3) {
                    s.push_str(src.pick(PART_CHARS));
                }
                s
            }
        },
        3 => ((src.below(0x60) as u8 + 0x20) as char).to_string(),
        4 => char::from_u32(src.below(0x3000) as u32).unwrap_or(' ').to_string(),
        _ => char::from_u32(src.below(0x110000) as u32).unwrap_or(' ').to_string(),
    }
}

/// Pieces of text in a row.
pub fn soup(src: &mut Src, max: usize) -> String {
    let n = src.range(0, max);
    let spaced = src.below(4);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(&fragment(src));
        if spaced > 0 && src.below(4) < spaced {
            s.push(' ');
        }
    }
    s
}

/// Tokens in a row, apart from each other.
pub fn token_soup(src: &mut Src, max: usize) -> String {
    let n = src.range(1, max);
    let mut s = String::new();
    for _ in 0..n {
        let t: &str = match src.weighted(&[4, 4, 5, 2]) {
            0 => src.pick(PUNCTUATORS),
            1 => src.pick(crate::reflex::words()),
            2 => src.pick(&["a", "b", "(", ")", "{", "}", "[", "]", ",", ";", "=", "=>", ":", "...", "."]),
            _ => src.pick(&["1", "'s'", "/r/g", "`t`", "`a${", "}b${", "}c`", "x", "\"use strict\"", "0x1", ".5", "'\\n'"]),
        };
        s.push_str(t);
        s.push_str(src.pick(&[" ", " ", " ", "\n", "", "/* c */"]));
    }
    s
}

pub fn program(src: &mut Src, idx: u64, module: bool) -> String {
    let focus = if src.chance(1, 6) { Focus::Slashes } else { ALL_FOCUS[src.below(ALL_FOCUS.len())] };
    let prog = Prog::generate(src, module, focus, fuel(idx, 45));
    let style = [Style::Mixed, Style::Tight, Style::Wild, Style::Spaced][src.below(4)];
    let asi = src.chance(1, 2);
    prog.lay(src, style, asi).text
}

fn boundary(s: &str, mut at: usize) -> usize {
    at = at.min(s.len());
    while !s.is_char_boundary(at) {
        at -= 1;
    }
    at
}

fn place(src: &mut Src, s: &str) -> usize {
    let at = src.below(s.len() + 1);
    boundary(s, at)
}

/// Damages a text.
pub fn mutate(src: &mut Src, text: &str, other: &str) -> String {
    let mut s = text.to_owned();
    let n = src.range(1, 3);
    for _ in 0..n {
        let a = place(src, &s);
        let len = if src.chance(1, 3) { src.below(40) } else { src.below(4) };
        let b = boundary(&s, a + len).max(a);
        match src.below(7) {
            0 => s.replace_range(a..b, ""),
            1 => s.insert_str(a, &fragment(src)),
            2 => {
                let f = fragment(src);
                s.replace_range(a..b, &f);
            }
            3 => {
                let part = s[a..b].to_owned();
                let at = place(src, &s);
                s.insert_str(at, &part);
            }
            4 => s.truncate(a),
            5 => {
                let (x, y) = (place(src, other), place(src, other));
                let part = &other[x.min(y)..x.max(y)];
                let part = &part[..boundary(part, 60)];
                s.insert_str(a, part);
            }
            _ => {
                let x = place(src, other);
                s = format!("{}{}", &s[..a], &other[x..]);
            }
        }
        if s.len() > 4000 {
            let at = boundary(&s, 4000);
            s.truncate(at);
        }
    }
    s
}

/// Any text; what it is, and the text.
pub fn any(src: &mut Src, idx: u64, module: bool) -> (&'static str, String) {
    let (kind, mut text) = usual(src, idx, module);
    if src.chance(1, 400) && !text.is_empty() {
        // One of its characters a great many times.
        let mut at = src.below(text.len());
        while !text.is_char_boundary(at) {
            at -= 1;
        }
        let c = text[at..].chars().next().unwrap();
        let c = if c.is_alphanumeric() || c.is_whitespace() || "$_*'\"".contains(c) { c } else { 'a' };
        text.insert_str(at, &c.to_string().repeat(src.large()));
        return ("one character many times", text);
    }
    (kind, text)
}

fn usual(src: &mut Src, idx: u64, module: bool) -> (&'static str, String) {
    match src.weighted(&[3, 3, 2, 8]) {
        0 => ("fragments", soup(src, 30)),
        1 => ("tokens", token_soup(src, 25)),
        2 => ("program", program(src, idx, module)),
        _ => {
            let a = program(src, idx, module);
            let b = if src.chance(1, 3) { program(src, idx / 2, module) } else { a.clone() };
            ("damaged program", mutate(src, &a, &b))
        }
    }
}
