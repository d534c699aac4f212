//! A lexer written from the lexical grammar of ECMAScript 2020, the reference of the lexer checks.
//! It shares nothing with that of fajt.

use crate::unicode::{ID_CONTINUE, ID_START, NEWER};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RK {
    Word,
    Punct,
    Num,
    Str(char),
    Regex,
    TplPlain,
    TplHead,
    TplMiddle,
    TplTail,
}

#[derive(Clone, PartialEq, Debug)]
pub struct RTok {
    pub kind: RK,
    /// Name, punctuator, digits, or value as fajt stores it.
    pub text: String,
    pub start: usize,
    pub end: usize,
    pub first: bool,
    /// A word with escapes.
    pub escaped: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Next {
    Tok(RTok),
    End,
    Error(&'static str),
    /// What fajt does here is not claimed.
    Unspecified(&'static str),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Goal {
    Div,
    Regex,
    Template,
}

#[derive(Clone)]
pub struct Ref<'a> {
    pub text: &'a str,
    pub pos: usize,
    pub first: bool,
}

fn within(table: &[(u32, u32)], c: char) -> bool {
    let c = c as u32;
    table.binary_search_by(|(a, b)| if c < *a { std::cmp::Ordering::Greater } else if c > *b { std::cmp::Ordering::Less } else { std::cmp::Ordering::Equal }).is_ok()
}

pub fn is_newer(c: char) -> bool {
    within(NEWER, c)
}

pub fn is_start(c: char) -> bool {
    c == '$' || c == '_' || within(ID_START, c)
}

pub fn is_part(c: char) -> bool {
    c == '$' || c == '\u{200c}' || c == '\u{200d}' || within(ID_CONTINUE, c)
}

pub fn is_line_end(c: char) -> bool {
    ['\n', '\r', '\u{2028}', '\u{2029}'].contains(&c)
}

/// <TAB> <VT> <FF> <SP> <NBSP> <ZWNBSP> and the category Zs.
pub fn is_blank(c: char) -> bool {
    let n = c as u32;
    [0x9, 0xb, 0xc, 0x20, 0xa0, 0xfeff, 0x1680, 0x202f, 0x205f, 0x3000].contains(&n) || (0x2000..=0x200a).contains(&n)
}

/// Longest first.
const PUNCT: &[&str] = &[
    ">>>=", "...", "===", "!==", "**=", "<<=", ">>=", ">>>", "=>", "==", "!=", "<=", ">=", "&&", "||", "??", "?.", "++", "--", "+=",
    "-=", "*=", "%=", "&=", "|=", "^=", "<<", ">>", "**", "/=", "{", "}", "(", ")", "[", "]", ".", ";", ",", "<", ">", "+", "-", "*", "%",
    "&", "|", "^", "!", "~", "?", ":", "=", "/",
];

impl<'a> Ref<'a> {
    pub fn new(text: &'a str) -> Ref<'a> {
        Ref { text, pos: 0, first: true }
    }

    fn rest(&self) -> &'a str {
        &self.text[self.pos..]
    }

    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }

    fn take(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.pos += c.len_utf8();
        Some(c)
    }

    fn at(&self, s: &str) -> bool {
        self.rest().starts_with(s)
    }

    fn line(&mut self) {
        while let Some(c) = self.peek() {
            if is_line_end(c) {
                return;
            }
            self.take();
        }
    }

    fn trivia(&mut self, html: bool) -> Option<Next> {
        loop {
            match self.peek() {
                None => return Some(Next::End),
                Some(c) if is_line_end(c) => {
                    self.first = true;
                    self.take();
                }
                Some(c) if is_blank(c) => {
                    self.take();
                }
                _ if self.at("//") => self.line(),
                _ if self.at("/*") => {
                    let Some(n) = self.rest()[2..].find("*/") else {
                        return Some(Next::Error("comment without end"));
                    };
                    if self.rest()[2..2 + n].contains(is_line_end) {
                        self.first = true;
                    }
                    self.pos += n + 4;
                }
                _ if self.at("<!--") || (self.first && self.at("-->")) => {
                    if !html {
                        return Some(Next::Error("HTML-like comment"));
                    }
                    self.line();
                }
                _ => return None,
            }
        }
    }

    pub fn next(&mut self, goal: Goal, html: bool) -> Next {
        if goal == Goal::Template {
            let start = self.pos;
            if !self.at("}") {
                return Next::Error("no part of a template");
            }
            self.take();
            return self.template(start, false, false);
        }
        if let Some(n) = self.trivia(html) {
            return n;
        }
        let first = self.first;
        let start = self.pos;
        let c = self.peek().unwrap();
        self.first = false;
        let done = |me: &Self, kind: RK, text: String, escaped: bool| Next::Tok(RTok { kind, text, start, end: me.pos, first, escaped });
        if c == '\'' || c == '"' {
            return self.string(start, first);
        }
        if c == '`' {
            self.take();
            return self.template(start, first, true);
        }
        if c.is_ascii_digit() || (c == '.' && self.rest()[1..].starts_with(|d: char| d.is_ascii_digit())) {
            return self.number(start, first);
        }
        if c == '/' && goal == Goal::Regex {
            return self.regex(start, first);
        }
        if c == '\\' || is_start(c) || is_newer(c) {
            let mut name = String::new();
            let mut escaped = false;
            loop {
                match self.peek() {
                    Some('\\') => {
                        escaped = true;
                        self.take();
                        let Some(v) = self.unicode_escape() else {
                            return Next::Error("bad escape in a name");
                        };
                        let Some(v) = char::from_u32(v) else {
                            return Next::Error("bad escape in a name");
                        };
                        if is_newer(v) {
                            return Next::Unspecified("newer letter");
                        }
                        if !(if name.is_empty() { is_start(v) } else { is_part(v) }) {
                            return Next::Error("escape of a character that cannot be part of a name");
                        }
                        name.push(v);
                    }
                    Some(c) if is_newer(c) => return Next::Unspecified("newer letter"),
                    Some(c) if is_part(c) => {
                        self.take();
                        name.push(c);
                    }
                    _ => break,
                }
            }
            return done(self, RK::Word, name, escaped);
        }
        for p in PUNCT {
            if self.at(p) {
                if *p == "?." && self.rest()[2..].starts_with(|d: char| d.is_ascii_digit()) {
                    continue;
                }
                if *p == "." && self.at("..") {
                    return Next::Unspecified("two dots");
                }
                self.pos += p.len();
                return done(self, RK::Punct, (*p).to_owned(), false);
            }
        }
        Next::Error("no token")
    }

    /// After the backslash of `\uXXXX` or `\u{X}`.
    fn unicode_escape(&mut self) -> Option<u32> {
        if self.take()? != 'u' {
            return None;
        }
        if self.at("{") {
            let close = self.rest().find('}')?;
            let digits = &self.rest()[1..close];
            if digits.is_empty() || !digits.chars().all(|c| c.is_ascii_hexdigit()) {
                return None;
            }
            let mut v: u64 = 0;
            for c in digits.chars() {
                v = (v * 16 + c.to_digit(16).unwrap() as u64).min(1 << 40);
            }
            self.pos += close + 1;
            return (v <= 0x10ffff).then_some(v as u32);
        }
        let mut v = 0;
        for _ in 0..4 {
            v = v * 16 + self.take()?.to_digit(16)?;
        }
        Some(v)
    }

    fn string(&mut self, start: usize, first: bool) -> Next {
        let quote = self.take().unwrap();
        let mut value = String::new();
        loop {
            let Some(c) = self.take() else {
                return Next::Error("string without end");
            };
            match c {
                '\n' | '\r' => return Next::Error("line terminator in a string"),
                '\\' => {
                    let before = self.clone();
                    match self.peek() {
                        None => return Next::Error("string without end"),
                        Some('u') if self.unicode_escape().is_none() => return Next::Unspecified("malformed escape in a string"),
                        Some('x') if self.rest().chars().skip(1).take(2).filter(|c| c.is_ascii_hexdigit()).count() != 2 => {
                            return Next::Unspecified("malformed escape in a string");
                        }
                        _ => {}
                    }
                    *self = before;
                    let e = self.take().unwrap();
                    value.push(e);
                    if e == '\r' && self.at("\n") {
                        value.push(self.take().unwrap());
                    }
                }
                c if c == quote => break,
                c => value.push(c),
            }
        }
        Next::Tok(RTok { kind: RK::Str(quote), text: value, start, end: self.pos, first, escaped: false })
    }

    fn template(&mut self, start: usize, first: bool, head: bool) -> Next {
        self.first = false;
        let mut value = String::new();
        let kind;
        loop {
            if self.at("${") {
                self.pos += 2;
                kind = if head { RK::TplHead } else { RK::TplMiddle };
                break;
            }
            match self.take() {
                None => return Next::Error("template without end"),
                Some('`') => {
                    kind = if head { RK::TplPlain } else { RK::TplTail };
                    break;
                }
                Some('\\') => match self.take() {
                    None => return Next::Error("template without end"),
                    Some(c) => value.push(c),
                },
                Some(c) => value.push(c),
            }
        }
        Next::Tok(RTok { kind, text: value, start, end: self.pos, first, escaped: false })
    }

    fn regex(&mut self, start: usize, first: bool) -> Next {
        self.take();
        let mut class = false;
        loop {
            match self.take() {
                None => return Next::Error("regular expression without end"),
                Some(c) if is_line_end(c) => return Next::Error("line terminator in a regular expression"),
                Some('\\') => match self.take() {
                    None => return Next::Error("regular expression without end"),
                    Some(c) if is_line_end(c) => return Next::Error("line terminator in a regular expression"),
                    _ => {}
                },
                Some('[') => class = true,
                Some(']') => class = false,
                Some('/') if !class => break,
                _ => {}
            }
        }
        while let Some(c) = self.peek() {
            if c == '\\' || is_newer(c) {
                return Next::Unspecified("escaped flags");
            }
            if !is_part(c) {
                break;
            }
            self.take();
        }
        Next::Tok(RTok { kind: RK::Regex, text: self.text[start..self.pos].to_owned(), start, end: self.pos, first, escaped: false })
    }

    /// Digits with separators, each between two digits.
    fn digits(&mut self, radix: u32) -> Option<usize> {
        let mut n = 0;
        loop {
            match self.peek() {
                Some(c) if c.is_digit(radix) => {
                    n += 1;
                    self.take();
                }
                Some('_') => {
                    self.take();
                    if n == 0 || !matches!(self.peek(), Some(c) if c.is_digit(radix)) {
                        return None;
                    }
                }
                _ => return Some(n),
            }
        }
    }

    fn number(&mut self, start: usize, first: bool) -> Next {
        let bad = Next::Error("malformed number");
        let radix = match self.rest().as_bytes().get(..2) {
            Some(b"0x" | b"0X") => 16,
            Some(b"0o" | b"0O") => 8,
            Some(b"0b" | b"0B") => 2,
            _ => 10,
        };
        if radix != 10 {
            self.pos += 2;
            match self.digits(radix) {
                None | Some(0) => return bad,
                _ => {}
            }
        } else {
            if self.at("0") && self.rest()[1..].starts_with(|c: char| c.is_ascii_digit() || c == '_') {
                return Next::Error("number with a leading zero");
            }
            let Some(int) = self.digits(10) else { return bad };
            let mut some = int > 0;
            if self.at(".") {
                self.take();
                match self.digits(10) {
                    None => return bad,
                    Some(n) => some |= n > 0,
                }
            }
            if !some {
                return bad;
            }
            if self.at("e") || self.at("E") {
                self.take();
                if self.at("+") || self.at("-") {
                    self.take();
                }
                match self.digits(10) {
                    None | Some(0) => return bad,
                    _ => {}
                }
            }
        }
        match self.peek() {
            Some('n') => Next::Unspecified("BigInt"),
            Some(c) if is_newer(c) => Next::Unspecified("newer letter"),
            Some(c) if c.is_ascii_digit() || c == '\\' || is_start(c) => Next::Error("name directly after a number"),
            _ => Next::Tok(RTok { kind: RK::Num, text: self.text[start..self.pos].to_owned(), start, end: self.pos, first, escaped: false }),
        }
    }
}

pub fn words() -> &'static [&'static str] {
    &[
        "await", "as", "async", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else",
        "enum", "export", "extends", "false", "finally", "for", "from", "function", "get", "if", "implements", "import", "in",
        "instanceof", "interface", "let", "new", "null", "of", "package", "private", "protected", "public", "return", "set", "static",
        "super", "switch", "target", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "yield",
    ]
}

pub fn punctuators() -> &'static [&'static str] {
    PUNCT
}
