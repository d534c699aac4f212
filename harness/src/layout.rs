//! Tokens and their layout: which trivia stands between two tokens, which semicolons are left to
//! automatic insertion, and where each token ends up in the source text.

use crate::src::Src;
use serde_json::Value;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Ident,
    Keyword,
    Punct,
    Num,
    Str,
    Regex,
    /// Template without substitutions, or the head of one with.
    Tpl,
    /// Template middle and tail, starts with `}`.
    TplCont,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Asi {
    No,
    Stmt,
    DoWhile,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    pub kind: K,
    /// No line terminator is allowed before this token.
    pub no_lt: bool,
    /// Whatever follows on a new line does not belong to the statement.
    pub ends: bool,
    pub asi: Asi,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// As few characters as possible.
    Tight,
    /// One space between all tokens, no semicolon left out.
    Spaced,
    /// All of the trivia.
    Wild,
    /// A mix, mostly single spaces and line feeds.
    Mixed,
}

#[derive(Clone, Copy)]
pub struct LayoutOpt {
    pub style: Style,
    pub module: bool,
    /// Leave out semicolons where one is inserted.
    pub asi: bool,
}

pub struct Laid {
    pub text: String,
    /// (start, end) of each token, None for the semicolons left out.
    pub pos: Vec<Option<(usize, usize)>>,
    pub dropped: usize,
    pub dropped_newline: usize,
    pub comments: usize,
    pub newlines: usize,
}

pub const PUNCTUATORS: &[&str] = &[
    "{", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", ">=", "==", "!=", "===", "!==",
    "+", "-", "*", "/", "%", "**", "++", "--", "<<", ">>", ">>>", "&", "|", "^", "!", "~", "&&",
    "||", "??", "?", "?.", ":", "=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=",
    "&=", "|=", "^=", "&&=", "||=", "??=", "=>", "}", "//", "/*", "<!--", "-->", "#", "@",
];

pub fn is_id_part(c: char) -> bool {
    c.is_alphanumeric() || c == '$' || c == '_' || c == '\\' || !c.is_ascii()
}

/// May the two texts stand next to each other without becoming something else?
pub fn adjacent_ok(a: &Tok, b: &Tok) -> bool {
    let la = a.text.chars().last().unwrap();
    let fb = b.text.chars().next().unwrap();
    if matches!(a.kind, K::Ident | K::Keyword | K::Num | K::Regex) && is_id_part(fb) {
        return false;
    }
    if a.kind == K::Num && fb == '.' {
        return false;
    }
    if a.text == "." && fb.is_ascii_digit() {
        return false;
    }
    if a.text == "?" && fb == '.' {
        return false;
    }
    if a.kind == K::Punct && (b.kind == K::Punct || b.kind == K::Regex || b.kind == K::Num) {
        let joined = format!("{}{}", a.text, b.text);
        for p in PUNCTUATORS {
            if p.len() > a.text.len() && joined.starts_with(p) {
                // `?.` followed by a digit is not one token
                return false;
            }
        }
        if a.text == "<" && fb == '!' {
            return false;
        }
        if a.text == "--" && fb == '>' {
            return false;
        }
    }
    if la == '/' && (fb == '/' || fb == '*') {
        return false;
    }
    true
}

/// Can `next` never continue the statement that ends before it, when it stands on a line of its
/// own?
pub fn starts_new_statement(prev: &Tok, next: &Tok) -> bool {
    if prev.ends {
        // `export {a}` may go on with `from`.
        return !(prev.text == "}" && next.text == "from") && next.text != ";";
    }
    if prev.kind == K::Ident && (prev.text == "let" || prev.text == "async") {
        return false;
    }
    match next.kind {
        K::Ident => !(next.text == "from" || next.text == "as" || next.text == "of"),
        K::Keyword => !matches!(next.text.as_str(), "in" | "instanceof"),
        K::Num | K::Str => true,
        K::Punct => matches!(next.text.as_str(), "++" | "--" | "!" | "~" | "{"),
        K::Regex | K::Tpl | K::TplCont => false,
    }
}

const SPACES: &[&str] = &[
    " ", "\t", "  ", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{3000}", "\u{2000}", "\u{2001}",
    "\u{2002}", "\u{2003}", "\u{2004}", "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}", "\u{200a}",
    "\u{1680}", "\u{202f}", "\u{205f}",
];
const NEWLINES: &[&str] = &["\n", "\r\n", "\r", "\u{2028}", "\u{2029}", "\n\n"];
const COMMENTS: &[&str] = &[
    "/**/", "/* c */", "/*/ * /**/", "/* é\u{1F600} */", "/***/", "/* \" ' ` { ( */", "/*//*/",
    "/* <!-- --> */", "/*\t\u{a0}*/", "/*; return }*/",
];
const LT_COMMENTS: &[&str] = &["/*\n*/", "/* a\r\n b */", "/*\u{2028}*/", "/**\n *\n **/", "/***\n***/", "/*/\n/*/", "/*\r*/", "/* /*\r\n*/", "/*'\u{2029}'*/", "/*\\\n*/"];
const LINE_COMMENTS: &[&str] = &[
    "//", "// c", "// é\u{1F600}", "//*", "// */", "// \" ' ` { (", "///", "//\u{a0}/*", "// ; }",
];
const HTML_OPEN: &[&str] = &["<!--", "<!-- c", "<!-- */ -->", "<!--é"];
const HTML_CLOSE: &[&str] = &["-->", "--> c */", "-->\u{e9}", "--><!--"];

struct Lay<'a> {
    src: &'a mut Src,
    opt: LayoutOpt,
    out: String,
    comments: usize,
    newlines: usize,
}

impl Lay<'_> {
    fn push(&mut self, s: &str) {
        self.out.push_str(s);
    }

    fn newline(&mut self) {
        let n = match self.opt.style {
            Style::Wild => self.src.pick(NEWLINES),
            _ => "\n",
        };
        self.newlines += 1;
        self.push(n);
    }

    /// One unit of trivia that holds a line terminator.
    fn lt_unit(&mut self) {
        if self.opt.style != Style::Wild {
            self.newline();
            return;
        }
        match self.src.weighted(&[6, 2, 3, 1, 1]) {
            0 => self.newline(),
            1 => {
                self.comments += 1;
                self.newlines += 1;
                if self.src.chance(1, 2) {
                    let c = self.src.pick(LT_COMMENTS);
                    self.push(c)
                } else {
                    let far = if self.src.chance(1, 500) { self.src.pick(&["a", " ", "* ", "\u{e9}"]).repeat(self.src.large()) } else { String::new() };
                    let before = far + &self.comment_text(true).replace("*/", "*") + self.src.pick(&["", "*", "/", "\\", "-->"]);
                    let nl = self.src.pick(&["\n", "\r", "\r\n", "\u{2028}", "\u{2029}"]);
                    let after = self.comment_text(false);
                    self.push(&format!("/*{}{nl}{after}*/", before.replace("*/", "* ")));
                }
            }
            2 => {
                self.comments += 1;
                if self.src.chance(1, 3) {
                    let c = self.comment_text(true);
                    self.push("//");
                    self.push(&c);
                } else {
                    let c = self.src.pick(LINE_COMMENTS);
                    self.push(c);
                }
                self.newline();
            }
            3 if !self.opt.module => {
                let c = self.src.pick(HTML_OPEN);
                self.comments += 1;
                self.push(c);
                self.newline();
            }
            4 if !self.opt.module => {
                self.newline();
                if self.src.chance(1, 3) {
                    self.space_unit();
                }
                let c = self.src.pick(HTML_CLOSE);
                self.comments += 1;
                self.push(c);
                self.newline();
            }
            _ => self.newline(),
        }
    }

    fn space_unit(&mut self) {
        match self.src.below(6) {
            0..=3 => {
                let c = self.src.pick(SPACES);
                self.push(c);
            }
            4 => {
                let c = self.src.pick(COMMENTS);
                self.comments += 1;
                self.push(c);
            }
            _ => {
                let c = self.comment_text(false);
                self.comments += 1;
                self.push("/*");
                self.push(&c);
                self.push("*/");
            }
        }
    }

    /// What stands in a comment, without a line terminator or the end of the comment.
    fn comment_text(&mut self, line: bool) -> String {
        let mut s = String::new();
        if self.src.chance(1, 3000) {
            s = self.src.pick(&["a", " ", "*", "\u{e9}", "/ "]).repeat(self.src.large());
        }
        let n = if self.src.chance(1, 50) { self.src.range(50, 400) } else { self.src.below(10) };
        for _ in 0..n {
            let c = match self.src.below(4) {
                0 => self.src.pick(&["*", "/", "<!--", "-->", "//", "'", "\"", "`", "${", "}", "\\", " "]).to_owned(),
                1 => ((0x20 + self.src.below(0x5f) as u8) as char).to_string(),
                2 => char::from_u32(self.src.below(0x300) as u32).unwrap().to_string(),
                _ => char::from_u32(self.src.below(0x110000) as u32).unwrap_or('x').to_string(),
            };
            if !matches!(c.as_str(), "\n" | "\r" | "\u{2028}" | "\u{2029}") {
                s.push_str(&c);
            }
        }
        if line {
            s
        } else {
            s.replace("*/", "* ").trim_end_matches('/').to_owned() + " "
        }
    }

    /// Trivia between tokens. `need` when something has to be there.
    fn gap(&mut self, need: bool, lt_allowed: bool, lt_required: bool) {
        if self.opt.style == Style::Wild && (self.out.ends_with('/') || self.out.ends_with('<')) {
            // A comment must not merge with the token.
            self.push(" ");
        }
        if lt_required {
            if self.opt.style == Style::Wild && self.src.chance(1, 4) {
                self.space_unit();
            }
            self.lt_unit();
            if self.opt.style == Style::Wild && self.src.chance(1, 4) {
                self.space_unit();
            }
            return;
        }
        match self.opt.style {
            Style::Tight => {
                if need {
                    self.push(" ");
                }
            }
            Style::Spaced => self.push(" "),
            Style::Mixed => match self.src.weighted(&[3, 3, 1]) {
                0 => self.push(" "),
                1 if !need => {}
                2 if lt_allowed => self.newline(),
                _ => self.push(" "),
            },
            Style::Wild => {
                let n = self.src.weighted(&[5, 5, 2, 1]);
                if n == 0 {
                    if need {
                        self.push(" ");
                    }
                    return;
                }
                for _ in 0..n {
                    if lt_allowed && self.src.chance(2, 5) {
                        self.lt_unit();
                    } else {
                        self.space_unit();
                    }
                }
            }
        }
    }
}

/// A piece of trivia that holds a line terminator.
pub fn line_break(src: &mut Src, module: bool) -> String {
    let opt = LayoutOpt { style: Style::Wild, module, asi: false };
    let mut lay = Lay { src, opt, out: String::new(), comments: 0, newlines: 0 };
    if lay.src.chance(1, 4) {
        lay.push(" ");
    }
    lay.lt_unit();
    lay.out
}

/// Trivia without a line terminator.
pub fn blank(src: &mut Src) -> String {
    let opt = LayoutOpt { style: Style::Wild, module: false, asi: false };
    let mut lay = Lay { src, opt, out: String::new(), comments: 0, newlines: 0 };
    lay.push(" ");
    if lay.src.chance(1, 3) {
        lay.space_unit();
    }
    lay.out
}

/// Many characters or lines of comments and white space, as if a long file preceded.
pub fn padding(src: &mut Src) -> String {
    let n = src.large();
    let fill = match src.below(6) {
        0 => "\n".repeat(n),
        1 => " ".repeat(n) + "\n",
        2 => format!("/*{}*/\n", "x".repeat(n)),
        3 => format!("/*{}*/\n", "\n".repeat(n)),
        4 => format!("//{}\n", "é".repeat(n / 2)),
        _ => "// a comment\n".repeat(n / 13),
    };
    fill
}

pub fn layout(toks: &[Tok], src: &mut Src, opt: LayoutOpt) -> Laid {
    let mut lay = Lay { src, opt, out: String::new(), comments: 0, newlines: 0 };
    let mut pos: Vec<Option<(usize, usize)>> = vec![];
    let (mut dropped, mut dropped_newline) = (0, 0);
    let mut prev: Option<usize> = None;
    let mut lt_required = false;

    if opt.style == Style::Wild && lay.src.chance(1, 200) {
        // The program stands far behind the start.
        let p = padding(lay.src);
        lay.push(&p);
        lay.comments += 1;
        lay.newlines += 1;
    }
    if opt.style == Style::Wild {
        // Nothing is in front of the first token, so a HTML close comment needs no line before it.
        lay.gap(false, true, false);
    }

    for i in 0..toks.len() {
        let t = &toks[i];
        if t.asi != Asi::No && prev.is_some() && opt.asi && lay.src.chance(1, 2) {
            let p = &toks[prev.unwrap()];
            let next = toks.get(i + 1);
            let free = match next {
                None => true,
                Some(n) if n.text == "}" && n.kind == K::Punct => true,
                Some(n) if t.asi == Asi::DoWhile => {
                    matches!(n.kind, K::Ident | K::Keyword | K::Num | K::Str)
                        || matches!(n.text.as_str(), "(" | "[" | "{" | "+" | "!" | "++")
                }
                _ => false,
            };
            if free {
                pos.push(None);
                dropped += 1;
                continue;
            }
            if let Some(n) = next {
                if starts_new_statement(p, n) && !n.no_lt && t.asi == Asi::Stmt {
                    pos.push(None);
                    dropped += 1;
                    dropped_newline += 1;
                    lt_required = true;
                    continue;
                }
            }
        }
        if let Some(p) = prev {
            let need = !adjacent_ok(&toks[p], t);
            // `}` of a template continues the template, nothing special about the trivia.
            lay.gap(need, !t.no_lt, lt_required);
        }
        lt_required = false;
        let start = lay.out.len();
        lay.push(&t.text);
        pos.push(Some((start, lay.out.len())));
        prev = Some(i);
    }
    if opt.style == Style::Wild {
        lay.gap(false, true, false);
        if lay.src.chance(1, 6) {
            let c = lay.src.pick(LINE_COMMENTS);
            lay.push(c);
        }
    }
    Laid {
        text: lay.out,
        pos,
        dropped,
        dropped_newline,
        comments: lay.comments,
        newlines: lay.newlines,
    }
}

/// A span from token `s` to token `e` (inclusive), resolved by `resolve`.
pub fn span_mark(s: usize, e: usize) -> Value {
    Value::String(format!("\u{1}{s}:{e}"))
}

/// An empty span at the start of token `s`.
pub fn point_mark(s: usize) -> Value {
    Value::String(format!("\u{1}P{s}"))
}

/// Matches anything.
pub fn any_mark() -> Value {
    Value::String("\u{2}".to_owned())
}

impl Laid {
    pub fn start(&self, tok: usize) -> usize {
        for p in &self.pos[tok.min(self.pos.len())..] {
            if let Some((s, _)) = p {
                return *s;
            }
        }
        self.text.len()
    }

    pub fn end(&self, tok: usize) -> usize {
        for p in self.pos[..=tok].iter().rev() {
            if let Some((_, e)) = p {
                return *e;
            }
        }
        0
    }

    pub fn resolve(&self, v: &mut Value) {
        match v {
            Value::String(s) => {
                if let Some(rest) = s.strip_prefix('\u{1}') {
                    *v = if let Some(p) = rest.strip_prefix('P') {
                        let at = self.start(p.parse().unwrap());
                        Value::String(format!("{at}:{at}"))
                    } else {
                        let (s, e) = rest.split_once(':').unwrap();
                        Value::String(format!(
                            "{}:{}",
                            self.start(s.parse().unwrap()),
                            self.end(e.parse().unwrap())
                        ))
                    };
                }
            }
            Value::Array(a) => a.iter_mut().for_each(|x| self.resolve(x)),
            Value::Object(o) => o.values_mut().for_each(|x| self.resolve(x)),
            _ => {}
        }
    }
}
