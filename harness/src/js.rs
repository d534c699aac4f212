//! Grammar-directed generator of ECMAScript programs. It emits the tokens of a program and, in
//! the same walk, the tree the program must parse to (as JSON, spans given by token index).

use crate::layout::{any_mark, point_mark, span_mark, Asi, Tok, K};
use crate::src::Src;
use serde_json::Value;
use std::collections::HashSet;

/// Like that of serde_json, but moves its parts instead of copying them.
macro_rules! json {
    (@o $m:ident) => {};
    (@o $m:ident $k:literal : null $(, $($r:tt)*)?) => {
        $m.insert($k.to_owned(), Value::Null);
        json!(@o $m $($($r)*)?);
    };
    (@o $m:ident $k:literal : { $($i:tt)* } $(, $($r:tt)*)?) => {
        $m.insert($k.to_owned(), json!({ $($i)* }));
        json!(@o $m $($($r)*)?);
    };
    (@o $m:ident $k:literal : [ $($i:tt)* ] $(, $($r:tt)*)?) => {
        $m.insert($k.to_owned(), json!([ $($i)* ]));
        json!(@o $m $($($r)*)?);
    };
    (@o $m:ident $k:literal : $e:expr, $($r:tt)*) => {
        $m.insert($k.to_owned(), Value::from($e));
        json!(@o $m $($r)*);
    };
    (@o $m:ident $k:literal : $e:expr) => {
        $m.insert($k.to_owned(), Value::from($e));
    };
    (null) => { Value::Null };
    ([]) => { Value::Array(vec![]) };
    ([ $($t:tt),* $(,)? ]) => { Value::Array(vec![$(json!($t)),*]) };
    ({ $($i:tt)* }) => {{
        #[allow(unused_mut)]
        let mut m = serde_json::Map::new();
        json!(@o m $($i)*);
        Value::Object(m)
    }};
    ($e:expr) => { Value::from($e) };
}


#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
    All,
    Operators,
    Lhs,
    Stmts,
    Functions,
    Classes,
    Patterns,
    Modules,
    Literals,
    Names,
    /// Divisions, regular expressions and templates.
    Slashes,
}

#[derive(Clone, Copy)]
pub struct Ctx {
    pub in_: bool,
    /// `yield` expressions are allowed.
    pub yield_: bool,
    pub await_: bool,
    /// `yield` may be used as an identifier (apart from strict mode).
    pub yield_id: bool,
    pub await_id: bool,
    pub ret: bool,
    pub strict: bool,
    pub super_prop: bool,
    pub super_call: bool,
    /// A super call is allowed here, but none is generated (K10).
    pub maybe_super_call: bool,
    pub new_target: bool,
    pub in_loop: bool,
    pub in_switch: bool,
    /// Somewhere inside of a generator: `generator` of plain methods is not compared.
    pub k3: bool,
    /// Stricter here than the grammar asks for: what words may be is not exact.
    pub maybe_sloppy: bool,
    pub maybe_yield: bool,
    pub maybe_await: bool,
}

/// How a name is used.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role {
    Ref,
    /// Assigned to or updated.
    Target,
    /// `{ a }` as object or as pattern of an assignment.
    Shorthand,
    Binding,
    /// Name of a variable of `let` or `const`.
    Lexical,
    Label,
    Property,
}

/// Where a statement of a list starts.
#[derive(Clone, Copy)]
pub struct Spot {
    pub tok: usize,
    pub c: Ctx,
    pub top: bool,
}

#[derive(Clone, Copy)]
pub struct NameUse {
    pub tok: usize,
    pub role: Role,
    pub c: Ctx,
}

pub struct G<'a> {
    pub src: &'a mut Src,
    pub toks: Vec<Tok>,
    pub module: bool,
    pub focus: Focus,
    fuel: i32,
    depth: u32,
    pub c: Ctx,
    pub names: Vec<NameUse>,
    pub spots: Vec<Spot>,
    lexical: bool,
    /// With: is it the label of a loop.
    labels: Vec<(String, bool)>,
    declared: HashSet<String>,
    exported: HashSet<String>,
    top_declared: Vec<String>,
    unique: usize,
    restrict_pos: usize,
    restrict: u8,
    /// Things that were generated, for the classification.
    pub seen: std::collections::BTreeSet<&'static str>,
    pub max_depth: u32,
    /// Within something very deep.
    tower: bool,
}

pub const R_BRACE: u8 = 1;
pub const R_FUNC: u8 = 2;
pub const R_LET: u8 = 4;
pub const R_ASYNC: u8 = 8;
pub const R_STRING: u8 = 16;
pub const R_ARRAY: u8 = 32;

const IDENTS: &[&str] = &[
    "a", "b", "c", "x", "y", "z", "foo", "bar", "$", "_", "$a", "_1", "a1", "Ab", "éa", "日本x",
    "\u{20BB7}x", "ªz", "a\u{200c}b", "x\u{301}y", "iff", "inn", "ofx", "newx", "do1", "constx", "$in",
    "typeofx", "nul", "this1", "ℼz",
];
/// Characters that start identifiers, by the tables of Unicode.
pub const START_CHARS: &[&str] = &[
    "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
    "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
    "$", "_", "\u{aa}", "\u{b5}", "\u{ba}", "\u{c0}", "é", "ÿ", "Ω", "я", "א", "ع", "न", "ก", "ᄀ", "ℂ", "℘", "℮", "Ⅷ", "々", "ツ", "日", "가", "ﬁ",
    "\u{10400}", "\u{1d400}", "\u{20BB7}", "\u{2F800}",
];
/// Characters inside of identifiers.
pub const PART_CHARS: &[&str] = &[
    "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
    "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
    "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "$", "_", "\u{b7}", "\u{300}", "\u{387}", "\u{660}", "\u{903}", "\u{200c}", "\u{200d}",
    "\u{203f}", "\u{2040}", "\u{ff10}", "\u{1d7ce}", "\u{e0100}", "é", "Ω", "日", "\u{20BB7}",
];
/// Words with a meaning in some places which are identifiers anywhere.
pub const CONTEXTUAL: &[&str] = &["async", "of", "get", "set", "from", "as", "target", "meta"];
/// Reserved in strict mode only.
pub const SLOPPY: &[&str] = &[
    "implements", "interface", "package", "private", "protected", "public", "static",
];
pub const KEYWORDS: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do",
    "else", "enum", "export", "extends", "finally", "for", "function", "if", "import", "in",
    "instanceof", "new", "return", "super", "switch", "this", "throw", "try", "typeof", "var",
    "void", "while", "with", "null", "true", "false",
];

struct BinOp {
    text: &'static str,
    name: &'static str,
    prec: u8,
    logical: bool,
}
const fn b(text: &'static str, name: &'static str, prec: u8) -> BinOp {
    BinOp { text, name, prec, logical: false }
}
const BINARY: &[BinOp] = &[
    BinOp { text: "||", name: "Or", prec: 1, logical: true },
    BinOp { text: "&&", name: "And", prec: 2, logical: true },
    b("|", "BitwiseOR", 3),
    b("^", "BitwiseXOR", 4),
    b("&", "BitwiseAnd", 5),
    b("==", "Equal", 6),
    b("!=", "NotEqual", 6),
    b("===", "StrictEqual", 6),
    b("!==", "StrictNotEqual", 6),
    b("<", "LessThan", 7),
    b(">", "MoreThan", 7),
    b("<=", "LessThanEquals", 7),
    b(">=", "MoreThanEquals", 7),
    b("instanceof", "InstanceOf", 7),
    b("in", "In", 7),
    b("<<", "ShiftLeft", 8),
    b(">>", "ShiftRight", 8),
    b(">>>", "ShiftRightUnsigned", 8),
    b("+", "Plus", 9),
    b("-", "Minus", 9),
    b("*", "Multiplication", 10),
    b("/", "Division", 10),
    b("%", "Modulus", 10),
    b("**", "Exponent", 11),
];
const ASSIGN: &[(&str, &str)] = &[
    ("=", "Assign"),
    ("+=", "Add"),
    ("-=", "Sub"),
    ("*=", "Multiply"),
    ("**=", "Power"),
    ("/=", "Divide"),
    ("%=", "Modulus"),
    ("<<=", "LeftShift"),
    (">>=", "RightShift"),
    (">>>=", "UnsignedRightShift"),
    ("&=", "BitwiseAnd"),
    ("^=", "BitwiseXOr"),
    ("|=", "BitwiseOr"),
];
const UNARY: &[(&str, &str)] = &[
    ("!", "Not"),
    ("-", "Minus"),
    ("+", "Plus"),
    ("~", "BitwiseNot"),
    ("typeof", "Typeof"),
    ("void", "Void"),
    ("delete", "Delete"),
];

#[derive(Clone, Copy, PartialEq)]
enum LhsKind {
    /// Any left-hand-side expression.
    Any,
    /// A member expression without calls or optional chains, callee of `new`.
    Callee,
    /// Ends with a property access and is not an optional chain.
    Target,
}

pub fn obj1(k: &str, v: Value) -> Value {
    let mut m = serde_json::Map::new();
    m.insert(k.to_owned(), v);
    Value::Object(m)
}

impl<'a> G<'a> {
    pub fn new(src: &'a mut Src, module: bool, focus: Focus, fuel: i32) -> Self {
        G {
            src,
            toks: vec![],
            module,
            focus,
            fuel,
            depth: 0,
            c: Ctx {
                in_: true,
                yield_: false,
                await_: false,
                yield_id: true,
                await_id: !module,
                ret: false,
                strict: module,
                super_prop: false,
                super_call: false,
                maybe_super_call: false,
                new_target: false,
                in_loop: false,
                in_switch: false,
                k3: false,
                maybe_sloppy: false,
                maybe_yield: false,
                maybe_await: false,
            },
            names: vec![],
            spots: vec![],
            lexical: false,
            labels: vec![],
            declared: HashSet::new(),
            exported: HashSet::new(),
            top_declared: vec![],
            unique: 0,
            restrict_pos: usize::MAX,
            restrict: 0,
            seen: Default::default(),
            max_depth: 0,
            tower: false,
        }
    }

    fn note(&mut self, s: &'static str) {
        self.seen.insert(s);
    }

    fn pos(&self) -> usize {
        self.toks.len()
    }

    fn sp(&self, s: usize) -> Value {
        span_mark(s, self.toks.len() - 1)
    }

    fn tok(&mut self, text: &str, kind: K) {
        self.toks.push(Tok { text: text.to_owned(), kind, no_lt: false, ends: false, asi: Asi::No });
    }

    fn p(&mut self, text: &str) {
        self.tok(text, K::Punct);
    }

    fn kw(&mut self, text: &str) {
        self.tok(text, K::Keyword);
    }

    fn op(&mut self, text: &str) {
        let kind = if text.as_bytes()[0].is_ascii_alphabetic() { K::Keyword } else { K::Punct };
        self.tok(text, kind);
    }

    fn no_lt(&mut self) {
        self.toks.last_mut().unwrap().no_lt = true;
    }

    fn ends(&mut self) {
        self.toks.last_mut().unwrap().ends = true;
    }

    fn semi(&mut self) {
        self.p(";");
        self.toks.last_mut().unwrap().asi = Asi::Stmt;
    }

    fn with<T>(&mut self, f: impl FnOnce(&mut Ctx), g: impl FnOnce(&mut Self) -> T) -> T {
        let saved = self.c;
        f(&mut self.c);
        let r = g(self);
        self.c = saved;
        r
    }

    pub fn restrict(&mut self, r: u8) {
        self.restrict_pos = self.pos();
        self.restrict = r;
    }

    fn restricted(&self, r: u8) -> bool {
        self.restrict_pos == self.pos() && self.restrict & r != 0
    }

    fn w(&self, base: u32, boosted: &[Focus]) -> u32 {
        if boosted.contains(&self.focus) {
            base * 5
        } else {
            base
        }
    }

    fn spend(&mut self, n: i32) -> bool {
        self.fuel -= n;
        self.fuel > 0 && self.depth < 24
    }

    fn small(&self) -> bool {
        self.fuel <= 0 || self.depth >= 24
    }

    /// Number of elements of a list: small, now and then far from it.
    fn len(&mut self, max: usize) -> usize {
        let n = self.src.count(max);
        if n == max && self.src.chance(1, 40) {
            self.note("long-list");
            if self.src.chance(1, 12) {
                return self.src.range(60, 300);
            }
            return self.src.range(8, 70);
        }
        n
    }

    /// Now and then a great many characters of the same kind, as a part of something longer.
    fn run(&mut self, chars: &[&str]) -> String {
        if !self.src.chance(1, 2500) {
            return String::new();
        }
        self.note("very-long-token");
        let c = self.src.pick(chars);
        c.repeat(self.src.large() / c.len())
    }

    // ----- names

    /// An identifier nobody has thought of.
    fn random_ident(&mut self) -> String {
        let mut s = String::new();
        s.push(self.src.pick(START_CHARS).chars().next().unwrap());
        let n = if self.src.chance(1, 30) { self.src.range(20, 300) } else { self.src.below(12) };
        for _ in 0..n {
            s.push(self.src.pick(PART_CHARS).chars().next().unwrap());
        }
        let run = self.run(&["a", "9", "\u{e9}", "_x"]);
        s.push_str(&run);
        // K1: the end of a token whose last character has several bytes is wrong.
        if !s.ends_with(|c: char| c.is_ascii()) {
            s.push('q');
        }
        self.note("random-name");
        if KEYWORDS.contains(&s.as_str()) || SLOPPY.contains(&s.as_str()) || CONTEXTUAL.contains(&s.as_str())
            || matches!(s.as_str(), "let" | "yield" | "await" | "eval" | "arguments" | "get" | "set" | "static")
        {
            s.push('_');
        }
        s
    }

    fn name_choice(&mut self) -> String {
        let wc = self.w(2, &[Focus::Names]);
        match self.src.weighted(&[12, wc, wc, 1, 1, wc]) {
            0 => (self.src.pick(IDENTS)).to_owned(),
            1 => {
                let n = self.src.pick(CONTEXTUAL);
                if n == "async" && self.restricted(R_ASYNC) {
                    return "a".into();
                }
                self.note("contextual-name");
                n.to_owned()
            }
            2 if !self.c.strict => {
                self.note("sloppy-name");
                (self.src.pick(SLOPPY)).to_owned()
            }
            3 if !self.c.strict && self.c.yield_id => {
                self.note("yield-name");
                "yield".into()
            }
            4 if self.c.await_id => {
                self.note("await-name");
                "await".into()
            }
            5 => self.random_ident(),
            _ => "b".into(),
        }
    }

    /// Name of an identifier reference.
    fn ref_name(&mut self) -> String {
        if !self.c.strict && self.src.chance(1, 40) && !self.restricted(R_LET) {
            self.note("let-name");
            return "let".into();
        }
        if self.src.chance(1, 60) {
            return "arguments".into();
        }
        self.name_choice()
    }

    /// A name that is not declared anywhere else in the program.
    fn binding_name(&mut self) -> String {
        let mut n = self.name_choice();
        if !self.declared.insert(n.clone()) {
            loop {
                self.unique += 1;
                let base: String = n.chars().take_while(|c| !c.is_ascii_digit()).collect();
                let cand = format!("{base}{}", self.unique);
                if self.declared.insert(cand.clone()) {
                    n = cand;
                    break;
                }
            }
        }
        n
    }

    pub fn ident(&mut self, name: &str) -> Value {
        let s = self.pos();
        let reserved = KEYWORDS.contains(&name);
        self.tok(name, if reserved { K::Keyword } else { K::Ident });
        json!({"span": self.sp(s), "name": name})
    }

    fn ident_as(&mut self, name: &str, role: Role) -> Value {
        let u = NameUse { tok: self.pos(), role, c: self.c };
        self.names.push(u);
        self.ident(name)
    }

    fn binding_ident(&mut self) -> Value {
        let n = self.binding_name();
        let role = if self.lexical { Role::Lexical } else { Role::Binding };
        self.ident_as(&n, role)
    }

    /// A binding of an import, often one of the words around it.
    fn import_binding(&mut self) -> Value {
        if self.src.chance(1, 4) {
            let n = self.src.pick(&["as", "from", "async", "of", "get", "set", "target", "meta"]);
            if self.declared.insert(n.to_owned()) {
                self.note("contextual-name");
                let role = if self.lexical { Role::Lexical } else { Role::Binding };
                return self.ident_as(n, role);
            }
        }
        self.binding_ident()
    }

    /// A name of the other module, often one of the words around it.
    fn foreign_name(&mut self) -> Value {
        if self.src.chance(1, 4) {
            let n = self.src.pick(&["as", "from", "default", "import", "export", "async", "let", "of"]);
            return self.ident_as(n, Role::Property);
        }
        self.property_ident()
    }

    fn property_ident(&mut self) -> Value {
        let n = if self.src.chance(1, 10) {
            self.random_ident()
        } else if self.src.chance(1, 4) {
            self.note("keyword-property");
            match self.src.below(3) {
                0 => (self.src.pick(KEYWORDS)).to_owned(),
                1 => (self.src.pick(SLOPPY)).to_owned(),
                _ if self.src.chance(1, 2) => self.src.pick(CONTEXTUAL).to_owned(),
                _ => self.src.pick(&["let", "yield", "await", "async", "of", "get", "set", "static", "eval", "arguments", "undefined"]).to_owned(),
            }
        } else {
            (self.src.pick(IDENTS)).to_owned()
        };
        self.ident_as(&n, Role::Property)
    }

    // ----- literals

    /// One digit or more, separators inside.
    fn digits(&mut self, set: &str, max: usize) -> String {
        let set: Vec<char> = set.chars().collect();
        let mut s = String::new();
        let n = 1 + if self.src.chance(1, 400) { self.src.range(max, 700) } else { self.src.below(max) };
        for i in 0..n {
            s.push(set[self.src.below(set.len())]);
            if i + 1 < n && self.src.chance(1, 6) {
                s.push('_');
            }
        }
        s
    }

    fn decimal_integer(&mut self) -> String {
        let first = self.src.below(10);
        if first == 0 {
            return "0".into();
        }
        let mut s = first.to_string();
        if self.src.chance(2, 3) {
            if self.src.chance(1, 6) {
                s.push('_');
            }
            s += &self.digits("0123456789", 20);
        }
        s
    }

    /// Any character that is allowed in a string, template or comment with `avoid` left out.
    fn any_char(&mut self, avoid: &str) -> char {
        let c = match self.src.below(5) {
            0 => self.src.pick(PART_CHARS).chars().next().unwrap(),
            1 => (0x20 + self.src.below(0x5f) as u8) as char,
            2 => char::from_u32(self.src.below(0x250) as u32).unwrap(),
            3 => char::from_u32(0x2000 + self.src.below(0x100) as u32).unwrap(),
            _ => char::from_u32(self.src.below(0x110000) as u32).unwrap_or('a'),
        };
        if avoid.contains(c) || matches!(c, '\u{1}' | '\u{2}') {
            'a'
        } else {
            c
        }
    }

    fn number_raw(&mut self) -> String {
        match self.src.below(16) {
            14 => {
                let (prefix, digits) = *[("0x", "0123456789abcdefABCDEF"), ("0X", "0123456789abcdefABCDEF"), ("0b", "01"), ("0B", "10"), ("0o", "01234567"), ("0O", "76543210")].get(self.src.below(6)).unwrap();
                prefix.to_owned() + &self.digits(digits, 24)
            }
            15 => {
                let mut s = if self.src.chance(1, 4) { String::new() } else { self.decimal_integer() };
                let int = !s.is_empty();
                let frac = !int || self.src.chance(1, 2);
                if frac {
                    s.push('.');
                    if !int || self.src.chance(2, 3) {
                        s += &self.digits("0123456789", 24);
                    }
                }
                if self.src.chance(1, 2) {
                    s.push_str(self.src.pick(&["e", "E"]));
                    s.push_str(self.src.pick(&["", "+", "-"]));
                    s += &self.digits("0123456789", 4);
                }
                s
            }
            0 => "1".into(),
            1 => "0".into(),
            2 => "42".into(),
            3 => "1.5".into(),
            4 => ".5".into(),
            5 => "1.".into(),
            6 => "0x1fA".into(),
            7 => "0b101".into(),
            8 => "0o17".into(),
            9 => "1e10".into(),
            10 => "1.5e-3".into(),
            11 => "1_000.5_0E+1_0".into(),
            12 => {
                let mut s = self.src.range(1, 9).to_string();
                for _ in 0..self.src.count(6) {
                    s.push((b'0' + self.src.below(10) as u8) as char);
                }
                if self.src.chance(1, 2) {
                    s.push('.');
                    for _ in 0..self.src.count(4) {
                        s.push((b'0' + self.src.below(10) as u8) as char);
                    }
                }
                if self.src.chance(1, 3) {
                    s.push_str(self.src.pick(&["e", "E"]));
                    s.push_str(self.src.pick(&["", "+", "-"]));
                    s.push((b'0' + self.src.below(10) as u8) as char);
                }
                s
            }
            _ => self.src.pick(&["0X0", "0B1", "0O7", "0.0", "0.", "0e1", "9007199254740993", "0xdead_beef", "0b1_0", "0o7_7", "1_0"]).to_owned(),
        }
    }

    fn number(&mut self) -> Value {
        let raw = self.number_raw();
        self.tok(&raw, K::Num);
        json!({"raw": raw})
    }

    /// Pieces are (source, value); value None leaves the value of the literal unspecified.
    fn string_token(&mut self) -> (String, Option<String>, char) {
        let delim = if self.src.chance(1, 2) { '\'' } else { '"' };
        let mut text = String::from(delim);
        let run = self.run(&["a", " ", "\u{e9}", "use strict", "/", "\u{2028}"]);
        text.push_str(&run);
        let mut value = Some(run);
        let n = self.len(5);
        for _ in 0..n {
            if self.src.chance(1, 3) {
                let c = self.any_char(if delim == '"' { "\"\\\n\r" } else { "'\\\n\r" });
                text.push(c);
                if let Some(v) = value.as_mut() {
                    v.push(c);
                }
                continue;
            }
            let (t, v): (&str, Option<&str>) = match self.src.weighted(&[10, 2, 2, 2, 2, 2, 2, 1, 1]) {
                0 => {
                    let t = self.src.pick(&[
                        "a", "b c", "use strict", "1", "//", "/*", "{", "}", "`", "${x}", "é", "\u{1F600}", "\u{2028}", "\t", "<!--", ";",
                    ]);
                    (t, Some(t))
                }
                1 => ("\\\\", Some("\\")),
                2 => ("\\'", Some("'")),
                3 => ("\\\"", Some("\"")),
                4 => if delim == '"' { ("'", Some("'")) } else { ("\"", Some("\"")) },
                5 => ("\\é", Some("é")),
                6 => ("\\$", Some("$")),
                7 => ("\\n", None),
                _ => (self.src.pick(&["\\x41", "\\u0041", "\\u{1F600}", "\\0", "\\t", "\\\n", "\\\r\n", "\\\u{2028}"]), None),
            };
            if t == "\\0" {
                // Must not be followed by a digit.
                text.push_str("\\0 ");
                value = None;
                continue;
            }
            text.push_str(t);
            value = match (value, v) {
                (Some(a), Some(b)) => Some(a + b),
                _ => None,
            };
        }
        text.push(delim);
        if value.is_none() {
            self.note("escape");
        }
        (text, value, delim)
    }

    fn string(&mut self) -> Value {
        let (text, value, delim) = self.string_token();
        self.tok(&text, K::Str);
        let v = value.map(Value::String).unwrap_or_else(any_mark);
        json!({"value": v, "delimiter": delim.to_string()})
    }

    fn regex(&mut self) -> Value {
        let mut t = String::from("/") + &self.run(&["a", "[a]", "\u{e9}", "\\/", "(?:b)", "[/]", "."]);
        let n = 1 + self.len(4);
        for i in 0..n {
            let c = self.src.pick(&["b", "[ab/*]", "\\[", "[\\]]", "[[/]", "(?=[)/])", "\\u{20}", "x{2,3}?", "{", "}", "a|b", "$", "#"]).to_owned();
            let c = if self.src.chance(1, 2) { c } else { self.src.pick(&[
                "a", "b+", ".", "\\/", "[/]", "[^\\]/]", "\\\\", "(?:x)", "[a-z\\/]", "^$", "=", "é", "\u{1F600}", "\\d{2}", "\"", "'", "`",
                "*",
            ]).to_owned() };
            let c = if self.src.chance(1, 4) {
                // A class of anything.
                let mut t = String::from(self.src.pick(&["[", "[", "[", "[^"]));
                for _ in 0..self.len(4) {
                    t.push_str(self.src.pick(&[
                        "a", "/", "\\]", "\\\\", "[", "\\/", "(", ")", "\\[", "\\d", "{", "'", "\"", "`", "*", "//", "/*", "é", "\\-", "$", "|", "?",
                    ]));
                }
                t.push(']');
                t
            } else {
                c
            };
            let c = c.as_str();
            if i == 0 && c == "*" {
                t.push('a');
            }
            if c == "*" {
                t.push('a');
            }
            t.push_str(c);
        }
        t.push('/');
        // Which flags there are is no matter of the lexical grammar.
        if self.src.chance(1, 2) {
            t.push_str(self.src.pick(&["", "g", "i", "gi", "", "my", "s", "y"]));
        } else if self.src.chance(1, 4) {
            t.push_str(self.src.pick(&["", "g", "i", "gi", "u", "my", "gimsuy", "$", "_", "g1", "i$g", "$$", "x9_", "ñg", "gg", "日u", "a\u{200d}b", "if"]));
        }
        self.note("regex");
        self.tok(&t, K::Regex);
        obj1("Regexp", Value::String(t))
    }

    fn template_chunk(&mut self) -> (String, Option<String>) {
        let run = self.run(&["a", " ", "\n", "\u{e9}", "}", "\"", "{ "]);
        let mut text = run.clone();
        let mut value = Some(run);
        let n = self.len(4);
        for _ in 0..n {
            if self.src.chance(1, 3) {
                let c = self.any_char("`\\$\r");
                text.push(c);
                if let Some(v) = value.as_mut() {
                    v.push(c);
                }
                continue;
            }
            let (t, v): (&str, Option<&str>) = match self.src.weighted(&[10, 1, 1, 1, 1]) {
                0 => {
                    let t = self.src.pick(&[
                        "a", "b c", "$ ", "{", "}", "\"", "'", "\n", "//", "/*", "é", "\u{1F600}", "\u{2028}", "}}", "<!--", "  ",
                    ]);
                    (t, Some(t))
                }
                1 => ("\\`", Some("`")),
                2 => ("\\\\", Some("\\")),
                3 => ("\\${", Some("${")),
                _ => ("\\n", None),
            };
            text.push_str(t);
            value = match (value, v) {
                (Some(a), Some(b)) => Some(a + b),
                _ => None,
            };
        }
        (text, value)
    }

    /// The `parts` of a template literal.
    fn template(&mut self) -> Value {
        let n = if self.small() { 0 } else { self.len(3) };
        let mut parts = vec![];
        if n == 0 {
            let (t, v) = self.template_chunk();
            self.tok(&format!("`{t}`"), K::Tpl);
            parts.push(obj1("String", v.map(Value::String).unwrap_or_else(any_mark)));
            self.note("template");
            return json!({"parts": parts});
        }
        self.note("template-substitution");
        for i in 0..=n {
            let (t, v) = self.template_chunk();
            let (open, kind) = if i == 0 { ("`", K::Tpl) } else { ("}", K::TplCont) };
            let close = if i == n { "`" } else { "${" };
            self.tok(&format!("{open}{t}{close}"), kind);
            if !t.is_empty() {
                parts.push(obj1("String", v.map(Value::String).unwrap_or_else(any_mark)));
            }
            if i < n {
                let e = self.with(|c| c.in_ = true, |g| g.expression());
                parts.push(obj1("Expr", e));
            }
        }
        json!({"parts": parts})
    }

    fn literal_node(&mut self, f: impl FnOnce(&mut Self) -> Value) -> Value {
        let s = self.pos();
        let l = f(self);
        json!({"Literal": {"span": self.sp(s), "literal": l}})
    }

    // ----- expressions

    /// Expression with commas.
    pub fn expression(&mut self) -> Value {
        let s = self.pos();
        let first = self.assign();
        if self.small() || !self.src.chance(1, 10) {
            return first;
        }
        let mut all = vec![first];
        for _ in 0..1 + self.len(2) {
            self.p(",");
            all.push(self.assign());
        }
        self.note("sequence");
        json!({"Sequence": {"span": self.sp(s), "expr": all}})
    }

    pub fn assign(&mut self) -> Value {
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        let r = self.assign_inner();
        self.depth -= 1;
        r
    }

    fn assign_inner(&mut self) -> Value {
        if !self.spend(1) {
            return self.leaf();
        }
        let s = self.pos();
        let wy = if self.c.yield_ { self.w(4, &[Focus::Functions, Focus::Names]) } else { 0 };
        let warrow = self.w(2, &[Focus::Functions, Focus::Patterns]);
        let wassign = self.w(3, &[Focus::Operators]);
        let wpattern = self.w(1, &[Focus::Patterns]) * 2;
        let wcond = self.w(2, &[Focus::Operators]);
        let wplain = 14;
        match self.src.weighted(&[wplain, wcond, wassign, wpattern, warrow, wy]) {
            0 => self.short_circuit(),
            1 => {
                let cond = self.short_circuit();
                self.p("?");
                let a = self.with(|c| c.in_ = true, |g| g.assign());
                self.p(":");
                let b = self.assign();
                self.note("conditional");
                json!({"Conditional": {"span": self.sp(s), "condition": cond, "consequent": a, "alternate": b}})
            }
            2 => {
                let left = self.simple_target();
                let (mut t, mut n) = ASSIGN[self.src.below(ASSIGN.len())];
                if self.focus == Focus::Slashes && self.src.chance(2, 3) {
                    (t, n) = ("/=", "Divide");
                }
                self.p(t);
                let right = self.assign();
                self.note("assignment");
                json!({"Assignment": {"span": self.sp(s), "operator": n, "left": {"Expr": left}, "right": right}})
            }
            3 => {
                if self.restricted(R_BRACE) && self.restricted(R_ARRAY) {
                    return self.leaf();
                }
                let pat = self.assignment_pattern();
                self.p("=");
                let right = self.assign();
                self.note("destructuring-assignment");
                json!({"Assignment": {"span": self.sp(s), "operator": "Assign", "left": {"AssignmentPattern": pat}, "right": right}})
            }
            4 => self.arrow(),
            _ => {
                self.note("yield");
                self.kw("yield");
                match self.src.below(3) {
                    // Whatever can follow an assignment expression cannot start one.
                    0 => {
                        self.ends();
                        json!({"Yield": {"span": self.sp(s), "argument": null, "delegate": false}})
                    }
                    1 => {
                        let a = self.yield_arg();
                        json!({"Yield": {"span": self.sp(s), "argument": a, "delegate": false}})
                    }
                    _ => {
                        self.p("*");
                        self.no_lt();
                        let a = self.assign();
                        self.note("yield*");
                        json!({"Yield": {"span": self.sp(s), "argument": a, "delegate": true}})
                    }
                }
            }
        }
    }

    fn yield_arg(&mut self) -> Value {
        let at = self.pos();
        let a = self.assign();
        self.toks[at].no_lt = true;
        a
    }

    fn short_circuit(&mut self) -> Value {
        let s = self.pos();
        if !self.small() && self.src.chance(1, 14) {
            let mut left = self.binary(3);
            for _ in 0..1 + self.len(2) {
                self.p("??");
                let right = self.binary(3);
                left = json!({"Logical": {"span": self.sp(s), "operator": "Coalesce", "left": left, "right": right}});
            }
            self.note("coalesce");
            return left;
        }
        self.binary(1)
    }

    fn binary(&mut self, min: u8) -> Value {
        let s = self.pos();
        let want = if matches!(self.focus, Focus::Operators | Focus::Slashes) { (5, 10) } else { (2, 10) };
        if !self.spend(1) || !self.src.chance(want.0, want.1) {
            return self.unary();
        }
        let ops: Vec<usize> = (0..BINARY.len())
            .filter(|i| BINARY[*i].prec >= min && (self.c.in_ || BINARY[*i].text != "in"))
            .collect();
        if ops.is_empty() {
            return self.unary();
        }
        let mut op = &BINARY[ops[self.src.below(ops.len())]];
        if self.focus == Focus::Slashes && min <= 10 && self.src.chance(2, 3) {
            op = BINARY.iter().find(|o| o.text == "/").unwrap();
        }
        let (left, right);
        if op.text == "**" {
            self.note("exponent");
            left = self.update();
            self.p("**");
            right = self.unary();
        } else {
            left = self.binary(op.prec);
            self.op(op.text);
            right = self.binary(op.prec + 1);
        }
        self.note(if op.logical { "logical" } else { "binary" });
        if op.text == "/" {
            self.note("division");
        }
        let kind = if op.logical { "Logical" } else { "Binary" };
        obj1(kind, json!({"span": self.sp(s), "operator": op.name, "left": left, "right": right}))
    }

    pub fn unary(&mut self) -> Value {
        let s = self.pos();
        let wu = self.w(2, &[Focus::Operators]);
        let wa = if self.c.await_ { self.w(4, &[Focus::Functions, Focus::Names]) } else { 0 };
        if !self.spend(1) {
            return self.leaf();
        }
        match self.src.weighted(&[10, wu, wa]) {
            0 => self.update(),
            1 => {
                let (t, n) = UNARY[self.src.below(UNARY.len())];
                self.op(t);
                let arg = if t == "delete" {
                    if self.c.strict { self.lhs(LhsKind::Target) } else { self.update() }
                } else {
                    self.unary()
                };
                self.note("unary");
                json!({"Unary": {"span": self.sp(s), "operator": n, "argument": arg}})
            }
            _ => {
                self.kw("await");
                let arg = self.unary();
                self.note("await");
                json!({"Await": {"span": self.sp(s), "argument": arg}})
            }
        }
    }

    fn update(&mut self) -> Value {
        let s = self.pos();
        let wu = self.w(1, &[Focus::Operators]);
        if !self.spend(1) {
            return self.leaf();
        }
        match self.src.weighted(&[14, wu, wu]) {
            0 => self.lhs(LhsKind::Any),
            1 => {
                let (t, n) = if self.src.chance(1, 2) { ("--", "Decrease") } else { ("++", "Increase") };
                self.p(t);
                let arg = self.simple_target();
                self.note("prefix-update");
                json!({"Update": {"span": self.sp(s), "operator": n, "prefix": true, "argument": arg}})
            }
            _ => {
                let arg = self.simple_target();
                let (t, n) = if self.src.chance(1, 2) { ("--", "Decrease") } else { ("++", "Increase") };
                self.p(t);
                self.no_lt();
                self.note("postfix-update");
                json!({"Update": {"span": self.sp(s), "operator": n, "prefix": false, "argument": arg}})
            }
        }
    }

    fn ident_ref(&mut self) -> Value {
        let mut n = self.ref_name();
        if n == "arguments" && self.restrict == 255 {
            n = "a".into();
        }
        let v = self.ident_as(&n, Role::Ref);
        obj1("IdentRef", v)
    }

    pub fn simple_target(&mut self) -> Value {
        let s = self.pos();
        self.spend(1);
        match self.src.weighted(&[6, 4, 1]) {
            0 => {
                let n = loop {
                    let n = self.ref_name();
                    if n != "arguments" {
                        break n;
                    }
                };
                let v = self.ident_as(&n, Role::Target);
                obj1("IdentRef", v)
            }
            1 => self.lhs(LhsKind::Target),
            _ => {
                self.p("(");
                let e = self.with(|c| c.in_ = true, |g| g.simple_target());
                self.p(")");
                self.note("parenthesized-target");
                json!({"Parenthesized": {"span": self.sp(s), "expression": e}})
            }
        }
    }

    /// The simplest expression, fine anywhere.
    fn leaf(&mut self) -> Value {
        match self.src.below(3) {
            0 | 1 => self.ident_ref(),
            _ => self.literal_node(|g| {
                let n = g.number();
                obj1("Number", n)
            }),
        }
    }

    fn arguments(&mut self) -> (Value, Value) {
        let s = self.pos();
        self.p("(");
        let mut args = vec![];
        let n = if self.small() { 0 } else { self.len(3) };
        for i in 0..n {
            let spread = self.src.chance(1, 8);
            if spread {
                self.p("...");
                self.note("spread-argument");
            }
            let e = self.with(|c| c.in_ = true, |g| g.assign());
            args.push(obj1(if spread { "Spread" } else { "Expr" }, e));
            if i + 1 < n || self.src.chance(1, 10) {
                self.p(",");
            }
        }
        self.p(")");
        (Value::Array(args), self.sp(s))
    }

    fn lhs(&mut self, kind: LhsKind) -> Value {
        self.depth += 1;
        let r = self.lhs_inner(kind);
        self.depth -= 1;
        r
    }

    fn lhs_inner(&mut self, kind: LhsKind) -> Value {
        let s = self.pos();
        let rich = self.spend(1);
        let mut is_target = false;
        // `new X` without arguments, takes no further parts.
        let mut closed = false;
        let wsuper = if self.c.super_prop && rich { 3 } else { 0 };
        let wsupercall = if self.c.super_call && rich && kind != LhsKind::Callee { 12 } else { 0 };
        let wimport = if kind != LhsKind::Callee && rich { self.w(1, &[Focus::Lhs]) } else { 0 };
        let wnt = if self.c.new_target && rich { 2 } else { 0 };
        let wmeta = if self.module && rich { 1 } else { 0 };
        let wnew = if rich { self.w(2, &[Focus::Lhs]) } else { 0 };
        let mut node = match self.src.weighted(&[20, wnew, wsuper, wsupercall, wimport, wnt, wmeta]) {
            0 => self.primary(),
            1 => {
                self.kw("new");
                self.note("new");
                let callee = self.lhs(LhsKind::Callee);
                // `new new X` without arguments on the inner one is fine as well.
                if kind != LhsKind::Any || self.src.chance(2, 3) {
                    let (args, span) = self.arguments();
                    json!({"New": {"span": self.sp(s), "callee": callee, "arguments_span": span, "arguments": args}})
                } else {
                    closed = true;
                    self.note("new-without-arguments");
                    json!({"New": {"span": self.sp(s), "callee": callee, "arguments_span": null, "arguments": []}})
                }
            }
            2 => {
                self.kw("super");
                let sup = json!({"Super": {"span": self.sp(s)}});
                is_target = true;
                self.note("super-property");
                let prop = self.member_property();
                json!({"Member": {"span": self.sp(s), "object": sup, "property": prop}})
            }
            3 => {
                self.kw("super");
                self.note("super-call");
                let (args, span) = self.arguments();
                json!({"Call": {"span": self.sp(s), "callee": "Super", "arguments_span": span, "arguments": args}})
            }
            4 => {
                self.kw("import");
                self.note("import-call");
                let a = self.pos();
                self.p("(");
                let e = self.with(|c| c.in_ = true, |g| g.assign());
                self.p(")");
                json!({"Call": {"span": self.sp(s), "callee": "Import", "arguments_span": self.sp(a), "arguments": [{"Expr": e}]}})
            }
            5 => {
                self.note("new.target");
                let meta = self.ident("new");
                self.p(".");
                let prop = self.ident("target");
                json!({"MetaProperty": {"span": self.sp(s), "meta": meta, "property": prop}})
            }
            _ => {
                self.note("import.meta");
                let meta = self.ident("import");
                self.p(".");
                let prop = self.ident("meta");
                json!({"MetaProperty": {"span": self.sp(s), "meta": meta, "property": prop}})
            }
        };
        if closed {
            return node;
        }
        let max = if self.focus == Focus::Lhs { 6 } else { 3 };
        let mut n = if rich { self.len(max) } else { 0 };
        if kind == LhsKind::Target && n == 0 && !is_target {
            n = 1;
        }
        let mut chain = false;
        for i in 0..n {
            let last = i + 1 == n;
            let must_member = kind == LhsKind::Target && last;
            let wcall = if kind != LhsKind::Callee && !must_member { 4 } else { 0 };
            let wtpl = if !chain && !must_member { self.w(1, &[Focus::Lhs]) } else { 0 };
            let wopt = if kind == LhsKind::Any { self.w(1, &[Focus::Lhs]) } else { 0 };
            match self.src.weighted(&[8, wcall, wtpl, wopt]) {
                0 => {
                    let prop = self.member_property();
                    let span = self.sp(s);
                    node = if chain {
                        json!({"OptionalMember": {"span": span, "object": node, "property": prop, "optional": false}})
                    } else {
                        json!({"Member": {"span": span, "object": {"Expr": node}, "property": prop}})
                    };
                    self.note("member");
                }
                1 => {
                    // `async(...)` followed by `=>` would be an arrow, which cannot follow here.
                    let (args, aspan) = self.arguments();
                    let span = self.sp(s);
                    node = if chain {
                        json!({"OptionalCall": {"span": span, "callee": node, "arguments_span": aspan, "arguments": args, "optional": false}})
                    } else {
                        json!({"Call": {"span": span, "callee": {"Expr": node}, "arguments_span": aspan, "arguments": args}})
                    };
                    self.note("call");
                }
                2 => {
                    let t = self.template();
                    node = json!({"TaggedTemplate": {"span": self.sp(s), "callee": node, "template": t}});
                    self.note("tagged-template");
                }
                _ => {
                    self.p("?.");
                    chain = true;
                    self.note("optional-chain");
                    match self.src.below(3) {
                        0 => {
                            let prop = self.property_ident();
                            node = json!({"OptionalMember": {"span": self.sp(s), "object": node, "property": {"Ident": prop}, "optional": true}});
                        }
                        1 => {
                            self.p("[");
                            let e = self.with(|c| c.in_ = true, |g| g.expression());
                            self.p("]");
                            node = json!({"OptionalMember": {"span": self.sp(s), "object": node, "property": {"Expr": e}, "optional": true}});
                        }
                        _ => {
                            let (args, aspan) = self.arguments();
                            node = json!({"OptionalCall": {"span": self.sp(s), "callee": node, "arguments_span": aspan, "arguments": args, "optional": true}});
                        }
                    }
                }
            }
        }
        node
    }

    fn member_property(&mut self) -> Value {
        if self.src.chance(1, 4) {
            self.p("[");
            let e = self.with(|c| c.in_ = true, |g| g.expression());
            self.p("]");
            obj1("Expr", e)
        } else {
            self.p(".");
            let i = self.property_ident();
            obj1("Ident", i)
        }
    }

    /// Something very deep or very long, in parentheses.
    fn tower(&mut self) -> Value {
        let s = self.pos();
        self.tower = true;
        self.note("tower");
        self.fuel = self.fuel.min(20);
        self.p("(");
        let height = if self.src.chance(1, 2) { self.src.range(12, 33) } else { self.src.range(17, 70) };
        let kind = if self.src.chance(2, 3) { Some(self.src.below(9)) } else { None };
        let e = self.with(|c| c.in_ = true, |g| g.storey(height, kind));
        self.p(")");
        self.tower = false;
        json!({"Parenthesized": {"span": self.sp(s), "expression": e}})
    }

    fn storey(&mut self, height: usize, kind: Option<usize>) -> Value {
        if height == 0 {
            return self.assign();
        }
        let s = self.pos();
        let h = height - 1;
        // Assignments in brackets take time (K12).
        let k = kind.unwrap_or_else(|| self.src.below(8));
        match if kind.is_none() && k == 7 { 8 } else { k } {
            0 => {
                self.p("(");
                let e = self.storey(h, kind);
                self.p(")");
                json!({"Parenthesized": {"span": self.sp(s), "expression": e}})
            }
            1 => self.literal_node(|g| {
                g.p("[");
                let e = g.storey(h, kind);
                g.p("]");
                json!({"Array": {"elements": [{"Expr": e}]}})
            }),
            2 => self.literal_node(|g| {
                g.p("{");
                let s = g.pos();
                let name = g.property_name();
                g.p(":");
                let value = g.storey(h, kind);
                let prop = json!({"Named": {"span": g.sp(s), "name": name, "value": value}});
                g.p("}");
                json!({"Object": {"props": [prop]}})
            }),
            3 => self.literal_node(|g| {
                g.tok("`${", K::Tpl);
                let e = g.storey(h, kind);
                g.tok("}`", K::TplCont);
                json!({"Template": {"parts": [{"Expr": e}]}})
            }),
            4 => {
                let callee = self.ident_ref();
                let a = self.pos();
                self.p("(");
                let e = self.storey(h, kind);
                self.p(")");
                json!({"Call": {"span": self.sp(s), "callee": {"Expr": callee}, "arguments_span": self.sp(a), "arguments": [{"Expr": e}]}})
            }
            5 => {
                let object = self.ident_ref();
                self.p("[");
                let e = self.storey(h, kind);
                self.p("]");
                json!({"Member": {"span": self.sp(s), "object": {"Expr": object}, "property": {"Expr": e}}})
            }
            6 => {
                let cond = self.leaf();
                self.p("?");
                let (a, b);
                if self.src.chance(1, 2) {
                    a = self.leaf();
                    self.p(":");
                    b = self.storey(h, kind);
                } else {
                    a = self.storey(h, kind);
                    self.p(":");
                    b = self.leaf();
                }
                json!({"Conditional": {"span": self.sp(s), "condition": cond, "consequent": a, "alternate": b}})
            }
            7 => {
                let left = self.simple_target();
                let (t, n) = ASSIGN[self.src.below(ASSIGN.len())];
                self.p(t);
                let right = self.storey(h, kind);
                json!({"Assignment": {"span": self.sp(s), "operator": n, "left": {"Expr": left}, "right": right}})
            }
            _ => {
                // A chain to the left.
                let op = loop {
                    let op = &BINARY[self.src.below(BINARY.len())];
                    if op.text != "**" {
                        break op;
                    }
                };
                let kind = if op.logical { "Logical" } else { "Binary" };
                let mut left = self.leaf();
                for _ in 0..height * 3 {
                    self.op(op.text);
                    let right = self.leaf();
                    left = obj1(kind, json!({"span": self.sp(s), "operator": op.name, "left": left, "right": right}));
                }
                left
            }
        }
    }

    /// Statements within statements.
    fn statement_tower(&mut self) -> Value {
        self.tower = true;
        self.note("tower");
        self.fuel = self.fuel.min(20);
        let height = if self.src.chance(1, 2) { self.src.range(8, 20) } else { self.src.range(14, 40) };
        let kind = if self.src.chance(2, 3) { Some(self.src.below(7)) } else { None };
        let r = self.statement_storey(height, kind);
        self.tower = false;
        r
    }

    fn statement_storey(&mut self, height: usize, kind: Option<usize>) -> Value {
        if height == 0 {
            return self.statement(false);
        }
        let s = self.pos();
        let h = height - 1;
        match kind.unwrap_or_else(|| self.src.below(7)) {
            0 => {
                self.p("{");
                let b = self.statement_storey(h, kind);
                self.p("}");
                json!({"Block": {"span": self.sp(s), "statements": [b]}})
            }
            k @ 1..=2 => {
                self.kw("if");
                self.p("(");
                let test = self.leaf();
                self.p(")");
                if k == 1 {
                    let cons = self.statement_storey(h, kind);
                    return json!({"If": {"span": self.sp(s), "condition": test, "consequent": cons, "alternate": null}});
                }
                let e = self.pos();
                self.p(";");
                let cons = json!({"Empty": {"span": self.sp(e)}});
                self.kw("else");
                let alt = self.statement_storey(h, kind);
                json!({"If": {"span": self.sp(s), "condition": test, "consequent": cons, "alternate": alt}})
            }
            3 => {
                self.kw("while");
                self.p("(");
                let test = self.leaf();
                self.p(")");
                let body = self.with(|c| c.in_loop = true, |g| g.statement_storey(h, kind));
                json!({"While": {"span": self.sp(s), "test": test, "body": body}})
            }
            4 => {
                self.kw("do");
                let body = self.with(|c| c.in_loop = true, |g| g.statement_storey(h, kind));
                self.kw("while");
                self.p("(");
                let test = self.leaf();
                self.p(")");
                self.p(";");
                self.toks.last_mut().unwrap().asi = Asi::DoWhile;
                json!({"DoWhile": {"span": self.sp(s), "body": body, "test": test}})
            }
            5 if !self.c.strict => {
                self.kw("with");
                self.p("(");
                let object = self.leaf();
                self.p(")");
                let body = self.statement_storey(h, kind);
                json!({"With": {"span": self.sp(s), "object": object, "body": body}})
            }
            _ => {
                self.kw("switch");
                self.p("(");
                let disc = self.leaf();
                self.p(")");
                self.p("{");
                let c = self.pos();
                self.kw("default");
                self.p(":");
                let body = self.with(|c| c.in_switch = true, |g| g.statement_storey(h, kind));
                let case = json!({"span": self.sp(c), "test": null, "consequent": [body]});
                self.p("}");
                json!({"Switch": {"span": self.sp(s), "discriminant": disc, "cases": [case]}})
            }
        }
    }

    fn primary(&mut self) -> Value {
        let s = self.pos();
        if self.small() {
            return self.leaf();
        }
        if !self.tower && self.src.chance(1, 2500) {
            return self.tower();
        }
        let wlit = self.w(2, &[Focus::Literals]);
        let wre = if self.focus == Focus::Slashes { 20 } else { self.w(1, &[Focus::Literals]) };
        let wtpl = self.w(1, &[Focus::Literals, Focus::Slashes]);
        let warr = self.w(1, &[Focus::Literals]);
        let wobj = if self.restricted(R_BRACE) { 0 } else { self.w(1, &[Focus::Literals, Focus::Functions]) };
        let wfn = if self.restricted(R_FUNC) { 0 } else { self.w(1, &[Focus::Functions]) };
        let wcl = if self.restricted(R_FUNC) { 0 } else { self.w(1, &[Focus::Classes]) };
        let wstr = if self.restricted(R_STRING) { 0 } else { wlit };
        let warr = if self.restricted(R_ARRAY) { 0 } else { warr };
        match self.src.weighted(&[16, wlit, wstr, wlit, wre, wtpl, 3, warr, wobj, wfn, wcl]) {
            0 => self.ident_ref(),
            1 => self.literal_node(|g| {
                let n = g.number();
                obj1("Number", n)
            }),
            2 => self.literal_node(|g| {
                let n = g.string();
                obj1("String", n)
            }),
            3 => match self.src.below(4) {
                0 => {
                    self.kw("this");
                    json!({"This": {"span": self.sp(s)}})
                }
                1 => self.literal_node(|g| {
                    g.kw("null");
                    json!("Null")
                }),
                2 => self.literal_node(|g| {
                    g.kw("true");
                    json!({"Boolean": true})
                }),
                _ => self.literal_node(|g| {
                    g.kw("false");
                    json!({"Boolean": false})
                }),
            },
            4 => self.literal_node(|g| g.regex()),
            5 => self.literal_node(|g| {
                let t = g.template();
                obj1("Template", t)
            }),
            6 => {
                self.p("(");
                let e = self.with(|c| c.in_ = true, |g| g.expression());
                self.p(")");
                self.note("parenthesized");
                json!({"Parenthesized": {"span": self.sp(s), "expression": e}})
            }
            7 => self.literal_node(|g| g.array()),
            8 => self.literal_node(|g| g.object()),
            9 => self.function_expr(),
            _ => self.class_expr(),
        }
    }

    fn array(&mut self) -> Value {
        self.p("[");
        self.note("array-literal");
        let mut elements = vec![];
        let n = self.len(4);
        for i in 0..n {
            match self.src.weighted(&[8, 2, 1]) {
                0 => {
                    let e = self.with(|c| c.in_ = true, |g| g.assign());
                    elements.push(obj1("Expr", e));
                    if i + 1 < n || self.src.chance(1, 6) {
                        self.p(",");
                    }
                }
                1 => {
                    elements.push(json!("Elision"));
                    self.note("elision");
                    self.p(",");
                }
                _ => {
                    self.p("...");
                    let e = self.with(|c| c.in_ = true, |g| g.assign());
                    elements.push(obj1("Spread", e));
                    if i + 1 < n || self.src.chance(1, 6) {
                        self.p(",");
                    }
                }
            }
        }
        self.p("]");
        json!({"Array": {"elements": elements}})
    }

    /// (value, is the plain word `constructor`)
    fn property_name(&mut self) -> Value {
        match self.src.weighted(&[6, 2, 2, 2]) {
            0 => {
                let i = self.property_ident();
                obj1("Ident", i)
            }
            1 => {
                let s = self.string();
                obj1("String", s)
            }
            2 => {
                let n = self.number();
                obj1("Number", n)
            }
            _ => {
                self.p("[");
                let e = self.with(|c| c.in_ = true, |g| g.assign());
                self.p("]");
                self.note("computed-name");
                obj1("Computed", e)
            }
        }
    }

    fn object(&mut self) -> Value {
        self.p("{");
        self.note("object-literal");
        let mut props = vec![];
        let n = self.len(4);
        for i in 0..n {
            let s = self.pos();
            let wm = self.w(2, &[Focus::Functions, Focus::Classes]);
            let v = match self.src.weighted(&[4, 4, 1, wm]) {
                0 => {
                    let e = {
                        let n = loop {
                            let n = self.ref_name();
                            if !(n == "arguments") {
                                break n;
                            }
                        };
                        self.ident_as(&n, Role::Shorthand)
                    };
                    obj1("IdentRef", e)
                }
                1 => {
                    let name = self.property_name();
                    self.p(":");
                    let value = self.with(|c| c.in_ = true, |g| g.assign());
                    json!({"Named": {"span": self.sp(s), "name": name, "value": value}})
                }
                2 => {
                    self.p("...");
                    let e = self.with(|c| c.in_ = true, |g| g.assign());
                    self.note("object-spread");
                    obj1("Spread", e)
                }
                _ => {
                    let m = self.method(false, false);
                    obj1("Method", m)
                }
            };
            props.push(v);
            if i + 1 < n || self.src.chance(1, 6) {
                self.p(",");
            }
        }
        self.p("}");
        json!({"Object": {"props": props}})
    }

    /// A method definition without `static`.
    fn method(&mut self, is_static: bool, derived: bool) -> Value {
        let _ = derived;
        let s = self.pos();
        let kind = self.src.below(6);
        let (mk, asynchronous, generator) = match kind {
            0 => ("Method", false, false),
            1 => ("Get", false, false),
            2 => ("Set", false, false),
            3 => ("Method", true, false),
            4 => ("Method", false, true),
            _ => ("Method", true, true),
        };
        match mk {
            "Get" => {
                self.kw("get");
                self.note("getter");
            }
            "Set" => {
                self.kw("set");
                self.note("setter");
            }
            _ => {}
        }
        if asynchronous {
            self.kw("async");
            self.note("async-method");
        }
        if generator {
            self.p("*");
            self.note("generator-method");
            if asynchronous {
                self.no_lt();
            }
        }
        let at = self.pos();
        let plain = mk == "Method" && !asynchronous && !generator;
        let name = if plain && !is_static && self.src.chance(1, 4) {
            // Words which could start another kind of method.
            let n = self.src.pick(&["get", "set", "async", "static", "await", "yield"]);
            self.note("contextual-method-name");
            let i = self.ident(n);
            obj1("Ident", i)
        } else {
            // K10: a super call in the computed name of a method is rejected.
            self.with(
                |c| {
                    c.maybe_super_call |= c.super_call;
                    c.super_call = false;
                },
                |g| g.property_name(),
            )
        };
        if asynchronous && !generator {
            self.toks[at].no_lt = true;
        }
        let k3 = self.c.k3 && !asynchronous && !generator;
        self.finish_method(s, name, mk, asynchronous, generator, is_static, k3, false)
    }

    #[allow(clippy::too_many_arguments)]
    fn finish_method(&mut self, s: usize, name: Value, mk: &'static str, asynchronous: bool, generator: bool, is_static: bool, k3: bool, super_call: bool) -> Value {
        let params = match mk {
            "Get" => Params::None,
            "Set" => Params::One,
            _ => Params::Any,
        };
        let module = self.module;
        let (parameters, body) = self.with(
            |c| {
                c.yield_ = generator && !k3;
                c.await_ = asynchronous;
                c.yield_id = !generator && !k3;
                c.await_id = !asynchronous && !module;
                c.maybe_yield = k3;
                c.maybe_await = false;
                c.k3 = generator || k3;
                c.super_prop = true;
                c.super_call = super_call;
                c.maybe_super_call = false;
                c.new_target = true;
            },
            |g| g.function_rest(params, true),
        );
        self.note("method");
        if k3 {
            self.note("plain method in a generator");
        }
        let gen = if k3 { any_mark() } else { Value::Bool(generator) };
        json!({"span": self.sp(s), "name": name, "kind": mk, "parameters": parameters, "body": body,
               "generator": gen, "asynchronous": asynchronous, "is_static": is_static})
    }

    // ----- functions

    /// Parameters and body in the context of the function. `unique`: duplicates are errors.
    fn function_rest(&mut self, params: Params, _unique: bool) -> (Value, Value) {
        let strict_body = self.src.chance(1, 12);
        let simple = strict_body || self.src.chance(1, 3);
        if strict_body {
            self.c.maybe_sloppy |= !self.c.strict;
            self.c.strict = true;
            self.note("use-strict-function");
        }
        self.c.in_ = true;
        let parameters = self.formal_parameters(params, simple);
        let body = self.function_body(strict_body);
        (parameters, body)
    }

    fn formal_parameters(&mut self, kind: Params, simple: bool) -> Value {
        let s = self.pos();
        // No yield or await expressions in parameters.
        let saved = self.c;
        if self.c.yield_ {
            self.c.yield_id = false;
            self.c.maybe_yield = true;
        }
        if self.c.await_ {
            self.c.await_id = false;
            self.c.maybe_await = true;
        }
        self.c.yield_ = false;
        self.c.await_ = false;
        self.p("(");
        let n = match kind {
            Params::None => 0,
            Params::One => 1,
            Params::Any => self.len(3),
        };
        let mut bindings = vec![];
        let mut rest = Value::Null;
        for i in 0..n {
            bindings.push(self.binding_element(simple));
            if i + 1 < n {
                self.p(",");
            }
        }
        if kind == Params::Any && !simple && self.src.chance(1, 6) {
            if n > 0 {
                self.p(",");
            }
            self.p("...");
            rest = self.binding_pattern(false);
            self.note("rest-parameter");
        } else if n > 0 && self.src.chance(1, 10) {
            self.p(",");
            self.note("trailing-comma-parameters");
        }
        self.p(")");
        self.c = saved;
        json!({"span": self.sp(s), "bindings": bindings, "rest": rest})
    }

    /// Body of a function with the braces.
    fn function_body(&mut self, strict: bool) -> Value {
        let s = self.pos();
        self.p("{");
        let labels = std::mem::take(&mut self.labels);
        let (directives, statements) = self.with(
            |c| {
                c.ret = true;
                c.in_loop = false;
                c.in_switch = false;
                c.in_ = true;
                c.maybe_sloppy &= !strict;
            },
            |g| {
                let d = g.directives(strict);
                let n = if g.small() { 0 } else { g.len(3) };
                let st: Vec<Value> = (0..n).map(|_| g.statement(true)).collect();
                (d, st)
            },
        );
        self.labels = labels;
        self.p("}");
        json!({"span": self.sp(s), "directives": directives, "statements": statements})
    }

    fn directives(&mut self, strict: bool) -> Vec<Value> {
        let mut out = vec![];
        let one = |g: &mut Self, t: &str| {
            let delim = if g.src.chance(1, 2) { '\'' } else { '"' };
            g.tok(&format!("{delim}{t}{delim}"), K::Str);
            g.semi();
            json!({"value": t, "delimiter": delim.to_string()})
        };
        let others = ["a b", "use asm", "", "use strict ", " use strict", "USE STRICT", "x", "use strict;"];
        let many = self.src.chance(1, 12);
        let some = |g: &mut Self, out: &mut Vec<Value>| {
            for _ in 0..1 + g.len(3) {
                // The same one again, half of the time.
                let v = match out.last().and_then(|l: &Value| l["value"].as_str()) {
                    Some(last) if others.contains(&last) && g.src.chance(1, 3) => last.to_owned(),
                    _ => g.src.pick(&others).to_string(),
                };
                let token = if g.src.chance(1, 8) { Some(g.string_token()) } else { None };
                if let Some((text, value, delim)) = token.filter(|t| t.1.as_deref() != Some("use strict")) {
                    g.tok(&text, K::Str);
                    g.semi();
                    out.push(json!({"value": value.map(Value::String).unwrap_or_else(any_mark), "delimiter": delim.to_string()}));
                } else {
                    out.push(one(g, &v));
                }
                g.note("directive");
            }
        };
        if many && self.src.chance(2, 3) {
            some(self, &mut out);
        }
        if strict {
            out.push(one(self, "use strict"));
            if self.src.chance(1, 6) {
                some(self, &mut out);
            }
            if self.src.chance(1, 12) {
                out.push(one(self, "use strict"));
            }
        } else if many {
            some(self, &mut out);
        }
        // The statement that follows must not look like a directive.
        self.restrict(R_STRING);
        out
    }

    fn fn_context(c: &mut Ctx, asynchronous: bool, generator: bool, module: bool) {
        c.yield_ = generator;
        c.await_ = asynchronous;
        c.yield_id = !generator;
        c.await_id = !asynchronous && !module;
        c.maybe_yield = false;
        c.maybe_await = false;
        c.k3 = generator;
        c.super_prop = false;
        c.super_call = false;
        c.maybe_super_call = false;
        c.new_target = true;
    }

    /// Function declaration or expression from the `function` keyword on, with `name`:
    /// 0 none, 1 generated for an expression.
    fn function_expr(&mut self) -> Value {
        let s = self.pos();
        let (asynchronous, generator) = match self.src.below(4) {
            0 => (false, false),
            1 => (true, false),
            2 => (false, true),
            _ => (true, true),
        };
        if asynchronous {
            self.kw("async");
            self.note("async-function");
        }
        self.kw("function");
        if asynchronous {
            self.no_lt();
        }
        if generator {
            self.p("*");
            self.note("generator-function");
        }
        self.note("function-expression");
        let named = self.src.chance(1, 2);
        let module = self.module;
        let (identifier, (parameters, body)) = self.with(
            |c| Self::fn_context(c, asynchronous, generator, module),
            |g| {
                let strict_body = g.src.chance(1, 12);
                g.c.maybe_sloppy |= strict_body && !g.c.strict;
                let strict = g.c.strict || strict_body;
                g.c.strict = strict;
                let id = if named { g.binding_ident() } else { Value::Null };
                (id, g.function_rest_with(strict_body))
            },
        );
        json!({"Function": {"span": self.sp(s), "asynchronous": asynchronous, "generator": generator,
               "identifier": identifier, "parameters": parameters, "body": body}})
    }

    fn function_rest_with(&mut self, strict_body: bool) -> (Value, Value) {
        if strict_body {
            self.note("use-strict-function");
        }
        let simple = strict_body || self.src.chance(1, 3);
        self.c.in_ = true;
        let parameters = self.formal_parameters(Params::Any, simple);
        let body = self.function_body(strict_body);
        (parameters, body)
    }

    /// `name`: false for an anonymous default export.
    fn function_decl(&mut self, named: bool) -> Value {
        let s = self.pos();
        let (asynchronous, generator) = match self.src.below(4) {
            0 => (false, false),
            1 => (true, false),
            2 => (false, true),
            _ => (true, true),
        };
        if asynchronous {
            self.kw("async");
            self.note("async-function");
        }
        self.kw("function");
        if asynchronous {
            self.no_lt();
        }
        if generator {
            self.p("*");
            self.note("generator-function");
        }
        self.note("function-declaration");
        let strict_body = self.src.chance(1, 12);
        // The name is in the scope of the surrounding function but is checked as strict.
        let identifier = if named {
            self.with(
                |c| {
                    c.maybe_sloppy |= strict_body && !c.strict;
                    c.strict |= strict_body;
                    c.maybe_yield |= generator && c.yield_id;
                    c.maybe_await |= asynchronous && c.await_id;
                    c.yield_id &= !generator;
                    c.await_id &= !asynchronous;
                },
                |g| g.binding_ident(),
            )
        } else {
            json!({"span": point_mark(self.pos()), "name": ""})
        };
        let module = self.module;
        let (parameters, body) = self.with(
            |c| {
                Self::fn_context(c, asynchronous, generator, module);
                c.maybe_sloppy |= strict_body && !c.strict;
                c.strict |= strict_body;
            },
            |g| g.function_rest_with(strict_body),
        );
        json!({"FunctionDecl": {"span": self.sp(s), "asynchronous": asynchronous, "generator": generator,
               "identifier": identifier, "parameters": parameters, "body": body}})
    }

    fn arrow(&mut self) -> Value {
        let s = self.pos();
        let asynchronous = !self.restricted(R_ASYNC) && self.src.chance(1, 3);
        self.note("arrow-function");
        if asynchronous {
            self.kw("async");
            self.note("async-arrow");
        }
        let binding_parameter = self.src.chance(1, 2);
        let block = self.src.chance(1, 3);
        let strict_body = block && self.src.chance(1, 10);
        let in_ = self.c.in_;
        let (parameters, body) = self.with(
            |c| {
                // Neither yield nor await is an expression in an arrow of an outer context, avoid
                // the words in arrows inside of generators and async functions.
                c.maybe_sloppy |= strict_body && !c.strict;
                c.strict |= strict_body;
                c.maybe_yield |= c.yield_;
                c.maybe_await |= c.await_ || asynchronous;
                c.yield_id &= !c.yield_;
                c.yield_ = false;
                c.await_id &= !c.await_ && !asynchronous;
                c.await_ = false;
            },
            |g| {
                let parameters = if binding_parameter {
                    let ps = g.pos();
                    let id = g.binding_ident();
                    if asynchronous {
                        g.toks[ps].no_lt = true;
                    }
                    let span = g.sp(ps);
                    json!({"span": span.clone(), "bindings": [{"span": span, "pattern": {"Ident": id}, "initializer": null}], "rest": null})
                } else {
                    let ps = g.pos();
                    let simple = strict_body || g.src.chance(1, 3);
                    let saved = g.c.in_;
                    g.c.in_ = true;
                    let f = g.formal_parameters(Params::Any, simple);
                    g.c.in_ = saved;
                    if asynchronous {
                        g.toks[ps].no_lt = true;
                    }
                    f
                };
                g.p("=>");
                g.no_lt();
                g.c.await_ = asynchronous;
                let body = if block {
                    let b = g.function_body(strict_body);
                    obj1("Body", b)
                } else {
                    g.restrict(R_BRACE);
                    g.c.in_ = in_;
                    let e = g.assign();
                    obj1("Expr", e)
                };
                (parameters, body)
            },
        );
        json!({"ArrowFunction": {"span": self.sp(s), "asynchronous": asynchronous,
               "binding_parameter": binding_parameter, "parameters": parameters, "body": body}})
    }

    // ----- classes

    fn class_expr(&mut self) -> Value {
        let s = self.pos();
        let (id, sup, body) = self.class_rest(0);
        self.note("class-expression");
        json!({"Class": {"span": self.sp(s), "identifier": id, "super_class": sup, "body": body}})
    }

    /// `mode`: 0 expression, 1 declaration, 2 anonymous default export.
    fn class_rest(&mut self, mode: u8) -> (Value, Value, Value) {
        self.kw("class");
        let saved = self.c;
        self.c.strict = true;
        self.c.maybe_sloppy = false;
        self.c.in_ = true;
        let id = match mode {
            0 => {
                if self.src.chance(1, 2) {
                    self.binding_ident()
                } else {
                    Value::Null
                }
            }
            1 => self.binding_ident(),
            _ => json!({"span": point_mark(self.pos()), "name": ""}),
        };
        let mut sup = Value::Null;
        if self.src.chance(1, 3) {
            self.kw("extends");
            self.note("extends");
            sup = self.lhs(LhsKind::Any);
        }
        let derived = !sup.is_null();
        self.p("{");
        let n = self.len(4);
        let mut body = vec![];
        let mut has_constructor = false;
        for _ in 0..n {
            if self.src.chance(1, 10) {
                self.p(";");
                self.note("class-semicolon");
            }
            if !has_constructor && self.src.chance(1, if derived { 2 } else { 6 }) {
                has_constructor = true;
                self.note("constructor");
                let s = self.pos();
                let i = self.ident("constructor");
                let name = obj1("Ident", i);
                let k3 = self.c.k3;
                if k3 {
                    self.note("constructor in a generator");
                }
                let m = self.finish_method(s, name, "Method", false, false, false, k3, derived);
                body.push(obj1("Method", m));
                continue;
            }
            let is_static = self.src.chance(1, 4);
            if is_static {
                self.kw("static");
                self.note("static");
            }
            let m = self.method(is_static, derived);
            body.push(obj1("Method", m));
        }
        self.p("}");
        self.c = saved;
        (id, sup, Value::Array(body))
    }

    // ----- binding patterns

    fn binding_element(&mut self, simple: bool) -> Value {
        let s = self.pos();
        if simple {
            let id = self.binding_ident();
            return json!({"span": self.sp(s), "pattern": {"Ident": id}, "initializer": null});
        }
        let pattern = self.binding_pattern(true);
        let init = self.initializer(1, 4);
        json!({"span": self.sp(s), "pattern": pattern, "initializer": init})
    }

    fn initializer(&mut self, num: usize, den: usize) -> Value {
        if !self.small() && self.src.chance(num, den) {
            self.p("=");
            self.note("default-value");
            return self.with(|c| c.in_ = true, |g| g.assign());
        }
        Value::Null
    }

    fn binding_pattern(&mut self, _nested: bool) -> Value {
        let wp = self.w(1, &[Focus::Patterns]);
        if self.small() {
            let i = self.binding_ident();
            return obj1("Ident", i);
        }
        match self.src.weighted(&[6, wp, wp]) {
            0 => {
                let i = self.binding_ident();
                obj1("Ident", i)
            }
            1 => {
                let v = self.array_binding();
                obj1("Array", v)
            }
            _ => {
                let v = self.object_binding();
                obj1("Object", v)
            }
        }
    }

    fn array_binding(&mut self) -> Value {
        self.depth += 1;
        let s = self.pos();
        self.p("[");
        self.note("array-binding");
        let n = self.len(3);
        let mut elements = vec![];
        let mut need_comma = false;
        for i in 0..n {
            if self.src.chance(1, 6) {
                elements.push(Value::Null);
                self.note("binding-elision");
                self.p(",");
                need_comma = false;
            } else {
                elements.push(self.binding_element(false));
                need_comma = true;
                if i + 1 < n || self.src.chance(1, 6) {
                    self.p(",");
                    need_comma = false;
                }
            }
        }
        let mut rest = Value::Null;
        if self.src.chance(1, 5) {
            if need_comma {
                self.p(",");
            }
            self.p("...");
            rest = self.binding_pattern(true);
            self.note("array-binding-rest");
        }
        self.p("]");
        self.depth -= 1;
        json!({"span": self.sp(s), "elements": elements, "rest": rest})
    }

    fn object_binding(&mut self) -> Value {
        self.depth += 1;
        let s = self.pos();
        self.p("{");
        self.note("object-binding");
        let n = self.len(3);
        let mut props = vec![];
        let mut need_comma = false;
        for i in 0..n {
            let ps = self.pos();
            if self.src.chance(1, 2) {
                let property = self.property_name();
                self.p(":");
                let binding = self.binding_element(false);
                props.push(json!({"Named": {"span": self.sp(ps), "property": property, "binding": binding}}));
            } else {
                let ident = self.binding_ident();
                let init = self.initializer(1, 3);
                props.push(json!({"Single": {"span": self.sp(ps), "ident": ident, "initializer": init}}));
            }
            need_comma = true;
            if i + 1 < n || self.src.chance(1, 6) {
                self.p(",");
                need_comma = false;
            }
        }
        let mut rest = Value::Null;
        if self.src.chance(1, 5) {
            if need_comma {
                self.p(",");
            }
            self.p("...");
            let i = self.binding_ident();
            rest = obj1("Ident", i);
            self.note("object-binding-rest");
        }
        self.p("}");
        self.depth -= 1;
        json!({"span": self.sp(s), "props": props, "rest": rest})
    }

    // ----- assignment patterns

    fn assignment_pattern(&mut self) -> Value {
        self.depth += 1;
        let array = if self.restricted(R_BRACE) {
            true
        } else if self.restricted(R_ARRAY) {
            false
        } else {
            self.src.chance(1, 2)
        };
        let v = if array {
            let v = self.array_assignment();
            obj1("Array", v)
        } else {
            let v = self.object_assignment();
            obj1("Object", v)
        };
        self.depth -= 1;
        v
    }

    /// Target of an element of a pattern.
    fn element_target(&mut self) -> Value {
        if !self.small() && self.src.chance(1, 4) {
            let p = self.assignment_pattern();
            obj1("AssignmentPattern", p)
        } else {
            // K9: a member of an array or object literal is rejected here.
            self.restrict(R_ARRAY | R_BRACE);
            let t = self.with(|c| c.in_ = true, |g| g.simple_target());
            obj1("Expr", t)
        }
    }

    /// The elements do not contain the holes: how these are counted is a known finding (K7).
    fn array_assignment(&mut self) -> Value {
        let s = self.pos();
        self.p("[");
        self.note("array-assignment-pattern");
        let n = self.len(3);
        let mut elements = vec![];
        let mut need_comma = false;
        for i in 0..n {
            if self.src.chance(1, 6) {
                self.p(",");
                need_comma = false;
            } else {
                let es = self.pos();
                let target = self.element_target();
                let init = self.initializer(1, 4);
                elements.push(json!({"span": self.sp(es), "target": target, "initializer": init}));
                need_comma = true;
                if i + 1 < n || self.src.chance(1, 6) {
                    self.p(",");
                    need_comma = false;
                }
            }
        }
        let mut rest = Value::Null;
        if self.src.chance(1, 5) {
            if need_comma {
                self.p(",");
            }
            self.p("...");
            rest = self.element_target();
            self.note("array-assignment-rest");
        }
        self.p("]");
        json!({"span": self.sp(s), "elements": elements, "rest": rest})
    }

    fn object_assignment(&mut self) -> Value {
        let s = self.pos();
        self.p("{");
        self.note("object-assignment-pattern");
        let n = self.len(3);
        let mut props = vec![];
        let mut need_comma = false;
        for i in 0..n {
            let ps = self.pos();
            if self.src.chance(1, 2) {
                let name = self.property_name();
                self.p(":");
                let value = self.element_target();
                let init = self.initializer(1, 4);
                props.push(json!({"Named": {"span": self.sp(ps), "name": name, "value": value, "initializer": init}}));
            } else {
                let n = loop {
                    let n = self.ref_name();
                    if n != "arguments" {
                        break n;
                    }
                };
                let ident = self.ident_as(&n, Role::Shorthand);
                let init = self.initializer(1, 3);
                props.push(json!({"Single": {"span": self.sp(ps), "ident": ident, "initializer": init}}));
            }
            need_comma = true;
            if i + 1 < n || self.src.chance(1, 6) {
                self.p(",");
                need_comma = false;
            }
        }
        let mut rest = Value::Null;
        if self.src.chance(1, 5) {
            if need_comma {
                self.p(",");
            }
            self.p("...");
            self.restrict(R_ARRAY | R_BRACE);
            let t = self.with(|c| c.in_ = true, |g| g.simple_target());
            rest = obj1("Expr", t);
            self.note("object-assignment-rest");
        }
        self.p("}");
        json!({"span": self.sp(s), "props": props, "rest": rest})
    }

    // ----- statements

    fn expr_statement(&mut self) -> Value {
        let s = self.pos();
        let string_too = if self.restricted(R_STRING) { R_STRING } else { 0 };
        if string_too != 0 && self.src.chance(1, 10) {
            return self.string_led_statement();
        }
        self.restrict(R_BRACE | R_FUNC | R_LET | string_too);
        let e = self.expression();
        self.semi();
        json!({"Expr": {"span": self.sp(s), "expr": e}})
    }

    /// A statement that starts like a directive and is none.
    fn string_led_statement(&mut self) -> Value {
        let s = self.pos();
        self.note("string-led-statement");
        let string = self.literal_node(|g| {
            if g.src.chance(1, 2) {
                let n = g.string();
                return obj1("String", n);
            }
            let delim = if g.src.chance(1, 2) { '\'' } else { '"' };
            g.tok(&format!("{delim}use strict{delim}"), K::Str);
            obj1("String", json!({"value": "use strict", "delimiter": delim.to_string()}))
        });
        let e = match self.src.below(4) {
            0 => {
                let prop = self.member_property();
                json!({"Member": {"span": self.sp(s), "object": {"Expr": string}, "property": prop}})
            }
            1 => {
                let op = self.src.pick(&["+", "==", "-", "%"]);
                let op = BINARY.iter().find(|o| o.text == op).unwrap();
                self.op(op.text);
                let right = self.binary(op.prec + 1);
                json!({"Binary": {"span": self.sp(s), "operator": op.name, "left": string, "right": right}})
            }
            2 => {
                self.p(",");
                let right = self.assign();
                json!({"Sequence": {"span": self.sp(s), "expr": [string, right]}})
            }
            _ => {
                self.p("?");
                let a = self.with(|c| c.in_ = true, |g| g.assign());
                self.p(":");
                let b = self.assign();
                json!({"Conditional": {"span": self.sp(s), "condition": string, "consequent": a, "alternate": b}})
            }
        };
        self.semi();
        json!({"Expr": {"span": self.sp(s), "expr": e}})
    }

    /// `decl`: declarations are allowed.
    pub fn statement(&mut self, decl: bool) -> Value {
        if decl {
            let s = Spot { tok: self.pos(), c: self.c, top: self.depth == 0 && !self.c.ret };
            self.spots.push(s);
        }
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        let r = self.statement_inner(decl);
        self.depth -= 1;
        r
    }

    fn statement_inner(&mut self, decl: bool) -> Value {
        let s = self.pos();
        if !self.spend(1) {
            return self.expr_statement();
        }
        if !self.tower && self.src.chance(1, 1000) {
            return self.statement_tower();
        }
        let st = [Focus::Stmts];
        let d = decl as u32;
        let weights = [
            12,                                                    // 0 expression
            self.w(3, &[Focus::Stmts, Focus::Patterns]),           // 1 var
            d * self.w(3, &[Focus::Stmts, Focus::Patterns]),       // 2 let/const
            self.w(1, &st),                                        // 3 empty
            self.w(1, &st),                                        // 4 block
            self.w(1, &st),                                        // 5 if
            self.w(1, &st),                                        // 6 for
            self.w(1, &st),                                        // 7 for in
            self.w(1, &st),                                        // 8 for of
            self.w(1, &st),                                        // 9 while
            self.w(1, &st),                                        // 10 do while
            self.w(1, &st),                                        // 11 switch
            self.w(1, &st),                                        // 12 throw
            self.w(1, &st),                                        // 13 try
            self.w(1, &st),                                        // 14 labelled
            self.w(1, &st),                                        // 15 debugger
            if self.c.strict { 0 } else { self.w(1, &st) },        // 16 with
            if self.c.ret { self.w(3, &st) } else { 0 },           // 17 return
            if self.c.in_loop || self.c.in_switch { self.w(2, &st) } else { 0 }, // 18 break
            if self.c.in_loop { self.w(2, &st) } else { 0 },       // 19 continue
            d * self.w(2, &[Focus::Functions]),                    // 20 function
            d * self.w(1, &[Focus::Classes]),                      // 21 class
            if self.labels.is_empty() { 0 } else { self.w(2, &st) }, // 22 break label
        ];
        match self.src.weighted(&weights) {
            0 => self.expr_statement(),
            1 => self.variable("var"),
            2 => {
                if self.src.chance(1, 2) {
                    self.variable("const")
                } else {
                    self.variable("let")
                }
            }
            3 => {
                self.p(";");
                self.note("empty-statement");
                json!({"Empty": {"span": self.sp(s)}})
            }
            4 => {
                let b = self.block(3);
                obj1("Block", b)
            }
            5 => {
                self.note("if");
                self.kw("if");
                let test = self.paren_expr();
                let has_else = self.src.chance(1, 2);
                let cons = if has_else { self.closed_statement() } else { self.statement(false) };
                let mut alt = Value::Null;
                if has_else {
                    self.kw("else");
                    self.note("else");
                    alt = self.statement(false);
                }
                json!({"If": {"span": self.sp(s), "condition": test, "consequent": cons, "alternate": alt}})
            }
            6 => self.for_statement(),
            7 => self.for_in_of(false),
            8 => self.for_in_of(true),
            9 => {
                self.while_statement()
            }
            10 => {
                self.do_while()
            }
            11 => {
                self.note("switch");
                self.kw("switch");
                let disc = self.paren_expr();
                self.p("{");
                let n = self.len(4);
                let default = if self.src.chance(1, 2) { self.src.below(n + 1) } else { n };
                let mut cases = vec![];
                let saved = self.c;
                self.c.in_switch = true;
                for i in 0..n {
                    let cs = self.pos();
                    let test = if i == default {
                        self.kw("default");
                        self.note("default");
                        Value::Null
                    } else {
                        self.kw("case");
                        self.expression()
                    };
                    self.p(":");
                    let k = self.len(2);
                    let body: Vec<Value> = (0..k).map(|_| self.statement(true)).collect();
                    cases.push(json!({"span": self.sp(cs), "test": test, "consequent": body}));
                }
                self.c = saved;
                self.p("}");
                json!({"Switch": {"span": self.sp(s), "discriminant": disc, "cases": cases}})
            }
            12 => {
                self.note("throw");
                self.kw("throw");
                let at = self.pos();
                let e = self.expression();
                self.toks[at].no_lt = true;
                self.semi();
                json!({"Throw": {"span": self.sp(s), "argument": e}})
            }
            13 => {
                self.note("try");
                self.kw("try");
                let block = self.block(2);
                let form = self.src.below(3);
                let mut handler = Value::Null;
                let mut finalizer = Value::Null;
                if form != 1 {
                    let cs = self.pos();
                    self.kw("catch");
                    let mut param = Value::Null;
                    if self.src.chance(2, 3) {
                        self.p("(");
                        param = self.binding_pattern(false);
                        self.p(")");
                        self.note("catch-parameter");
                    }
                    let body = self.block(2);
                    handler = json!({"span": self.sp(cs), "parameter": param, "body": body});
                }
                if form != 0 {
                    self.kw("finally");
                    self.note("finally");
                    finalizer = self.block(2);
                }
                json!({"Try": {"span": self.sp(s), "block": block, "handler": handler, "finalizer": finalizer}})
            }
            14 => {
                self.note("label");
                let (name, label) = self.label();
                self.p(":");
                let is_loop = self.src.chance(1, 2);
                self.labels.push((name, is_loop));
                let body = if is_loop {
                    self.depth += 1;
                    let b = match self.src.below(5) {
                        0 => self.while_statement(),
                        1 => self.do_while(),
                        2 => self.for_statement(),
                        3 => self.for_in_of(false),
                        _ => self.for_in_of(true),
                    };
                    self.depth -= 1;
                    b
                } else {
                    self.statement(false)
                };
                self.labels.pop();
                json!({"Labeled": {"span": self.sp(s), "label": label, "body": body}})
            }
            15 => {
                self.kw("debugger");
                self.ends();
                self.semi();
                self.note("debugger");
                json!({"Debugger": {"span": self.sp(s)}})
            }
            16 => {
                self.note("with");
                self.kw("with");
                let object = self.paren_expr();
                let body = self.statement(false);
                json!({"With": {"span": self.sp(s), "object": object, "body": body}})
            }
            17 => {
                self.note("return");
                self.kw("return");
                let mut arg = Value::Null;
                if self.src.chance(2, 3) {
                    let at = self.pos();
                    arg = self.expression();
                    self.toks[at].no_lt = true;
                } else {
                    self.ends();
                }
                self.semi();
                json!({"Return": {"span": self.sp(s), "argument": arg}})
            }
            18 => {
                self.note("break");
                self.kw("break");
                self.ends();
                self.semi();
                json!({"Break": {"span": self.sp(s), "label": null}})
            }
            19 => {
                self.note("continue");
                self.kw("continue");
                self.ends();
                self.semi();
                json!({"Continue": {"span": self.sp(s), "label": null}})
            }
            20 => self.function_decl(true),
            21 => {
                self.note("class-declaration");
                let (id, sup, body) = self.class_rest(1);
                json!({"ClassDecl": {"span": self.sp(s), "identifier": id, "super_class": sup, "body": body}})
            }
            _ => {
                let i = self.src.below(self.labels.len());
                let (name, is_loop) = self.labels[i].clone();
                let cont = is_loop && self.c.in_loop && self.src.chance(1, 2);
                self.note(if cont { "continue-label" } else { "break-label" });
                self.kw(if cont { "continue" } else { "break" });
                let label = self.ident_as(&name, Role::Label);
                self.no_lt();
                self.ends();
                self.semi();
                obj1(if cont { "Continue" } else { "Break" }, json!({"span": self.sp(s), "label": label}))
            }
        }
    }

    fn while_statement(&mut self) -> Value {
        let s = self.pos();
        self.note("while");
        self.kw("while");
        let test = self.paren_expr();
        let body = self.loop_body();
        json!({"While": {"span": self.sp(s), "test": test, "body": body}})
    }

    fn do_while(&mut self) -> Value {
        let s = self.pos();
        self.note("do-while");
        self.kw("do");
        let body = self.loop_body();
        self.kw("while");
        let test = self.paren_expr();
        self.p(";");
        self.toks.last_mut().unwrap().asi = Asi::DoWhile;
        json!({"DoWhile": {"span": self.sp(s), "body": body, "test": test}})
    }

    fn label(&mut self) -> (String, Value) {
        let mut name = self.name_choice();
        if name == "async" || name == "let" {
            name = "a".into();
        }
        while self.labels.iter().any(|l| l.0 == name) {
            self.unique += 1;
            name = format!("l{}", self.unique);
        }
        let v = self.ident_as(&name, Role::Label);
        (name, v)
    }

    fn paren_expr(&mut self) -> Value {
        self.p("(");
        let e = self.with(|c| c.in_ = true, |g| g.expression());
        self.p(")");
        e
    }

    fn block(&mut self, max: usize) -> Value {
        let s = self.pos();
        self.p("{");
        self.note("block");
        let n = if self.small() { 0 } else { self.len(max) };
        let statements: Vec<Value> = (0..n).map(|_| self.statement(true)).collect();
        self.p("}");
        json!({"span": self.sp(s), "statements": statements})
    }

    /// A statement which cannot swallow an `else` that follows.
    fn closed_statement(&mut self) -> Value {
        let s = self.pos();
        match self.src.below(6) {
            0 => {
                let b = self.block(2);
                obj1("Block", b)
            }
            1 | 2 => self.expr_statement(),
            3 => {
                self.p(";");
                json!({"Empty": {"span": self.sp(s)}})
            }
            4 => {
                self.note("nested-if-else");
                self.kw("if");
                let test = self.paren_expr();
                let cons = self.closed_statement();
                self.kw("else");
                let alt = self.closed_statement();
                json!({"If": {"span": self.sp(s), "condition": test, "consequent": cons, "alternate": alt}})
            }
            _ => {
                self.kw("while");
                let test = self.paren_expr();
                let saved = self.c;
                self.c.in_loop = true;
                let body = self.closed_statement();
                self.c = saved;
                json!({"While": {"span": self.sp(s), "test": test, "body": body}})
            }
        }
    }

    fn loop_body(&mut self) -> Value {
        self.with(|c| c.in_loop = true, |g| g.statement(false))
    }

    fn declarator(&mut self, kind: &str, in_: bool) -> Value {
        let s = self.pos();
        let saved = std::mem::replace(&mut self.lexical, kind != "var");
        let pattern = self.binding_pattern(false);
        self.lexical = saved;
        let needs = pattern.get("Ident").is_none() || kind == "const";
        let mut init = Value::Null;
        if needs || self.src.chance(1, 2) {
            self.p("=");
            init = self.with(|c| c.in_ = in_, |g| g.assign());
        }
        json!({"span": self.sp(s), "pattern": pattern, "initializer": init})
    }

    fn kind_name(kind: &str) -> &'static str {
        match kind {
            "var" => "Var",
            "let" => "Let",
            _ => "Const",
        }
    }

    fn declarators(&mut self, kind: &str, in_: bool) -> Vec<Value> {
        self.kw(kind);
        let n = 1 + self.len(2);
        let mut out = vec![];
        for i in 0..n {
            out.push(self.declarator(kind, in_));
            if i + 1 < n {
                self.p(",");
            }
        }
        out
    }

    fn variable(&mut self, kind: &str) -> Value {
        let s = self.pos();
        self.note(match kind {
            "var" => "var",
            "let" => "let",
            _ => "const",
        });
        let declarations = self.declarators(kind, true);
        self.semi();
        json!({"Variable": {"span": self.sp(s), "kind": Self::kind_name(kind), "declarations": declarations}})
    }

    fn for_statement(&mut self) -> Value {
        let s = self.pos();
        self.note("for");
        self.kw("for");
        self.p("(");
        let init = match self.src.below(4) {
            0 => Value::Null,
            1 => {
                let e = {
                    self.restrict(R_LET | R_ARRAY | R_BRACE);
                    self.with(|c| c.in_ = false, |g| g.expression())
                };
                obj1("Expr", e)
            }
            k => {
                let vs = self.pos();
                let kind = if k == 2 { "var" } else { self.src.pick(&["let", "const"]) };
                let d = self.declarators(kind, false);
                json!({"Declaration": {"span": self.sp(vs), "kind": Self::kind_name(kind), "declarations": d}})
            }
        };
        self.p(";");
        let mut test = Value::Null;
        if self.src.chance(1, 2) {
            test = self.with(|c| c.in_ = true, |g| g.expression());
        }
        self.p(";");
        let mut update = Value::Null;
        if self.src.chance(1, 2) {
            update = self.with(|c| c.in_ = true, |g| g.expression());
        }
        self.p(")");
        let body = self.loop_body();
        json!({"For": {"span": self.sp(s), "init": init, "test": test, "update": update, "body": body}})
    }

    fn for_in_of(&mut self, of: bool) -> Value {
        let s = self.pos();
        self.kw("for");
        let mut asynchronous = false;
        if of && self.c.await_ && self.src.chance(1, 2) {
            self.kw("await");
            asynchronous = true;
            self.note("for-await");
        }
        self.note(if of { "for-of" } else { "for-in" });
        self.p("(");
        let left = match self.src.below(4) {
            0 => {
                let ls = self.pos();
                let kind = self.src.pick(&["var", "let", "const"]);
                self.kw(kind);
                let saved = std::mem::replace(&mut self.lexical, kind != "var");
                let b = self.binding_pattern(false);
                self.lexical = saved;
                json!({"Declaration": {"span": self.sp(ls), "kind": Self::kind_name(kind), "binding": b}})
            }
            1 => {
                let p = self.assignment_pattern();
                self.note("for-pattern");
                obj1("AssignmentPattern", p)
            }
            _ => {
                self.restrict(R_LET | R_ASYNC | R_ARRAY | R_BRACE);
                let t = self.simple_target();
                obj1("Expr", t)
            }
        };
        self.kw(if of { "of" } else { "in" });
        let right = self.with(|c| c.in_ = true, |g| if of { g.assign() } else { g.expression() });
        self.p(")");
        let body = self.loop_body();
        if of {
            json!({"ForOf": {"span": self.sp(s), "left": left, "right": right, "body": body, "asynchronous": asynchronous}})
        } else {
            json!({"ForIn": {"span": self.sp(s), "left": left, "right": right, "body": body}})
        }
    }

    // ----- modules

    fn export_name(&mut self) -> Option<String> {
        for _ in 0..3 {
            let n = match self.src.below(6) {
                0 => self.src.pick(KEYWORDS).to_owned(),
                1 => self.src.pick(CONTEXTUAL).to_owned(),
                2 => self.src.pick(&["let", "static", "yield", "await", "default", "implements", "eval", "arguments", "undefined"]).to_owned(),
                _ => self.name_choice(),
            };
            if self.exported.insert(n.clone()) {
                return Some(n);
            }
        }
        loop {
            self.unique += 1;
            let n = format!("e{}", self.unique);
            if self.exported.insert(n.clone()) {
                return Some(n);
            }
        }
    }

    fn module_specifier(&mut self) -> Value {
        let s = self.string();
        self.ends();
        s
    }

    fn import_decl(&mut self) -> Value {
        let s = self.pos();
        self.kw("import");
        self.note("import");
        let mut default = Value::Null;
        let mut ns = Value::Null;
        let mut named = Value::Null;
        let form = self.src.below(6);
        if matches!(form, 1 | 4 | 5) {
            default = self.import_binding();
            self.note("import-default");
        }
        if form >= 4 {
            self.p(",");
        }
        if matches!(form, 2 | 4) {
            self.p("*");
            self.kw("as");
            ns = self.import_binding();
            self.note("import-namespace");
        }
        if matches!(form, 3 | 5) {
            self.note("import-named");
            self.p("{");
            let n = self.len(3);
            let mut v = vec![];
            for i in 0..n {
                let ns_ = self.pos();
                let mut alias = Value::Null;
                let name = if self.src.chance(1, 2) {
                    let name = self.foreign_name();
                    self.kw("as");
                    self.note("import-alias");
                    alias = self.import_binding();
                    name
                } else {
                    self.import_binding()
                };
                v.push(json!({"span": self.sp(ns_), "name": name, "alias": alias}));
                if i + 1 < n || self.src.chance(1, 6) {
                    self.p(",");
                }
            }
            self.p("}");
            named = Value::Array(v);
        }
        if form != 0 {
            self.kw("from");
        }
        let from = self.module_specifier();
        self.semi();
        json!({"ImportDecl": {"span": self.sp(s), "default_binding": default, "namespace_binding": ns, "named_imports": named, "from": from}})
    }

    fn export_decl(&mut self) -> Value {
        let s = self.pos();
        self.note("export");
        let mut form = self.src.below(7);
        if matches!(form, 3 | 4) && !self.exported.insert("default".into()) {
            form = 0;
        }
        self.kw("export");
        let v = match form {
            0 | 1 => {
                // Local names have to exist, so local exports follow a declaration.
                let from_other = self.src.chance(1, 2);
                self.p("{");
                self.note("export-named");
                let mut v = vec![];
                if from_other {
                    let n = self.len(3);
                    for i in 0..n {
                        let es = self.pos();
                        let mut alias_of = Value::Null;
                        let name;
                        if self.src.chance(1, 2) {
                            alias_of = self.foreign_name();
                            self.kw("as");
                            let n = self.export_name().unwrap();
                            name = self.ident(&n);
                        } else {
                            let n = self.export_name().unwrap();
                            name = self.ident(&n);
                        }
                        v.push(json!({"span": self.sp(es), "name": name, "alias_of": alias_of}));
                        if i + 1 < n || self.src.chance(1, 6) {
                            self.p(",");
                        }
                    }
                } else {
                    let mut locals: Vec<String> = self.top_declared.iter().cloned().collect();
                    let mut first = true;
                    while !locals.is_empty() && self.src.chance(2, 3) {
                        if !first {
                            self.p(",");
                        }
                        first = false;
                        let i = self.src.below(locals.len());
                        let local = locals.remove(i);
                        let es = self.pos();
                        if self.src.chance(1, 2) || self.exported.contains(&local) {
                            let alias_of = self.ident(&local);
                            self.kw("as");
                            self.note("export-alias");
                            let n = self.export_name().unwrap();
                            let name = self.ident(&n);
                            v.push(json!({"span": self.sp(es), "name": name, "alias_of": alias_of}));
                        } else {
                            self.exported.insert(local.clone());
                            let name = self.ident(&local);
                            v.push(json!({"span": self.sp(es), "name": name, "alias_of": null}));
                        }
                    }
                    if !first && self.src.chance(1, 6) {
                        self.p(",");
                    }
                }
                self.p("}");
                let mut from = Value::Null;
                if from_other {
                    self.kw("from");
                    self.note("export-from");
                    from = self.module_specifier();
                } else {
                    self.toks.last_mut().unwrap().ends = true;
                }
                self.semi();
                json!({"Named": {"span": self.sp(s), "named_exports": v, "from": from}})
            }
            2 => {
                self.note("export-namespace");
                self.p("*");
                let mut alias = Value::Null;
                if self.src.chance(1, 2) {
                    self.kw("as");
                    let n = self.export_name().unwrap();
                    alias = self.ident(&n);
                }
                self.kw("from");
                let from = self.module_specifier();
                self.semi();
                json!({"Namespace": {"span": self.sp(s), "alias": alias, "from": from}})
            }
            3 => {
                self.note("export-default-expression");
                self.kw("default");
                self.restrict(R_FUNC);
                let e = self.assign();
                self.semi();
                json!({"DefaultExpr": {"span": self.sp(s), "expr": e}})
            }
            4 => {
                self.note("export-default-declaration");
                self.kw("default");
                let named = self.src.chance(1, 2);
                let decl = if self.src.chance(1, 2) {
                    let ds = self.pos();
                    let (id, sup, body) = self.class_rest(if named { 1 } else { 2 });
                    json!({"ClassDecl": {"span": self.sp(ds), "identifier": id, "super_class": sup, "body": body}})
                } else {
                    self.function_decl(named)
                };
                json!({"DefaultDecl": {"span": self.sp(s), "decl": decl}})
            }
            _ => {
                self.note("export-declaration");
                self.declared.extend(self.exported.iter().cloned());
                let before: HashSet<String> = self.declared.clone();
                let decl = match self.src.below(3) {
                    0 => {
                        let kind = self.src.pick(&["var", "let", "const"]);
                        self.variable(kind)
                    }
                    1 => self.function_decl(true),
                    _ => {
                        let ds = self.pos();
                        let (id, sup, body) = self.class_rest(1);
                        json!({"ClassDecl": {"span": self.sp(ds), "identifier": id, "super_class": sup, "body": body}})
                    }
                };
                for n in self.declared.difference(&before).cloned().collect::<Vec<_>>() {
                    self.exported.insert(n);
                }
                json!({"Decl": {"span": self.sp(s), "decl": decl}})
            }
        };
        obj1("ExportDecl", v)
    }

    // ----- programs

    pub fn program(&mut self) -> Value {
        let strict = !self.module && self.src.chance(1, 10);
        if strict {
            self.c.strict = true;
        }
        let s = self.pos();
        let directives = self.directives(strict);
        let n = if self.src.chance(1, 12) { 0 } else { 1 + self.len(6) };
        let mut body = vec![];
        for _ in 0..n {
            let wm = if self.module { self.w(2, &[Focus::Modules]) } else { 0 };
            let v = match self.src.weighted(&[8, wm, wm]) {
                0 => self.statement(true),
                1 => self.import_decl(),
                _ => self.export_decl(),
            };
            if self.module {
                self.collect_top(&v);
            }
            body.push(v);
        }
        let span = if self.pos() == s { json!("0:0") } else { self.sp(s) };
        obj1(if self.module { "Module" } else { "Script" }, json!({"span": span, "directives": directives, "body": body}))
    }

    fn collect_top(&mut self, v: &Value) {
        if let Some(d) = v.get("Variable") {
            for decl in d["declarations"].as_array().unwrap() {
                if let Some(n) = decl["pattern"]["Ident"]["name"].as_str() {
                    self.top_declared.push(n.to_owned());
                }
            }
        }
        for k in ["FunctionDecl", "ClassDecl"] {
            if let Some(d) = v.get(k) {
                if let Some(n) = d["identifier"]["name"].as_str() {
                    self.top_declared.push(n.to_owned());
                }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Params {
    None,
    One,
    Any,
}
