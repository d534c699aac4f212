//! A printer of its own for the two formats of generated code: from a serialized tree to pieces,
//! from pieces to lines. Nothing of it is taken from fajt's code generation.

use serde_json::Value;

#[derive(Debug, Clone, PartialEq)]
enum P {
    /// Written as it is, after a space where it would otherwise join what is before it.
    Text(String),
    /// Ends a number or a regular expression.
    Solid(String),
    /// Inside of strings and templates.
    Raw(String),
    /// The dot of a property.
    Dot,
    /// A space of the format.
    S,
    /// A space that is always there.
    Always,
    /// Ends the line unless nothing was written to it.
    End,
    /// Starts a new line.
    Line,
    Open,
    Close,
    In,
    Out,
    /// Around the declarators of a variable statement, and where one of them starts a line.
    Align,
    Aligned,
    Unalign,
    /// The line in front of a function declaration.
    Apart,
    /// Semicolon that ends a statement.
    Semi,
    /// Semicolon that is a statement.
    Empty,
}

#[derive(Default)]
struct Printer {
    out: Vec<P>,
    /// A last semicolon is only left out at the end of a program.
    keep_last: bool,
}

fn kind(v: &Value) -> (&str, &Value) {
    match v {
        Value::String(s) => (s, &Value::Null),
        Value::Object(o) if o.len() == 1 => {
            let (k, v) = o.iter().next().unwrap();
            (k, v)
        }
        _ => panic!("not a variant: {v}"),
    }
}

fn list<'a>(v: &'a Value, field: &str) -> &'a [Value] {
    v[field].as_array().unwrap_or_else(|| panic!("no list {field}: {v}"))
}

fn yes(v: &Value, field: &str) -> bool {
    v[field].as_bool().unwrap_or_else(|| panic!("no flag {field}: {v}"))
}

fn op(name: &str, v: &Value) -> &'static str {
    let table: &[(&str, &str)] = match name {
        "Binary" => &[
            ("Plus", "+"), ("Minus", "-"), ("Multiplication", "*"), ("Division", "/"), ("Modulus", "%"),
            ("Exponent", "**"), ("ShiftLeft", "<<"), ("ShiftRight", ">>"), ("ShiftRightUnsigned", ">>>"),
            ("LessThan", "<"), ("MoreThan", ">"), ("LessThanEquals", "<="), ("MoreThanEquals", ">="),
            ("InstanceOf", "instanceof"), ("In", "in"), ("Equal", "=="), ("NotEqual", "!="),
            ("StrictEqual", "==="), ("StrictNotEqual", "!=="), ("BitwiseAnd", "&"), ("BitwiseXOR", "^"),
            ("BitwiseOR", "|"),
        ],
        "Logical" => &[("And", "&&"), ("Or", "||"), ("Coalesce", "??")],
        "Unary" => &[
            ("Delete", "delete"), ("Void", "void"), ("Typeof", "typeof"), ("Plus", "+"), ("Minus", "-"),
            ("BitwiseNot", "~"), ("Not", "!"),
        ],
        "Update" => &[("Increase", "++"), ("Decrease", "--")],
        _ => &[
            ("Assign", "="), ("Multiply", "*="), ("Power", "**="), ("Divide", "/="), ("Modulus", "%="),
            ("Add", "+="), ("Sub", "-="), ("LeftShift", "<<="), ("RightShift", ">>="),
            ("UnsignedRightShift", ">>>="), ("BitwiseAnd", "&="), ("BitwiseXOr", "^="), ("BitwiseOr", "|="),
        ],
    };
    let v = v.as_str().expect("operator");
    table.iter().find(|e| e.0 == v).unwrap_or_else(|| panic!("operator {v}")).1
}

impl Printer {
    fn t(&mut self, text: &str) {
        self.out.push(P::Text(text.to_owned()));
    }

    fn p(&mut self, p: P) {
        self.out.push(p);
    }

    fn spaced(&mut self, text: &str) {
        self.p(P::S);
        self.t(text);
        self.p(P::S);
    }

    /// Items between a pair of brackets.
    fn items(&mut self, open: &str, close: &str, pad: bool, items: &[Value], rest: &Value, f: fn(&mut Self, &Value)) {
        let pad = pad && (!items.is_empty() || !rest.is_null());
        self.t(open);
        if pad {
            self.p(P::S);
        }
        self.commas(items, f);
        if !rest.is_null() {
            if !items.is_empty() {
                self.t(",");
                self.p(P::S);
            }
            self.t("...");
            // The rest of bindings and of assignments.
            if rest.get("AssignmentPattern").is_some() || rest.get("Expr").is_some() {
                self.target(rest);
            } else {
                self.binding(rest);
            }
        }
        if pad {
            self.p(P::S);
        }
        self.t(close);
    }

    fn commas(&mut self, items: &[Value], f: fn(&mut Self, &Value)) {
        for (i, item) in items.iter().enumerate() {
            if i > 0 {
                self.t(",");
                self.p(P::S);
            }
            f(self, item);
        }
    }

    fn args(&mut self, v: &Value) {
        self.items("(", ")", false, list(v, "arguments"), &Value::Null, |s, a| {
            let (k, v) = kind(a);
            if k == "Spread" {
                s.t("...");
            }
            s.expr(v);
        });
    }

    fn ident(&mut self, v: &Value) {
        let name = v["name"].as_str().expect("name").to_owned();
        self.t(&name);
    }

    fn string(&mut self, v: &Value) {
        let delimiter = v["delimiter"].as_str().expect("delimiter").to_owned();
        let value = v["value"].as_str().expect("value");
        let mut body = String::new();
        let mut rest = value;
        while let Some(c) = rest.chars().next() {
            if rest.starts_with("\r\n") {
                body.push_str("\\\r\n");
                rest = &rest[2..];
                continue;
            }
            if matches!(c, '\n' | '\r' | '\\') || delimiter.starts_with(c) {
                body.push('\\');
            }
            body.push(c);
            rest = &rest[c.len_utf8()..];
        }
        self.t(&delimiter);
        self.p(P::Raw(body));
        self.p(P::Raw(delimiter));
    }

    fn template(&mut self, v: &Value) {
        self.t("`");
        for part in list(v, "parts") {
            let (k, v) = kind(part);
            if k == "String" {
                let text = v.as_str().unwrap();
                let text = text.replace('\\', "\\\\").replace('`', "\\`").replace("${", "\\${");
                self.p(P::Raw(text));
            } else {
                self.p(P::Raw("${".to_owned()));
                self.expr(v);
                self.t("}");
            }
        }
        self.p(P::Raw("`".to_owned()));
    }

    fn init(&mut self, v: &Value) {
        if !v["initializer"].is_null() {
            self.spaced("=");
            self.expr(&v["initializer"]);
        }
    }

    fn property_name(&mut self, v: &Value) {
        let (k, v) = kind(v);
        match k {
            "Ident" => self.ident(v),
            "String" => self.string(v),
            "Number" => self.p(P::Solid(v["raw"].as_str().unwrap().to_owned())),
            _ => {
                self.t("[");
                self.expr(v);
                self.t("]");
            }
        }
    }

    fn binding(&mut self, v: &Value) {
        let (k, v) = kind(v);
        match k {
            "Ident" => self.ident(v),
            "Array" => {
                let items = list(v, "elements");
                let rest = &v["rest"];
                let pad = !items.is_empty() || !rest.is_null();
                self.t("[");
                for (i, e) in items.iter().enumerate() {
                    if pad && i == 0 {
                        self.p(P::S);
                    }
                    if !e.is_null() {
                        self.element(e);
                    }
                    if e.is_null() || i + 1 < items.len() || !rest.is_null() {
                        self.t(",");
                    }
                    self.p(P::S);
                }
                if !rest.is_null() {
                    if items.is_empty() {
                        self.p(P::S);
                    }
                    self.t("...");
                    self.binding(rest);
                    self.p(P::S);
                }
                self.t("]");
            }
            _ => self.items("{", "}", true, list(v, "props"), &v["rest"], |s, p| {
                let (k, v) = kind(p);
                if k == "Single" {
                    s.ident(&v["ident"]);
                    s.init(v);
                } else {
                    s.property_name(&v["property"]);
                    s.t(":");
                    s.p(P::S);
                    s.element(&v["binding"]);
                }
            }),
        }
    }

    fn element(&mut self, v: &Value) {
        self.binding(&v["pattern"]);
        self.init(v);
    }

    fn target(&mut self, v: &Value) {
        let (k, v) = kind(v);
        if k == "Expr" {
            self.expr(v);
        } else {
            self.assignment_pattern(v);
        }
    }

    fn assignment_pattern(&mut self, v: &Value) {
        let (k, v) = kind(v);
        if k == "Array" {
            let items = list(v, "elements");
            let rest = &v["rest"];
            self.t("[");
            if !items.is_empty() || !rest.is_null() {
                self.p(P::S);
            }
            // Every comma is an element without a value.
            for e in items {
                if e.is_null() {
                    if self.out.last() == Some(&P::S) && self.out.len() > 1 && self.out[self.out.len() - 2] != P::Text("[".into())
                        && self.out[self.out.len() - 2] != P::Text(",".into()) {
                        self.out.pop();
                    }
                    self.t(",");
                } else {
                    self.target(&e["target"]);
                    self.init(e);
                }
                self.p(P::S);
            }
            if !rest.is_null() {
                self.t("...");
                self.target(rest);
                self.p(P::S);
            }
            self.t("]");
        } else {
            self.items("{", "}", true, list(v, "props"), &v["rest"], |s, p| {
                let (k, v) = kind(p);
                if k == "Single" {
                    s.ident(&v["ident"]);
                } else {
                    s.property_name(&v["name"]);
                    s.t(":");
                    s.p(P::S);
                    s.target(&v["value"]);
                }
                s.init(v);
            });
        }
    }

    fn params(&mut self, v: &Value) {
        self.items("(", ")", false, list(v, "bindings"), &v["rest"], Self::element);
    }

    fn directives(&mut self, v: &Value) {
        for d in list(v, "directives") {
            self.string(d);
            self.p(P::Semi);
            self.p(P::End);
        }
    }

    fn body(&mut self, v: &Value) {
        self.p(P::Open);
        self.directives(v);
        self.statements(list(v, "statements"));
        self.p(P::Close);
    }

    fn block(&mut self, v: &Value) {
        self.p(P::Open);
        self.statements(list(v, "statements"));
        self.p(P::Close);
    }

    fn function(&mut self, v: &Value) {
        if yes(v, "asynchronous") {
            self.t("async");
            self.p(P::Always);
        }
        self.t("function");
        if yes(v, "generator") {
            self.t("*");
        }
        self.p(P::S);
        if !v["identifier"].is_null() {
            self.ident(&v["identifier"]);
        }
        self.params(&v["parameters"]);
        self.p(P::S);
        self.body(&v["body"]);
    }

    fn class(&mut self, v: &Value) {
        self.t("class");
        if !v["identifier"].is_null() {
            self.ident(&v["identifier"]);
        }
        if !v["super_class"].is_null() {
            self.t("extends");
            self.expr(&v["super_class"]);
        }
        self.p(P::S);
        self.p(P::Open);
        for m in list(v, "body") {
            self.method(kind(m).1);
            self.p(P::End);
        }
        self.p(P::Close);
    }

    fn method(&mut self, v: &Value) {
        let what = v["kind"].as_str().expect("kind");
        for (is, word) in [(yes(v, "is_static"), "static"), (yes(v, "asynchronous"), "async")] {
            if is {
                self.t(word);
                self.p(P::S);
            }
        }
        if what == "Method" && yes(v, "generator") {
            self.t("*");
        }
        match what {
            "Get" => self.t("get"),
            "Set" => self.t("set"),
            _ => {}
        }
        self.property_name(&v["name"]);
        self.params(&v["parameters"]);
        self.p(P::S);
        self.body(&v["body"]);
    }

    fn member(&mut self, v: &Value, optional: bool) {
        let (k, v) = kind(v);
        if k == "Ident" {
            if optional {
                self.t("?.");
            } else {
                self.p(P::Dot);
            }
            self.ident(v);
        } else {
            self.t(if optional { "?.[" } else { "[" });
            self.expr(v);
            self.t("]");
        }
    }

    fn expr(&mut self, v: &Value) {
        let (k, v) = kind(v);
        match k {
            "IdentRef" => self.ident(v),
            "This" => self.t("this"),
            "Literal" => self.literal(&v["literal"]),
            "Binary" | "Logical" => {
                self.expr(&v["left"]);
                self.spaced(op(k, &v["operator"]));
                self.expr(&v["right"]);
            }
            "Assignment" => {
                self.target(&v["left"]);
                self.spaced(op(k, &v["operator"]));
                self.expr(&v["right"]);
            }
            "Unary" => {
                self.t(op(k, &v["operator"]));
                self.expr(&v["argument"]);
            }
            "Update" => {
                let sign = op(k, &v["operator"]);
                let prefix = yes(v, "prefix");
                if prefix {
                    self.t(sign);
                }
                self.expr(&v["argument"]);
                if !prefix {
                    self.t(sign);
                }
            }
            "Conditional" => {
                self.expr(&v["condition"]);
                self.spaced("?");
                self.expr(&v["consequent"]);
                self.spaced(":");
                self.expr(&v["alternate"]);
            }
            "Sequence" => self.commas(list(v, "expr"), Self::expr),
            "Parenthesized" => {
                self.t("(");
                self.expr(&v["expression"]);
                self.t(")");
            }
            "Await" => {
                self.t("await");
                self.p(P::S);
                self.expr(&v["argument"]);
            }
            "Yield" => {
                self.t("yield");
                if yes(v, "delegate") {
                    self.t("*");
                }
                if !v["argument"].is_null() {
                    self.p(P::S);
                    self.expr(&v["argument"]);
                }
            }
            "Call" => {
                match kind(&v["callee"]) {
                    ("Super", _) => self.t("super"),
                    ("Import", _) => self.t("import"),
                    (_, e) => self.expr(e),
                }
                self.args(v);
            }
            "OptionalCall" => {
                self.expr(&v["callee"]);
                if yes(v, "optional") {
                    self.t("?.");
                }
                self.args(v);
            }
            "Member" => {
                match kind(&v["object"]) {
                    ("Super", _) => self.t("super"),
                    (_, e) => self.expr(e),
                }
                self.member(&v["property"], false);
            }
            "OptionalMember" => {
                self.expr(&v["object"]);
                self.member(&v["property"], yes(v, "optional"));
            }
            "MetaProperty" => {
                self.ident(&v["meta"]);
                self.p(P::Dot);
                self.ident(&v["property"]);
            }
            "New" => {
                self.t("new");
                self.p(P::S);
                self.expr(&v["callee"]);
                if !v["arguments_span"].is_null() {
                    self.args(v);
                }
            }
            "TaggedTemplate" => {
                self.expr(&v["callee"]);
                self.template(&v["template"]);
            }
            "Function" => self.function(v),
            "Class" => self.class(v),
            "ArrowFunction" => {
                if yes(v, "asynchronous") {
                    self.t("async");
                    self.p(P::S);
                }
                if yes(v, "binding_parameter") {
                    for b in list(&v["parameters"], "bindings") {
                        self.element(b);
                    }
                } else {
                    self.params(&v["parameters"]);
                }
                self.spaced("=>");
                match kind(&v["body"]) {
                    ("Expr", e) => self.expr(e),
                    (_, b) => self.body(b),
                }
            }
            _ => panic!("expression {k}"),
        }
    }

    fn literal(&mut self, v: &Value) {
        let (k, v) = kind(v);
        match k {
            "Null" => self.t("null"),
            "Boolean" => self.t(if v == &Value::Bool(true) { "true" } else { "false" }),
            "String" => self.string(v),
            "Number" => self.p(P::Solid(v["raw"].as_str().unwrap().to_owned())),
            "Regexp" => self.p(P::Solid(v.as_str().unwrap().to_owned())),
            "Template" => self.template(v),
            "Array" => {
                let items = list(v, "elements");
                let pad = !items.is_empty();
                self.t("[");
                if pad {
                    self.p(P::S);
                }
                self.commas(items, |s, e| {
                    let (k, v) = kind(e);
                    if k == "Spread" {
                        s.t("...");
                    }
                    if k != "Elision" {
                        s.expr(v);
                    }
                });
                if items.last().and_then(Value::as_str) == Some("Elision") {
                    self.t(",");
                }
                if pad {
                    self.p(P::S);
                }
                self.t("]");
            }
            "Object" => self.items("{", "}", true, list(v, "props"), &Value::Null, |s, p| {
                let (k, v) = kind(p);
                match k {
                    "IdentRef" => s.ident(v),
                    "Spread" => {
                        s.t("...");
                        s.expr(v);
                    }
                    "Named" => {
                        s.property_name(&v["name"]);
                        s.t(":");
                        s.p(P::S);
                        s.expr(&v["value"]);
                    }
                    _ => s.method(v),
                }
            }),
            _ => panic!("literal {k}"),
        }
    }

    fn variable(&mut self, v: &Value) {
        self.t(&v["kind"].as_str().expect("kind").to_lowercase());
        self.p(P::S);
        self.p(P::Align);
        let mut before: Option<&Value> = None;
        for d in list(v, "declarations") {
            if let Some(b) = before {
                self.t(",");
                self.p(if b["initializer"].is_null() { P::S } else { P::Aligned });
            }
            self.binding(&d["pattern"]);
            self.init(d);
            before = Some(d);
        }
        self.p(P::Unalign);
    }

    fn parens(&mut self, e: &Value) {
        self.t("(");
        self.expr(e);
        self.t(")");
    }

    fn statements(&mut self, list: &[Value]) {
        for s in list {
            self.statement(s);
        }
    }

    fn nested(&mut self, v: &Value) {
        self.p(P::Line);
        self.p(P::In);
        self.statement(v);
        self.p(P::Out);
    }

    fn statement(&mut self, v: &Value) {
        self.bare_statement(v, true);
        self.p(P::End);
    }

    fn bare_statement(&mut self, v: &Value, apart: bool) {
        let (k, v) = kind(v);
        match k {
            "Empty" => self.p(P::Empty),
            "Expr" => {
                self.expr(&v["expr"]);
                self.p(P::Semi);
            }
            "Block" => self.block(v),
            "Debugger" => {
                self.t("debugger");
                self.p(P::Semi);
            }
            "Break" | "Continue" => {
                self.t(&k.to_lowercase());
                if !v["label"].is_null() {
                    self.p(P::S);
                    self.ident(&v["label"]);
                }
                self.p(P::Semi);
            }
            "Return" | "Throw" => {
                self.t(&k.to_lowercase());
                if !v["argument"].is_null() {
                    self.p(P::S);
                    self.expr(&v["argument"]);
                }
                self.p(P::Semi);
            }
            "Variable" => {
                self.variable(v);
                self.p(P::Semi);
            }
            "If" => {
                self.t("if");
                self.p(P::S);
                self.parens(&v["condition"]);
                self.nested(&v["consequent"]);
                if !v["alternate"].is_null() {
                    self.t("else");
                    self.nested(&v["alternate"]);
                }
            }
            "While" => {
                self.t("while");
                self.p(P::S);
                self.parens(&v["test"]);
                self.p(P::S);
                self.statement(&v["body"]);
            }
            "DoWhile" => {
                self.t("do");
                self.p(P::Always);
                self.statement(&v["body"]);
                self.t("while");
                self.p(P::S);
                self.parens(&v["test"]);
                self.p(P::Semi);
            }
            "With" => {
                self.t("with");
                self.parens(&v["object"]);
                self.p(P::S);
                self.statement(&v["body"]);
            }
            "Labeled" => {
                self.ident(&v["label"]);
                self.t(":");
                self.p(P::S);
                self.statement(&v["body"]);
            }
            "For" => {
                self.t("for");
                self.p(P::S);
                self.t("(");
                if !v["init"].is_null() {
                    match kind(&v["init"]) {
                        ("Expr", e) => self.expr(e),
                        (_, d) => self.variable(d),
                    }
                }
                for part in ["test", "update"] {
                    self.t(";");
                    if !v[part].is_null() {
                        self.p(P::S);
                        self.expr(&v[part]);
                    }
                }
                self.t(")");
                self.p(P::S);
                self.statement(&v["body"]);
            }
            "ForIn" | "ForOf" => {
                self.t("for");
                if k == "ForOf" && yes(v, "asynchronous") {
                    self.t("await");
                }
                self.p(P::S);
                self.t("(");
                match kind(&v["left"]) {
                    ("Expr", e) => self.expr(e),
                    ("AssignmentPattern", p) => self.assignment_pattern(p),
                    (_, d) => {
                        self.t(&d["kind"].as_str().expect("kind").to_lowercase());
                        self.p(P::S);
                        self.binding(&d["binding"]);
                    }
                }
                self.spaced(if k == "ForIn" { "in" } else { "of" });
                self.expr(&v["right"]);
                self.t(")");
                self.p(P::S);
                self.statement(&v["body"]);
            }
            "Switch" => {
                self.t("switch");
                self.p(P::S);
                self.parens(&v["discriminant"]);
                self.p(P::S);
                self.p(P::Open);
                for case in list(v, "cases") {
                    if case["test"].is_null() {
                        self.t("default");
                    } else {
                        self.t("case");
                        self.p(P::Always);
                        self.expr(&case["test"]);
                    }
                    self.t(":");
                    self.p(P::Line);
                    self.p(P::In);
                    self.statements(list(case, "consequent"));
                    self.p(P::Out);
                }
                self.p(P::Close);
            }
            "Try" => {
                self.t("try");
                self.p(P::S);
                self.block(&v["block"]);
                if !v["handler"].is_null() {
                    let h = &v["handler"];
                    self.spaced("catch");
                    if !h["parameter"].is_null() {
                        self.t("(");
                        self.binding(&h["parameter"]);
                        self.t(")");
                        self.p(P::S);
                    }
                    self.block(&h["body"]);
                }
                if !v["finalizer"].is_null() {
                    self.spaced("finally");
                    self.block(&v["finalizer"]);
                }
            }
            "FunctionDecl" => {
                if apart {
                    self.p(P::Apart);
                }
                self.function(v);
            }
            "ClassDecl" => self.class(v),
            "ImportDecl" => self.import(v),
            "ExportDecl" => self.export(v),
            _ => panic!("statement {k}"),
        }
    }

    fn import(&mut self, v: &Value) {
        self.t("import");
        let (default, all, named) = (&v["default_binding"], &v["namespace_binding"], &v["named_imports"]);
        if !default.is_null() {
            self.p(P::S);
            self.ident(default);
            if !all.is_null() || !named.is_null() {
                self.t(",");
            }
        }
        if !all.is_null() {
            self.spaced("*");
            self.t("as");
            self.p(P::S);
            self.ident(all);
        }
        if let Some(named) = named.as_array() {
            self.p(P::S);
            self.items("{", "}", true, named, &Value::Null, |s, n| {
                s.ident(&n["name"]);
                if !n["alias"].is_null() {
                    s.spaced("as");
                    s.ident(&n["alias"]);
                }
            });
        }
        if [default, all, named].iter().any(|v| !v.is_null()) {
            self.p(P::S);
            self.t("from");
        }
        self.p(P::S);
        self.string(&v["from"]);
        self.p(P::Semi);
    }

    fn export(&mut self, v: &Value) {
        let (k, v) = kind(v);
        self.t("export");
        match k {
            "Decl" => {
                self.p(P::S);
                self.bare_statement(&v["decl"], false);
                self.p(P::End);
            }
            "DefaultDecl" => {
                self.t("default");
                self.p(P::S);
                self.bare_statement(&v["decl"], false);
                self.p(P::End);
            }
            "DefaultExpr" => {
                self.t("default");
                self.p(P::S);
                self.expr(&v["expr"]);
                self.p(P::Semi);
            }
            "Named" => {
                self.p(P::S);
                self.items("{", "}", true, list(v, "named_exports"), &Value::Null, |s, n| {
                    if !n["alias_of"].is_null() {
                        s.ident(&n["alias_of"]);
                        s.spaced("as");
                    }
                    s.ident(&n["name"]);
                });
                if !v["from"].is_null() {
                    self.spaced("from");
                    self.string(&v["from"]);
                }
                self.p(P::Semi);
            }
            _ => {
                self.p(P::S);
                self.t("*");
                if !v["alias"].is_null() {
                    self.spaced("as");
                    self.ident(&v["alias"]);
                }
                self.spaced("from");
                self.string(&v["from"]);
                self.p(P::Semi);
            }
        }
    }

    fn render(&self, minified: bool) -> String {
        let mut r = Render { minified, ..Render::default() };
        let mut marks = vec![];
        let pieces = &self.out;
        for (i, p) in pieces.iter().enumerate() {
            match p {
                P::Text(t) => r.write(t, true),
                P::Solid(t) => {
                    r.write(t, true);
                    r.solid = true;
                }
                P::Raw(t) => r.write(t, false),
                P::Dot => {
                    if r.solid {
                        r.write(" ", false);
                    }
                    r.write(".", false);
                }
                P::S => {
                    if !minified {
                        r.write(" ", false);
                    }
                }
                P::Always => r.write(" ", false),
                P::Semi | P::Empty => {
                    // Minified code has none where it says nothing.
                    let next = pieces[i + 1..].iter().find(|p| !matches!(p, P::End | P::Out | P::Unalign));
                    if !(minified && p == &P::Semi && (next == Some(&P::Close) || next.is_none() && !self.keep_last)) {
                        r.write(";", false);
                    }
                }
                P::End => {
                    if r.started {
                        r.end();
                    }
                }
                P::Line => r.end(),
                P::Open => {
                    r.write("{", false);
                    let empty = pieces.get(i + 1) == Some(&P::Close);
                    if !empty {
                        r.end();
                    }
                    r.indent += 1;
                }
                P::Close => {
                    r.indent -= 1;
                    r.write("}", false);
                }
                P::In => r.indent += 1,
                P::Out => r.indent -= 1,
                P::Align => marks.push(r.column()),
                P::Aligned => {
                    r.end();
                    r.align = marks.last().copied();
                }
                P::Unalign => {
                    marks.pop();
                }
                P::Apart => {
                    let first = i == 0 || pieces[i - 1] == P::Open;
                    if !first && !minified {
                        r.write("", false);
                        r.end();
                    }
                }
            }
        }
        r.text
    }
}

#[derive(Default)]
struct Render {
    text: String,
    minified: bool,
    indent: usize,
    /// Something was written to the line.
    started: bool,
    solid: bool,
    align: Option<usize>,
}

fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '$' || c == '_' || !c.is_ascii()
}

impl Render {
    fn write(&mut self, text: &str, apart: bool) {
        if !self.started && !self.minified {
            let n = self.align.take().unwrap_or(self.indent * 4);
            self.text.extend(std::iter::repeat_n(' ', n));
        }
        self.started = true;
        if apart {
            if let (Some(l), Some(f)) = (self.text.chars().last(), text.chars().next()) {
                let joins = (word(l) || self.solid) && word(f)
                    || matches!((l, f), ('+', '+') | ('-', '-') | ('/', '/') | ('<', '!'));
                if joins {
                    self.text.push(' ');
                }
            }
        }
        self.text.push_str(text);
        self.solid = false;
    }

    fn end(&mut self) {
        if !self.minified {
            self.text.push('\n');
            self.started = false;
            self.solid = false;
        }
    }

    fn column(&self) -> usize {
        let line = self.text.rsplit(['\n', '\r', '\u{2028}', '\u{2029}']).next().unwrap_or("");
        line.chars().count()
    }
}

/// The code of a program.
pub fn program(tree: &Value, minified: bool) -> String {
    let (_, list) = kind(tree);
    let mut p = Printer::default();
    p.directives(list);
    p.statements(list["body"].as_array().expect("body"));
    p.render(minified)
}

/// The code of a single expression or statement.
pub fn part(tree: &Value, expr: bool, minified: bool) -> String {
    let mut p = Printer::default();
    if expr {
        p.expr(tree);
    } else {
        p.statement(tree);
    }
    p.keep_last = true;
    p.render(minified)
}
