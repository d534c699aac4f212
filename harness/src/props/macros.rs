//! The procedural macros: generated enums and directories are compiled and run.

use super::cli::Scratch;
use crate::engine::*;
use crate::src::Src;
use std::path::Path;
use std::process::{Command, Stdio};

struct Variant {
    ident: String,
    /// The attribute.
    given: Option<String>,
}

impl Variant {
    fn text(&self) -> String {
        self.given.clone().unwrap_or_else(|| self.ident.chars().flat_map(char::to_lowercase).collect())
    }
}

struct Enum {
    variants: Vec<Variant>,
    /// Name of the macro, and does it have rules of its own?
    name: Option<(String, bool)>,
}

const IDENTS: &[&str] = &[
    "A", "Plus", "PlusPlus", "HTMLElement", "X1", "A_B", "_C", "É", "ÀÈ", "InstanceOf", "B", "C", "Ok", "Err", "None", "aLower", "Z9z", "StrictEqual",
];
const TEXTS: &[&str] = &[
    "", "a", "A", "+", "++", "+=", "instanceof", "é", "=>", "\\", "\"", "'", " ", "a b", "{", "}", "x1", "plus", "Plus", "#", "\n", "\u{2028}", "ab", "ba", "!==", "??", "?.", "...", "$", "_", "/*", "//",
];

/// Any name of a variant.
fn ident(src: &mut Src) -> String {
    if src.chance(1, 2) {
        return src.pick(IDENTS).to_owned();
    }
    let mut s = String::new();
    for i in 0..src.range(1, 9) {
        let c = match src.below(8) {
            0 => "_",
            1 if i > 0 => src.pick(&["0", "1", "2", "9", "16"]),
            2 => src.pick(&["É", "ñ", "Ω", "ß", "日", "İ"]),
            3 | 4 => src.pick(&["a", "b", "z", "o", "r"]),
            _ => src.pick(&["A", "B", "X", "Z", "Q"]),
        };
        s.push_str(c);
    }
    // Not a word of Rust, nor `_` alone.
    if s.chars().all(|c| c == '_') || s.chars().all(|c| c.is_ascii_lowercase()) { format!("N{s}") } else { s }
}

/// Strings for which a macro can be called.
fn callable(text: &str) -> bool {
    text.chars().all(|c| c.is_ascii_graphic() && c != '"' && c != '\\')
}

fn an_enum(src: &mut Src, n: usize) -> Enum {
    let count = src.range(1, 8);
    let mut variants: Vec<Variant> = vec![];
    for _ in 0..count {
        let ident = ident(src);
        let given = src.chance(1, 2).then(|| {
            let mut t = src.pick(TEXTS).to_owned();
            if src.chance(1, 3) {
                t.push_str(src.pick(TEXTS));
            }
            t
        });
        let v = Variant { ident, given };
        if variants.iter().all(|o| o.ident != v.ident && o.text() != v.text()) {
            variants.push(v);
        }
    }
    let name = src.chance(2, 3).then(|| (format!("{}{n}", src.pick(&["op", "kind_of", "K"])), src.chance(1, 2)));
    Enum { variants, name }
}

struct File {
    path: String,
    extension: String,
    ident: String,
}

const NAMES: &[&str] = &["a", "b-c", "d.e", "f_g", "H", "i j", "k1", "é", "m.n-o", "p+q", "if", "x--y", "z..w", "md", "a.md"];
const EXTENSIONS: &[&str] = &["md", "js", "md_ignore", "txt", "MD", "é", "mjs"];

fn directory(src: &mut Src, path: &Path, inner: &str, depth: usize, out: &mut Vec<File>) {
    std::fs::create_dir_all(path).expect("directory");
    for _ in 0..src.below(5) {
        // The last dot is that of the extension; names start with a letter for there is an identifier to make.
        let stem = if src.chance(1, 2) {
            format!("t{}", src.pick(NAMES))
        } else {
            let mut s = String::from("t");
            for _ in 0..src.range(1, 6) {
                s.push_str(src.pick(&["a", "Z", "0", "9", "_", "__", "-", ".", "..", " ", "é", "+", "#", "r#", "~", "'", "(", "日", "mod", "$"]));
            }
            s
        };
        let extension = src.pick(EXTENSIONS);
        let file = path.join(format!("{stem}.{extension}"));
        if file.exists() {
            continue;
        }
        std::fs::write(&file, "").expect("file");
        let ident: String = format!("{inner}{stem}")
            .chars()
            .flat_map(|c| match c {
                '-' | '.' => vec!['_'],
                '/' => vec!['_', '_'],
                c if c.is_ascii_alphanumeric() || c == '_' => vec![c],
                _ => vec![],
            })
            .collect();
        out.push(File { path: file.to_string_lossy().into_owned(), extension: extension.to_owned(), ident });
    }
    if depth < 3 {
        for _ in 0..src.count(2) {
            let name = format!("s{}", src.pick(NAMES));
            let sub = path.join(&name);
            if !sub.exists() {
                directory(src, &sub, &format!("{inner}{name}/"), depth + 1, out);
            }
        }
    }
}

fn build(dir: &Path, program: &str) -> Result<Vec<String>, String> {
    let source = dir.join("main.rs");
    let binary = dir.join("program");
    std::fs::write(&source, program).expect("write");
    let library = format!("{}/target/macros/debug/libfajt_macros.so", crate::verif_dir());
    let out = Command::new("rustc")
        .args(["--edition", "2021", "--cap-lints", "allow", "-C", "debuginfo=0", "--crate-name", "program", "-o"])
        .arg(&binary)
        .arg("--extern")
        .arg(format!("fajt_macros={library}"))
        .arg(&source)
        .stdin(Stdio::null())
        .output()
        .expect("rustc");
    if !out.status.success() {
        return Err(format!("does not compile: {}", String::from_utf8_lossy(&out.stderr)));
    }
    let out = Command::new(&binary).stdin(Stdio::null()).env_clear().output().expect("program");
    if !out.status.success() {
        return Err(format!("fails: {}", String::from_utf8_lossy(&out.stderr)));
    }
    Ok(String::from_utf8_lossy(&out.stdout).lines().map(str::to_owned).collect())
}

fn compiled(src: &mut Src, info: &mut Info, _idx: u64) -> CaseResult {
    let enums: Vec<Enum> = (0..src.range(1, 6)).map(|n| an_enum(src, n)).collect();
    let scratch = Scratch::new();
    let mut program = String::from("#![allow(warnings)]\nmacro_rules! collect {\n($e:literal, $p:literal, $i:ident) => { println!(\"file {:?} {:?} {}\", $p, $e, stringify!($i)); };\n}\n");
    let mut expected: Vec<String> = vec![];
    let mut body = String::new();
    for (n, e) in enums.iter().enumerate() {
        let mut head = String::new();
        if let Some((name, rules)) = &e.name {
            head += &format!("#[from_string_macro({name:?})]\n");
            if *rules {
                head += &format!("#[from_string_macro_rules(($v:ident) => {{ $crate::e{n}::E{n}::$v }};)]\n");
            }
        }
        program += &format!("#[macro_use]\npub mod e{n} {{\nuse fajt_macros::FromString;\n#[derive(Debug, PartialEq, FromString)]\n{head}pub enum E{n} {{\n");
        for v in &e.variants {
            if let Some(t) = &v.given {
                program += &format!("#[from_string({t:?})] ");
            }
            program += &format!("{},\n", v.ident);
        }
        program += "}\n}\n";
        // Text of each variant, and of the texts which variants there are.
        for v in &e.variants {
            let t = v.text();
            body += &format!("println!(\"{{:?}} {{:?}}\", e{n}::E{n}::{0}.as_str(), e{n}::E{n}::{0}.to_string());\n", v.ident);
            expected.push(format!("{t:?} {t:?}"));
            if let (Some((name, rules)), true) = (&e.name, callable(&t)) {
                let names = if *rules { String::new() } else { format!("use e{n}::E{n}::*; ") };
                body += &format!("println!(\"{{:?}}\", {{ {names}let v: e{n}::E{n} = {name}!({t:?}); v }});\n");
                expected.push(v.ident.clone());
                info.class(if *rules { "macro with rules" } else { "macro" });
            }
            info.class(if v.given.is_some() { "text given" } else { "text of the name" });
        }
        let mut probes: Vec<String> = e.variants.iter().map(Variant::text).collect();
        for v in &e.variants {
            probes.push(v.ident.clone());
            probes.push(v.ident.to_lowercase());
            probes.push(v.text().to_uppercase());
            probes.push(format!("{} ", v.text()));
        }
        for _ in 0..4 {
            probes.push(src.pick(TEXTS).to_owned());
        }
        for p in probes {
            body += &format!("println!(\"{{:?}}\", {p:?}.parse::<e{n}::E{n}>());\n");
            expected.push(match e.variants.iter().find(|v| v.text() == p) {
                Some(v) => format!("Ok({})", v.ident),
                None => "Err(\"No matching enum found.\")".to_owned(),
            });
        }
    }
    let root = scratch.0.join("files");
    let mut files = vec![];
    directory(src, &root, "", 0, &mut files);
    info.class_if(files.is_empty(), "no files");
    info.class_if(files.iter().any(|f| f.ident.contains("__")), "files in directories");
    program += &format!("fn main() {{\n{body}fajt_macros::for_each_file!({:?}, collect);\n}}\n", root.to_string_lossy());
    let mut expected_files: Vec<String> = files.iter().map(|f| format!("file {:?} {:?} {}", f.path, f.extension, f.ident)).collect();
    expected_files.sort();
    let hide = scratch.0.to_string_lossy().into_owned();
    let shown = program.replace(&hide, "SCRATCH");
    info.set(&format!("{shown}{}", expected_files.join("\n").replace(&hide, "")), enums.len() > 1 && files.len() > 1);
    let listing = expected_files.join("\n").replace(&hide, "SCRATCH");
    let about = format!("{shown}\nfiles:\n{listing}");
    info.evaluations += (expected.len() + files.len()) as u64;
    let lines = match build(&scratch.0, &program) {
        Ok(l) => l,
        Err(e) => return Err(Fail::new(format!("program with the macros {e}"), about)),
    };
    let (values, rest) = lines.split_at(expected.len().min(lines.len()));
    for (i, (e, v)) in expected.iter().zip(values).enumerate() {
        if e != v {
            return Err(Fail::new(format!("enum from string differs: line {i} is {v}, not {e}"), about));
        }
    }
    let mut rest = rest.to_vec();
    rest.sort();
    if rest != expected_files {
        return Err(Fail::new(format!("files differ: {}", rest.join("\n").replace(&hide, "SCRATCH")), about));
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P27",
        rule: "a program of more than one enum and a directory of more than one file, compiled and run",
        quick: 400,
        thorough: 4_000,
        run: compiled,
        fixed: None,
        assumptions: &["names of files start with a letter and have an extension"],
        slow: true,
    }]
}
