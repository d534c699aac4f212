//! The command line program.

use super::common::*;
use crate::engine::*;
use crate::src::Src;
use crate::text;
use fajt_codegen::{generate_code, GeneratorContext};
use fajt_parser::error::emitter::ErrorEmitter;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

/// A directory of its own for each run.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        let dir = std::env::temp_dir().join(format!("fajt-verif-cli-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Scratch(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// (ending of the file name, is it that of a module)
const ENDINGS: &[(&str, bool)] = &[
    (".js", false),
    (".mjs", true),
    (".module.js", true),
    (".cjs", false),
    (".mjs.js", false),
    (".js.mjs", true),
    ("module.js", false),
    (".module.jsx", false),
    (".module.mjs", true),
    (".modules.js", false),
    (".module.cjs", false),
    (".MJS", false),
    (".mjsx", false),
    ("mjs", false),
    ("", false),
    (".ts", false),
    (".module", false),
    (".x.module.js", true),
];

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Tree,
    Check,
    Pretty,
    Minified,
}

/// Stack and memory of the program are those of a user.
fn run(dir: &PathBuf, args: &[String]) -> (Option<i32>, String, String) {
    let program = format!("{}/target/cli/debug/fajt", crate::verif_dir());
    let out = Command::new(&program)
        .args(args)
        .current_dir(dir)
        .stdin(Stdio::null())
        .env_clear()
        .output()
        .unwrap_or_else(|e| panic!("{program}: {e}"));
    (
        out.status.code(),
        String::from_utf8_lossy(&out.stdout).into_owned(),
        String::from_utf8_lossy(&out.stderr).into_owned(),
    )
}

fn cli(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let dir = Scratch::new();
    if src.chance(1, 10) {
        return misuse(src, info, &dir.0);
    }
    let (ending, module) = ENDINGS[src.below(ENDINGS.len())];
    let stem = src.pick(&["a", "b c", "x.mjs", "é", "t.js", "module", "-c", "-f"]);
    let stem = if ending.is_empty() && stem == "x.mjs" { "x.js" } else { stem };
    let folder = src.pick(&["", "d.mjs", "d.module.js", "e"]);
    let mut path = format!("{stem}{ending}");
    if !folder.is_empty() {
        std::fs::create_dir(dir.0.join(folder)).expect("folder");
        path = format!("{folder}/{path}");
    }
    // Not only programs of the goal the name asks for.
    let goal = if src.chance(1, 3) { !module } else { module };
    let source = if src.chance(2, 3) { text::program(src, idx, goal) } else { text::any(src, idx, goal).1 };
    std::fs::write(dir.0.join(&path), &source).expect("write");

    let dashes = path.starts_with('-');
    let mut options: Vec<Vec<&str>> = vec![];
    let mode = match src.below(6) {
        0 => Mode::Tree,
        1 => {
            options.push(vec![src.pick(&["-c", "--check"])]);
            Mode::Check
        }
        k => {
            let (name, mode) = if k % 2 == 0 { ("pretty", Mode::Pretty) } else { ("minified", Mode::Minified) };
            options.push(match (src.below(5), name) {
                (0, _) => vec!["-f", name],
                (1, _) => vec!["--format", name],
                (2, "pretty") => vec!["-fpretty"],
                (2, _) => vec!["-fminified"],
                (3, "pretty") => vec!["-f=pretty"],
                (3, _) => vec!["-f=minified"],
                (_, "pretty") => vec!["--format=pretty"],
                (_, _) => vec!["--format=minified"],
            });
            if src.chance(1, 6) {
                // Checking wins.
                let at = src.below(2);
                options.insert(at, vec!["-c"]);
                Mode::Check
            } else {
                mode
            }
        }
    };
    let file = if dashes { vec!["--", &path] } else { vec![path.as_str()] };
    let at = if dashes { options.len() } else { src.below(options.len() + 1) };
    options.insert(at, file);
    let args: Vec<String> = options.concat().iter().map(|s| s.to_string()).collect();
    let input = format!("fajt {} with {path}: {}", args.join(" "), describe(&source, module));
    info.set(&input, source.len() > 4);

    let mut parsed = parse(&source, module)?;
    info.class_if(parsed.is_err(), "error");
    info.class_if(module, "module");
    info.class(match mode {
        Mode::Tree => "tree",
        Mode::Check => "check",
        Mode::Pretty => "pretty",
        Mode::Minified => "minified",
    });
    let (mut code, mut stdout, mut stderr) = (0, String::new(), String::new());
    if let Err(e) = &parsed {
        let mut out = vec![];
        guard(&input, || ErrorEmitter::new(&path, &source, &mut out).emit_error(e).is_ok())?;
        code = 1;
        stderr = String::from_utf8_lossy(&out).into_owned();
    } else {
        stdout = match mode {
            Mode::Check => "Parsed successfully!\n".to_owned(),
            Mode::Tree => format!("{parsed:#?}\n"),
            _ => {
                let mut context = GeneratorContext::new();
                if mode == Mode::Minified {
                    context.minified = true;
                }
                let tree = parsed.as_mut().unwrap();
                guard(&input, || generate_code(tree, context))? + "\n"
            }
        };
    }
    let (got_code, got_out, got_err) = run(&dir.0, &args);
    let fail = |msg: String| Err(Fail::new(msg, input.clone()));
    if got_code != Some(code) {
        return fail(format!("exit: the exit status is {got_code:?} instead of {code}: {}", cut(&got_err)));
    }
    if got_out != stdout {
        return fail(format!("output: expected {:?}, got {:?}", cut(&stdout), cut(&got_out)));
    }
    if got_err != stderr {
        return fail(format!("diagnostic: expected {:?}, got {:?}", cut(&stderr), cut(&got_err)));
    }
    if std::fs::read(dir.0.join(&path)).ok().as_deref() != Some(source.as_bytes()) {
        return fail("file: the source file was changed".to_owned());
    }
    let entries = std::fs::read_dir(&dir.0).map(|d| d.count()).unwrap_or(0);
    if entries != 1 {
        return fail(format!("file: {entries} files are left in place of one"));
    }
    Ok(())
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

/// What cannot be done ends without output and with an error.
fn misuse(src: &mut Src, info: &mut Info, dir: &PathBuf) -> CaseResult {
    std::fs::write(dir.join("a.js"), "a;").expect("write");
    std::fs::write(dir.join("b.js"), b"a; '\xff\xfe'").expect("write");
    std::fs::create_dir(dir.join("c.js")).expect("folder");
    let which = src.below(21);
    let args: &[&str] = [
        &["missing.js"][..],
        &["missing.js", "-c"],
        &["missing.mjs", "-f", "pretty"],
        &["b.js"],
        &["b.js", "-c"],
        &["b.js", "-f", "minified"],
        &["c.js"],
        &["c.js", "-c"],
        &[],
        &["-c"],
        &["-f", "pretty"],
        &["a.js", "b.js"],
        &["a.js", "-f"],
        &["a.js", "--format"],
        &["a.js", "--format", "other"],
        &["a.js", "-f", ""],
        &["a.js", "-f", "PRETTY"],
        &["a.js", "--unknown"],
        &["a.js", "-x"],
        &["a.js/"],
        &[""],
    ][which];
    let args: Vec<String> = args.iter().map(|s| s.to_string()).collect();
    let input = format!("fajt {args:?}");
    info.class("misuse");
    info.set(&input, true);
    let (code, out, err) = run(dir, &args);
    if code == Some(0) || code.is_none() {
        return Err(Fail::new(format!("exit: the exit status is {code:?}"), input));
    }
    if !out.is_empty() || err.is_empty() {
        return Err(Fail::new(format!("output: expected nothing, got {:?} and the message {:?}", cut(&out), cut(&err)), input));
    }
    // The program itself says what is wrong with its options, it does not break down on them.
    if (8..19).contains(&which) && err.contains("panicked") {
        return Err(Fail::new(format!("usage: the program panics: {:?}", cut(&err)), input));
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P22",
        rule: "the source has more than four bytes, or the program is used in a wrong way",
        quick: 50_000,
        thorough: 1_000_000,
        run: cli,
        fixed: None,
        assumptions: &["the output is compared to what the libraries of the same tree give"],
        slow: true,
    }]
}
