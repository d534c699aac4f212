//! A JavaScript parser of another origin (acorn, run by node) as the oracle of differential checks.
//! One process per thread, one line of JSON per question.

use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Server {
    child: Child,
    stdin: Option<ChildStdin>,
    stdout: BufReader<ChildStdout>,
}

impl Drop for Server {
    fn drop(&mut self) {
        drop(self.stdin.take());
        let _ = self.child.wait();
    }
}

thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}

fn start() -> Server {
    let script = format!("{}/oracle/server.js", crate::verif_dir());
    // The limit of address space of the worker does not suit node.
    let mut child = Command::new("/bin/bash")
        .arg("-c")
        .arg("ulimit -S -v unlimited; exec node --experimental-vm-modules --no-warnings --max-old-space-size=512 --stack-size=3000 \"$0\"")
        .arg(script)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("node");
    let stdin = child.stdin.take();
    let stdout = BufReader::new(child.stdout.take().unwrap());
    Server { child, stdin, stdout }
}

pub struct Answer {
    pub v8: String,
    pub ok: bool,
    pub msg: String,
    pub diff: Option<String>,
    /// What of the text fajt is known not to support.
    pub features: String,
}

/// None: the oracle has no answer (its own limits).
pub fn ask(text: &str, module: bool, ast: Option<&Value>) -> Option<Answer> {
    let mut q = json!({"s": text, "m": module});
    if let Some(a) = ast {
        q["ast"] = a.clone();
    }
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        let server = s.get_or_insert_with(start);
        let stdin = server.stdin.as_mut().unwrap();
        let mut line = serde_json::to_string(&q).unwrap();
        line.push('\n');
        let sent = stdin.write_all(line.as_bytes()).and_then(|_| stdin.flush());
        let mut reply = String::new();
        let read = server.stdout.read_line(&mut reply);
        if sent.is_err() || !matches!(read, Ok(n) if n > 0) {
            // Some texts make node fail an assertion of its own.
            *s = None;
            return None;
        }
        let v: Value = serde_json::from_str(&reply).expect("the oracle ended");
        v["ok"].as_bool().map(|ok| Answer {
            ok,
            v8: v["v8"].as_str().unwrap_or("").to_owned(),
            msg: v["msg"].as_str().unwrap_or("").to_owned(),
            features: v["features"].as_str().unwrap_or("").to_owned(),
            diff: v["diff"].as_str().map(|d| d.to_owned()),
        })
    })
}
