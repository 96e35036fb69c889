//! Compiles generated source against the runtime crates of the tree under test, and runs it.
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{Receiver, RecvTimeoutError, channel};
use std::time::{Duration, Instant};

pub struct Rt {
    externs: Vec<(String, String)>,
    deps: Vec<String>,
}

/// Where cargo put the runtime crates (check.sh builds them and keeps cargo's messages).
pub fn rt() -> Result<Rt, String> {
    let p = std::env::var("RT_JSON").map_err(|_| "RT_JSON is not set".to_string())?;
    let s = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?;
    let mut externs = vec![];
    let mut deps: Vec<String> = vec![];
    for l in s.lines().filter(|l| l.contains("\"compiler-artifact\"")) {
        let Some(files) = l.split("\"filenames\":[").nth(1).and_then(|r| r.split(']').next()) else { continue };
        let Some(name) = l.split("\"target\":{").nth(1).and_then(|r| r.split("\"name\":\"").nth(1)).and_then(|r| r.split('"').next()) else { continue };
        for f in files.split(',') {
            let f = f.trim_matches('"');
            if !f.ends_with(".rlib") && !f.ends_with(".so") {
                continue;
            }
            if let Some(d) = Path::new(f).parent() {
                let d = d.display().to_string();
                if !deps.contains(&d) {
                    deps.push(d);
                }
            }
            if ["serde", "serde_xdr", "serde_xdr_derive", "rt"].contains(&name) {
                externs.push((name.to_string(), f.to_string()));
            }
        }
    }
    for n in ["serde", "serde_xdr", "serde_xdr_derive", "rt"] {
        if !externs.iter().any(|e| e.0 == n) {
            return Err(format!("{n} was not built"));
        }
    }
    if let Some(f) = externs.iter().find(|e| e.0 == "rt") {
        let d = Path::new(&f.1).parent().unwrap().join("deps");
        deps.push(d.display().to_string());
    }
    Ok(Rt { externs, deps })
}

#[derive(Debug)]
pub struct Diag {
    /// The module it points into (none: the program around the modules).
    pub module: Option<usize>,
    pub code: String,
    pub text: String,
}

pub enum Built {
    Ok(PathBuf),
    /// The compiler refuses the source.
    Refused(Vec<Diag>),
    /// The compiler could not do its work.
    Failed(String),
}

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let i = l.find(&format!("\"{k}\":\""))? + k.len() + 4;
    let b = l.as_bytes();
    let mut j = i;
    while j < b.len() && b[j] != b'"' {
        if b[j] == b'\\' {
            j += 1;
        }
        j += 1;
    }
    l.get(i..j)
}

fn unescape(s: &str) -> String {
    s.replace("\\n", "\n").replace("\\\"", "\"").replace("\\\\", "\\")
}

/// Module `i` is `mod m<i>`. Without `main`, only the metadata is made: everything is checked, no
/// machine code is generated.
pub fn compile(rt: &Rt, dir: &Path, mods: &[String], main: Option<&str>, edition: &str) -> Built {
    let _ = std::fs::remove_dir_all(dir);
    if let Err(e) = std::fs::create_dir_all(dir) {
        return Built::Failed(e.to_string());
    }
    let mut root = String::from("#![allow(warnings)]\n");
    for (i, m) in mods.iter().enumerate() {
        if let Err(e) = std::fs::write(dir.join(format!("m{i}.rs")), m) {
            return Built::Failed(e.to_string());
        }
        root.push_str(&format!("pub mod m{i};\n"));
    }
    root.push_str(main.unwrap_or(""));
    if let Err(e) = std::fs::write(dir.join("root.rs"), root) {
        return Built::Failed(e.to_string());
    }
    let out = dir.join("out");
    let mut c = Command::new("rustc");
    c.current_dir(dir)
        .arg("--edition")
        .arg(edition)
        .arg("--error-format=json")
        .arg("-Awarnings")
        .arg("-Cdebuginfo=0")
        .arg("-Copt-level=0")
        .arg("-Ccodegen-units=1")
        .arg("-Cincremental=")
        .arg("--crate-name=generated");
    c.env_remove("RUSTFLAGS");
    if main.is_some() {
        c.arg("--crate-type=bin").arg("-o").arg(&out);
    } else {
        c.arg("--crate-type=lib").arg("--emit=metadata").arg("-o").arg(&out);
    }
    for (n, f) in &rt.externs {
        c.arg("--extern").arg(format!("{n}={f}"));
    }
    for d in &rt.deps {
        c.arg("-L").arg(format!("dependency={d}"));
    }
    c.arg("root.rs").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
    let o = match c.output() {
        Ok(o) => o,
        Err(e) => return Built::Failed(e.to_string()),
    };
    if o.status.success() {
        return Built::Ok(out);
    }
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if o.status.code() != Some(1) {
        return Built::Failed(format!("rustc: {:?}: {}", o.status, err.chars().take(2000).collect::<String>()));
    }
    let mut v = vec![];
    for l in err.lines() {
        if !l.starts_with('{') || !l.contains("\"level\":\"error\"") {
            continue;
        }
        let text = field(l, "rendered").map(unescape).unwrap_or_else(|| l.to_string());
        // Without a place it is no statement about the source.
        let Some(f) = l.split("\"spans\":[").skip(1).filter_map(|s| field(s, "file_name")).find(|f| f.ends_with(".rs")) else { continue };
        let code = l.split("\"code\":{").nth(1).and_then(|r| field(r, "code")).unwrap_or("").to_string();
        let module = (0..mods.len())
            .find(|i| f == format!("m{i}.rs"))
            .or_else(|| l.split("\"file_name\":\"").skip(1).find_map(|s| (0..mods.len()).find(|i| s.starts_with(&format!("m{i}.rs\"")))));
        v.push(Diag { module, code, text });
    }
    if v.is_empty() {
        return Built::Failed(format!("rustc failed without pointing at the source: {}", err.chars().take(2000).collect::<String>()));
    }
    Built::Refused(v)
}

/// A running program made of generated types.
pub struct Runner {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
    exe: PathBuf,
}

#[derive(Debug)]
pub enum Answer {
    /// Decoded: the bytes of the value encoded again (or why not), and its debug text.
    Value(Result<Vec<u8>, String>, String),
    Error(String),
    Panic(String),
    /// The process died or did not answer.
    Crash(String),
    /// No answer, for a reason that is not the code's.
    None(String),
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn start(exe: &Path) -> std::io::Result<(Child, ChildStdin, Receiver<String>)> {
    let mut child = Command::new("sh")
        .arg("-c")
        .arg("ulimit -c 0; ulimit -v 4194304; exec \"$0\"")
        .arg(exe)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()?;
    let stdin = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    Ok((child, stdin, rx))
}

pub fn ticks(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let Some(i) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[i + 2..].split(' ').collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

impl Runner {
    pub fn new(exe: &Path) -> std::io::Result<Runner> {
        let (child, stdin, rx) = start(exe)?;
        Ok(Runner { child, stdin, rx, exe: exe.to_path_buf() })
    }

    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        if let Ok((c, i, r)) = start(&self.exe) {
            self.child = c;
            self.stdin = i;
            self.rx = r;
        }
    }

    pub fn ask(&mut self, ty: usize, b: &[u8]) -> Answer {
        let mut l = format!("{ty} {}\n", mon::hex(b));
        let t0 = ticks(self.child.id());
        let ok = self.stdin.write_all(l.as_bytes()).and_then(|_| self.stdin.flush()).is_ok();
        l.clear();
        let at = Instant::now();
        let got = loop {
            match self.rx.recv_timeout(Duration::from_millis(if ok { 500 } else { 2000 })) {
                Ok(l) => break Some(l),
                Err(RecvTimeoutError::Disconnected) => break None,
                Err(RecvTimeoutError::Timeout) => {
                    if ticks(self.child.id()).saturating_sub(t0) > 1000 {
                        self.restart();
                        return Answer::Crash("more than ten seconds of processor time".into());
                    }
                    if at.elapsed() > Duration::from_secs(120) {
                        self.restart();
                        return Answer::None("no answer within two minutes".into());
                    }
                }
            }
        };
        let Some(l) = got else {
            let st = self.child.wait();
            let a = match &st {
                Ok(s) => {
                    use std::os::unix::process::ExitStatusExt;
                    if s.signal() == Some(9) { Answer::None("killed from outside".into()) } else { Answer::Crash(format!("the process ended: {s}")) }
                }
                Err(e) => Answer::None(e.to_string()),
            };
            self.restart();
            return a;
        };
        match l.split_at(2) {
            ("V ", r) => {
                let (re, d) = r.split_once('\t').unwrap_or((r, ""));
                let re = match re.get(..2) {
                    Some("E ") => Err(unesc(re)),
                    Some("P ") => Err(unesc(re)),
                    _ => Ok(mon::unhex(re)),
                };
                Answer::Value(re, unesc(d))
            }
            ("E ", r) => Answer::Error(unesc(r)),
            ("P ", r) => Answer::Panic(unesc(r)),
            _ => Answer::None(format!("odd answer {l}")),
        }
    }
}

impl Drop for Runner {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
