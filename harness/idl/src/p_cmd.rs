//! G10: the command, run as a process.
use crate::modes::{self, Mode};
use crate::p_run::work_dir;
use crate::{ast, gsem, p_gen, p_parse};
use mon::{Ctx, Rng, Spec, hash};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use std::time::{Duration, Instant};

/// Name, kind, permissions, time of the last change, contents of everything below a folder.
fn snapshot(d: &Path) -> Vec<(PathBuf, String, Vec<u8>)> {
    let mut v = vec![];
    let mut todo = vec![d.to_path_buf()];
    while let Some(d) = todo.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            let p = e.path();
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            let what = format!("{:o} {} {}.{}", m.mode(), m.uid(), m.mtime(), m.mtime_nsec());
            if m.is_dir() {
                todo.push(p.clone());
                // Reading changes nothing but the time of access.
                v.push((p, what, vec![]));
            } else if m.file_type().is_symlink() {
                v.push((p.clone(), what, std::fs::read_link(&p).map(|l| l.display().to_string().into_bytes()).unwrap_or_default()));
            } else if m.is_file() {
                let c = std::fs::read(&p).unwrap_or_default();
                v.push((p, what, c));
            } else {
                v.push((p, what, vec![]));
            }
        }
    }
    v.sort();
    v
}

struct Cmd {
    exe: PathBuf,
    dir: PathBuf,
}

enum Ran {
    Done(Output),
    /// It did not end.
    Hangs,
    Failed(String),
}

impl Cmd {
    fn command(&self, args: &[String]) -> Command {
        let mut c = Command::new(&self.exe);
        c.args(args).current_dir(self.dir.join("cwd")).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        c.env_clear();
        c.env("HOME", self.dir.join("home")).env("TMPDIR", self.dir.join("tmp")).env("PATH", "/usr/bin:/bin");
        c
    }
    fn run(&self, c: Command) -> Ran {
        self.run_fed(c, None)
    }
    /// `input`: what standard input gives, in two pieces with a pause in between.
    fn run_fed(&self, mut c: Command, input: Option<(String, usize)>) -> Ran {
        if input.is_some() {
            c.stdin(Stdio::piped());
        }
        let mut child = match c.spawn() {
            Ok(c) => c,
            Err(e) => return Ran::Failed(e.to_string()),
        };
        if let (Some((t, at)), Some(mut w)) = (input, child.stdin.take()) {
            std::thread::spawn(move || {
                use std::io::Write;
                let (a, b) = t.as_bytes().split_at(at.min(t.len()));
                let _ = w.write_all(a);
                std::thread::sleep(Duration::from_millis(5));
                let _ = w.write_all(b);
            });
        }
        let pid = child.id() as i32;
        let (tx, rx) = std::sync::mpsc::channel();
        let h = std::thread::spawn(move || {
            let _ = tx.send(child.wait_with_output());
        });
        let t0 = Instant::now();
        loop {
            match rx.recv_timeout(Duration::from_millis(500)) {
                Ok(o) => {
                    let _ = h.join();
                    return match o {
                        Ok(o) if o.status.signal() == Some(9) => Ran::Failed("killed from outside".into()),
                        Ok(o) => Ran::Done(o),
                        Err(e) => Ran::Failed(e.to_string()),
                    };
                }
                Err(_) if t0.elapsed() > Duration::from_secs(100) => {
                    let cpu = crate::crates::ticks(pid as u32);
                    let _ = Command::new("kill").arg("-9").arg(pid.to_string()).status();
                    let _ = h.join();
                    return if cpu > 1500 { Ran::Hangs } else { Ran::Failed("no end within 100 s".into()) };
                }
                Err(_) => {}
            }
        }
    }
}

fn flags(m: &Mode, r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = (0..4).filter(|i| m.flags[*i]).map(|i| modes::FLAGS[i].to_string()).collect();
    r.shuffle(&mut v);
    v
}

/// The arguments: the path somewhere among the flags.
fn args(m: &Mode, path: &str, r: &mut Rng) -> Vec<String> {
    let mut v = flags(m, r);
    if r.one_in(6) || (path.starts_with('-') && path != "-") {
        v.push("--".into());
        v.push(path.into());
    } else {
        let i = r.usize(v.len() + 1);
        v.insert(i, path.into());
    }
    v
}

fn show(o: &Output) -> String {
    let s = |b: &[u8]| String::from_utf8_lossy(b).chars().take(600).collect::<String>();
    format!("{}, standard output ({} bytes) {:?}, standard error {:?}", o.status, o.stdout.len(), s(&o.stdout), s(&o.stderr))
}

/// What is wrong with an outcome. `want`: the library's text, or that it refuses.
fn wrong(o: &Output, want: &Result<String, String>) -> Option<String> {
    match want {
        Ok(code) => {
            let mut t = code.clone().into_bytes();
            t.push(b'\n');
            if o.status.code() != Some(0) {
                return Some("the library generates code, the command fails".into());
            }
            if o.stdout != t {
                let i = (0..t.len().max(o.stdout.len())).find(|i| t.get(*i) != o.stdout.get(*i)).unwrap();
                let around = |b: &[u8]| String::from_utf8_lossy(&b[i.saturating_sub(60).min(b.len())..(i + 60).min(b.len())]).into_owned();
                return Some(format!("the output differs at byte {i} of {}: {:?} instead of {:?}", t.len(), around(&o.stdout), around(&t)));
            }
        }
        Err(e) => {
            let why = e.chars().take(300).collect::<String>();
            if o.status.code() == Some(0) {
                return Some(format!("exits with status 0 although: {why}"));
            }
            if !o.stdout.is_empty() {
                return Some(format!("writes to standard output although: {why}"));
            }
            if o.stderr.iter().all(|b| b.is_ascii_whitespace()) {
                return Some(format!("explains nothing on standard error although: {why}"));
            }
        }
    }
    None
}

/// What may stand around a file: ends of files of other systems, separators that are not white space, garbage.
const AROUND: &[&str] = &["\u{1a}", "\0", "\u{feff}", "\u{a0}", "\u{c}", "\u{b}", "\u{2028}", "\u{85}", "\\", "\u{200b}", "\u{fffd}", "\u{fffe}", "\u{4}", "\u{7f}", "\u{1b}[0m", "EOF", ".", "--", "\"", "#!", "#", "\r", "\t", " \n", "\u{1a}\u{1a}"];

fn text(r: &mut Rng) -> (String, bool) {
    let (t, dense) = text_within(r);
    let x = *r.pick(&[AROUND, p_parse::TAILS].concat());
    match r.below(10) {
        0 => (format!("{x}{t}"), false),
        1 => (format!("{t}{x}"), false),
        2 => (format!("{t}\n{x}\n"), false),
        _ => (t, dense),
    }
}

fn text_within(r: &mut Rng) -> (String, bool) {
    match r.below(8) {
        0..=3 => {
            let mut o = gsem::Opts::any(r);
            o.dense = r.below(3) > 0;
            let ds = gsem::file(r, &o);
            let toks = ast::tokens(&ds, Some(r));
            (ast::layout(&toks, r, 2, true).0, o.dense)
        }
        4 => {
            let (_, toks) = p_parse::valid(r);
            (ast::layout(&toks, r, 2, false).0, p_parse::dense(&toks))
        }
        5 => {
            let (_, mut toks) = p_parse::valid(r);
            p_parse::mutate(r, &mut toks);
            (ast::layout(&toks, r, 2, false).0, p_parse::dense(&toks))
        }
        6 => {
            let (_, toks) = p_parse::valid(r);
            let t = ast::layout(&toks, r, 1, false).0;
            (p_parse::char_mutate(r, &t), false)
        }
        _ => (
            r.pick(&[
                "",
                "\n",
                "/* only a comment */",
                "%line\n",
                "const A = 1;",
                "\u{feff}const A = 1;",
                "const A = 1;\r\nconst B = 2;\r\n",
                "const A = 99999999999999999999999;",
                "struct s { int a[B]; };",
                "const A = B; const B = A;",
                "typedef a b; typedef b a; struct s { a x; };",
                "typedef enum { A = 1 } e;",
                "struct s { unknown x; };",
                "union u switch (string d<>) { case 1: int x; };",
                "enum e { A = 5000000000 };",
                "const A = 1;\0",
                "struct s { int a; } ; garbage",
                "program P { version V { void F(void) = 1; } = 1; } = 0x20000001;",
            ])
            .to_string(),
            true,
        ),
    }
}

fn g10(ctx: &mut Ctx) {
    let exe = match std::env::var("RPCGEN_BIN") {
        Ok(e) if Path::new(&e).is_file() => PathBuf::from(e),
        _ => return ctx.inconclusive("the command is not built"),
    };
    let dir = work_dir("g10");
    let _ = std::fs::remove_dir_all(&dir);
    for d in ["cwd", "home", "tmp", "files", "bin"] {
        if std::fs::create_dir_all(dir.join(d)).is_err() {
            return ctx.inconclusive("no scratch folder");
        }
    }
    // A copy that an unprivileged user can run.
    let copy = dir.join("bin").join("rpcgen");
    if std::fs::copy(&exe, &copy).is_err() {
        return ctx.inconclusive("the command cannot be copied");
    }
    let c = Cmd { exe: copy, dir: dir.clone() };
    ctx.cases(45, 2500, |ctx, r| {
        let (t, dense) = text(r);
        ctx.note(|| t.clone());
        let name = *r.pick(&["a.x", "with space.x", "名前.x", "noextension", "-dash.x", "sub/b.x", "q'\"uote.x"]);
        let file = dir.join("files").join(name);
        let _ = std::fs::create_dir_all(file.parent().unwrap());
        if std::fs::write(&file, &t).is_err() {
            return ctx.inconclusive("the scratch file cannot be written");
        }
        let relative = format!("../files/{name}");
        let link = dir.join("cwd").join("link.x");
        // A name that could be taken for something else, in the current folder.
        let odd = *r.pick(&["-", "--", "~", "$HOME", "*", "@a", "+x", "a=b", "--use-union", "--help", "-h", "-V", "help", "%", "NUL", "a\nb", "/dev"]);
        let odd = odd.trim_start_matches('/');
        let _ = std::fs::remove_dir_all(dir.join("cwd"));
        let _ = std::fs::create_dir_all(dir.join("cwd"));
        if std::fs::write(dir.join("cwd").join(odd), &t).is_err() {
            return ctx.inconclusive("the scratch file cannot be written");
        }
        let _ = std::os::unix::fs::symlink(&file, &link);
        let before = snapshot(&dir);
        let all = modes::all_flags();
        let mut outs: Vec<(Mode, Output)> = vec![];
        for m in all.iter().filter(|m| dense || !m.complement()) {
            let mut piped = None;
            let path = match r.below(9) {
                0 | 1 => relative.clone(),
                2 | 3 => "link.x".to_string(),
                4 | 5 => odd.to_string(),
                6 if Path::new("/dev/stdin").exists() => {
                    piped = Some((t.clone(), r.usize(t.len() + 1)));
                    "/dev/stdin".to_string()
                }
                _ => file.display().to_string(),
            };
            let a = args(m, &path, r);
            let mut cmd = c.command(&a);
            if r.one_in(4) {
                cmd.env("RUST_BACKTRACE", "1").env("LC_ALL", "tr_TR.UTF-8").env("COLUMNS", "10").env("TERM", "xterm-256color").env("CLICOLOR_FORCE", "1");
            }
            let want = match mon::catch(|| p_gen::generate(&t, m)) {
                Ok(w) => w,
                Err(p) => Err(format!("panic: {p}")),
            };
            if piped.is_some() {
                ctx.count("runs on a pipe");
            }
            let o = match c.run_fed(cmd, piped) {
                Ran::Done(o) => o,
                Ran::Hangs => return ctx.violation(&format!("the command does not end: {a:?}\nfile:\n{t}")),
                Ran::Failed(e) => return ctx.inconclusive(&e),
            };
            ctx.eval();
            ctx.count(match &want {
                Ok(_) => "runs on accepted files",
                Err(e) if e.contains("by the parser") => "runs on malformed files",
                Err(_) => "runs on unsupported files",
            });
            ctx.count(&format!("runs with {}", m.name()));
            ctx.distinct(hash(format!("{a:?}{t}").as_bytes()));
            if let Some(w) = wrong(&o, &want) {
                return ctx.violation(&format!("{a:?}: {w}\n{}\nfile:\n{t}", show(&o)));
            }
            outs.push((*m, o));
        }
        if snapshot(&dir) != before {
            return ctx.violation(&format!("the command changed a file: {:?}\nfile:\n{t}", diff(&before, &snapshot(&dir))));
        }
        ctx.count("folders unchanged");
        ctx.sample(|| t.clone());
        let _ = std::fs::remove_file(&file);
    });
    // Files that cannot be read as text.
    ctx.cases(20, 600, |ctx, r| {
        let m = *r.pick(&modes::all_flags());
        let f = dir.join("files").join("f.x");
        let _ = std::fs::remove_file(&f);
        let _ = std::fs::remove_dir(&f);
        let good = "const A = 1;\nstruct s { int a; };\n";
        let mut uid = None;
        let mut path = f.display().to_string();
        let kind = *r.pick(&["missing file", "missing folder", "folder", "invalid UTF-8", "unreadable file", "file as a folder", "empty path", "dangling link", "circular link", "no path", "unknown flag", "two paths"]);
        let mut a = vec![];
        match kind {
            "missing file" => {}
            "missing folder" => path = dir.join("none").join("x").display().to_string(),
            "folder" => path = r.pick(&[dir.join("files").display().to_string(), "/".to_string(), ".".to_string()]).clone(),
            "invalid UTF-8" => {
                let bad: &[u8] = r.pick(&[&b"\xff"[..], b"\xc3\x28", b"\x80", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xe9"]);
                let mut b = good.as_bytes().to_vec();
                match r.below(4) {
                    0 => b.extend_from_slice(bad),
                    1 => {
                        b.splice(0..0, bad.iter().copied());
                    }
                    // Where only a comment or a pass-through line would be affected.
                    2 => {
                        b.splice(0..0, [b"/* ", bad, b" */"].concat());
                    }
                    _ => {
                        b.splice(0..0, [b"%", bad, b"\n"].concat());
                    }
                }
                let _ = std::fs::write(&f, b);
            }
            "unreadable file" => {
                let _ = std::fs::write(&f, good);
                let _ = std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0));
                uid = Some(65534);
            }
            "file as a folder" => {
                let _ = std::fs::write(&f, good);
                path = format!("{path}/");
            }
            "empty path" => path = String::new(),
            "dangling link" => {
                let _ = std::os::unix::fs::symlink(dir.join("nowhere"), &f);
            }
            "circular link" => {
                let _ = std::os::unix::fs::symlink(&f, &f);
            }
            _ => {
                let _ = std::fs::write(&f, good);
            }
        }
        match kind {
            "no path" => a.extend(flags(&m, r)),
            "unknown flag" => {
                a = args(&m, &path, r);
                a.insert(0, r.pick(&["--use-everything", "-x", "--use-std", "--use-union=maybe"]).to_string());
            }
            "two paths" => {
                a = args(&m, &path, r);
                a.push(path.clone());
            }
            _ => a = args(&m, &path, r),
        }
        let before = snapshot(&dir);
        let mut cmd = c.command(&a);
        if let Some(u) = uid {
            cmd.uid(u);
        }
        let o = match c.run(cmd) {
            Ran::Done(o) => o,
            Ran::Hangs => return ctx.violation(&format!("{kind}: the command does not end: {a:?}")),
            Ran::Failed(e) if uid.is_some() => {
                ctx.count(&format!("unprivileged runs that could not start ({e})"));
                return;
            }
            Ran::Failed(e) => return ctx.inconclusive(&e),
        };
        ctx.eval();
        ctx.count(&format!("runs: {kind}"));
        ctx.distinct(hash(format!("{kind}{a:?}").as_bytes()));
        if let Some(w) = wrong(&o, &Err(kind.to_string())) {
            return ctx.violation(&format!("{a:?}: {w}\n{}", show(&o)));
        }
        if snapshot(&dir) != before {
            return ctx.violation(&format!("{kind}: the command changed a file: {:?}", diff(&before, &snapshot(&dir))));
        }
        let _ = std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o644));
        let _ = std::fs::remove_file(&f);
    });
    // Large files; outputs that cannot be written.
    let (shard, shards) = (ctx.shard as usize, ctx.nshards.max(1) as usize);
    // Everything that may stand before and behind a good file.
    ctx.cases(1, 6, |ctx, r| {
        let f = dir.join("files").join("around.x");
        let words: Vec<&str> = mon::dict::dict().texts.iter().map(String::as_str).filter(|w| w.len() < 200).take(600).collect();
        let sure = AROUND.len() + p_parse::TAILS.len();
        for (i, x) in AROUND.iter().chain(p_parse::TAILS).chain(&words).enumerate() {
            if i % shards != shard || ctx.violated() {
                continue;
            }
            let good = "enum e { A = 1, B = 2 };\nstruct s { int a; };";
            let forms = if i < sure {
                [format!("{x}{good}"), format!("{good}{x}"), format!("{good}\n{x}\n"), format!("{x}\n{good}\n")]
            } else {
                // Words of the code, where they mean nothing.
                [format!("%{x}\n{good}"), format!("{good}\n%{x}\n"), format!("/*{x}*/ {good}\n"), format!("{x}\n{good}\n")]
            };
            for t in forms.iter().chain(&forms) {
                ctx.note(|| t.clone());
                let m = *r.pick(&modes::all_flags());
                let want = p_gen::generate(t, &m);
                if std::fs::write(&f, t).is_err() {
                    return ctx.inconclusive("the scratch file cannot be written");
                }
                let a = args(&m, &f.display().to_string(), r);
                ctx.eval();
                ctx.distinct(hash(t.as_bytes()));
                match c.run(c.command(&a)) {
                    Ran::Done(o) => {
                        if let Some(w) = wrong(&o, &want) {
                            return ctx.violation(&format!("{a:?}: {w}\nfile {t:?}"));
                        }
                        ctx.count("files within something else");
                    }
                    Ran::Hangs => return ctx.violation(&format!("the command does not end\nfile {t:?}")),
                    Ran::Failed(e) => return ctx.inconclusive(&e),
                }
            }
        }
    });
    // Every length of the output, one after another: where buffers end.
    ctx.cases(1, 3, |ctx, r| {
        let file = |n: usize| format!("const {} = 1;\n", "A".repeat(n));
        let m = *r.pick(&modes::all_flags());
        let Ok(base) = p_gen::generate(&file(1), &m) else {
            return;
        };
        let mut lens: Vec<usize> = (base.len()..8300).collect();
        for e in 13..18 {
            lens.extend((1usize << e) - 3..(1 << e) + 4);
        }
        let f = dir.join("files").join("length.x");
        for (i, l) in lens.into_iter().enumerate() {
            if i % shards != shard || l < base.len() || ctx.violated() {
                continue;
            }
            let t = file(1 + l - base.len());
            let want = p_gen::generate(&t, &m);
            if std::fs::write(&f, &t).is_err() {
                return ctx.inconclusive("the scratch file cannot be written");
            }
            let a = args(&m, &f.display().to_string(), r);
            ctx.eval();
            ctx.distinct(hash(t.as_bytes()));
            match c.run(c.command(&a)) {
                Ran::Done(o) => {
                    if let Some(w) = wrong(&o, &want) {
                        return ctx.violation(&format!("{a:?} (a constant whose name has {} letters, for an output of {l} bytes): {w}", 1 + l - base.len()));
                    }
                    if want.is_ok_and(|w| w.len() == l) {
                        ctx.count("lengths of the output");
                    }
                }
                Ran::Hangs => return ctx.violation("a long name: the command does not end"),
                Ran::Failed(e) => return ctx.inconclusive(&e),
            }
        }
        let _ = std::fs::remove_file(&f);
    });
    ctx.cases(4, 60, |ctx, r| {
        let mut t = String::new();
        let n = 200 + r.usize(1200);
        // Comments of up to 2 MiB.
        let pad = *r.pick(&[0usize, 10, 5000, 14_000, 27_000]);
        for i in 0..n {
            t.push_str(&format!("struct s{i} {{ int a; opaque b<{i}>; }};\n"));
            if i == n / 2 && pad > 0 {
                t.push_str("/*");
                t.push_str(&" x".repeat(pad * 40));
                t.push_str("*/\n");
            }
        }
        let f = dir.join("files").join("large.x");
        if std::fs::write(&f, &t).is_err() {
            return ctx.inconclusive("the scratch file cannot be written");
        }
        ctx.note(|| format!("{n} structures, {} bytes", t.len()));
        let m = *r.pick(&modes::all_flags());
        let a = args(&m, &f.display().to_string(), r);
        let want = p_gen::generate(&t, &m);
        ctx.eval();
        ctx.max("bytes of the largest file", t.len() as u64);
        match c.run(c.command(&a)) {
            Ran::Done(o) => {
                if let Some(w) = wrong(&o, &want) {
                    return ctx.violation(&format!("{a:?} ({n} structures, {} bytes): {w}", t.len()));
                }
            }
            Ran::Hangs => return ctx.violation("a large file: the command does not end"),
            Ran::Failed(e) => return ctx.inconclusive(&e),
        }
        // A full device: what was not printed must not be reported as printed.
        let mut cmd = c.command(&a);
        if let Ok(full) = std::fs::OpenOptions::new().write(true).open("/dev/full") {
            cmd.stdout(full);
            match c.run(cmd) {
                Ran::Done(o) => {
                    ctx.count("runs with a full output device");
                    if want.is_ok() && o.status.code() == Some(0) {
                        return ctx.violation(&format!("{a:?}: exits with status 0 although nothing could be written"));
                    }
                }
                Ran::Hangs => return ctx.violation("a full device: the command does not end"),
                Ran::Failed(e) => return ctx.inconclusive(&e),
            }
        }
        let _ = std::fs::remove_file(&f);
    });
    let _ = std::fs::remove_dir_all(&dir);
}

fn diff(a: &[(PathBuf, String, Vec<u8>)], b: &[(PathBuf, String, Vec<u8>)]) -> Vec<String> {
    let s = |x: &(PathBuf, String, Vec<u8>)| format!("{} {} ({} bytes)", x.0.display(), x.1, x.2.len());
    a.iter().filter(|x| !b.contains(x)).map(|x| format!("-{}", s(x))).chain(b.iter().filter(|x| !a.contains(x)).map(|x| format!("+{}", s(x)))).collect()
}

pub const G10: Spec = Spec {
    prop: "G10",
    rule: "the command is built from the tree and run as a process on files (meaningful, malformed, unsupported, odd names, links, very large, and with outputs of every length up to 8300 bytes) with every combination of flags in random order, and on paths and arguments that cannot work (missing, folders, invalid UTF-8, unreadable, links that lead nowhere); exit status, standard output and standard error are compared with what the library gives for the mode the flags select, and the folder with what it was before; distinct by arguments and text",
    assumptions: &["files written outside the scratch folders (working directory, home, temporary files, input files) would not be seen"],
    must_observe: &["runs on accepted files", "runs on malformed files", "runs on unsupported files", "runs on a pipe", "folders unchanged", "runs: missing file", "runs: invalid UTF-8", "runs: folder", "runs with a full output device", "lengths of the output", "files within something else"],
    worker: g10,
    as_limit_kib: 0,
    shards: 8,
    hang_cpu_s: 60,
};
