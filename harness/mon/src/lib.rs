//! Shared machinery of the monitors: reproducible randomness, the supervisor that runs
//! the real code in worker processes, crash attribution, counters and evidence.
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub mod dict;
pub mod rng;
pub use rng::Rng;

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()))
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|v| v.parse::<i64>().ok())
        .map(|v| v as u64)
        .unwrap_or(1)
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|v| v == "thorough").unwrap_or(false)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

/// Hex, shortened for messages.
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 512 {
        hex(b)
    } else {
        format!("{}..({} bytes)..{}", hex(&b[..256]), b.len(), hex(&b[b.len() - 64..]))
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// One line, escaped so that the parent can read it back.
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}...", &s[..k])
}

/// State of one worker.
pub struct Ctx {
    pub shard: u64,
    pub nshards: u64,
    pub seed: u64,
    pub thorough: bool,
    only: Option<u64>,
    progress: Option<fs::File>,
    case: u64,
    nth: u64,
    evals: u64,
    distinct: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    maxes: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: u64,
    case_note: String,
    verbose: bool,
    t0: Instant,
    budget: Duration,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_quiet_panic_hook() {
    panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs `f`; a panic becomes `Err(message)`.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

impl Ctx {
    /// Runs `n` cases (scaled in the thorough tier), each with its own generator state.
    pub fn cases(&mut self, quick: u64, thorough: u64, mut f: impl FnMut(&mut Ctx, &mut Rng)) {
        let n = if self.thorough { thorough } else { quick };
        let base = self.case;
        for i in 0..n {
            self.case = base + i + 1;
            self.nth = i;
            if let Some(o) = self.only {
                if o != self.case {
                    continue;
                }
            }
            if self.violations >= 3 || self.t0.elapsed() > self.budget {
                break;
            }
            if let Some(p) = &self.progress {
                let _ = p.write_at(&self.case.to_le_bytes(), 0);
            }
            let mut rng = Rng::new(self.seed ^ 0x9e3779b97f4a7c15u64.wrapping_mul(self.shard + 1), self.case);
            self.case_note.clear();
            let r = catch(|| f(self, &mut rng));
            if let Err(m) = r {
                let note = self.case_note.clone();
                let at = m.rsplit(" at ").next().unwrap_or("");
                if ["codec/src/", "idl/src/", "mon/src/"].iter().any(|p| at.starts_with(p)) {
                    // The monitor itself failed: no verdict.
                    self.inconclusive(&format!("monitor panicked: {m}\ncase: {note}"));
                } else {
                    self.violation(&format!("panicked: {m}\ncase: {note}"));
                }
            }
        }
        self.case = base + n;
    }

    /// The index of the current case within its group.
    pub fn nth(&self) -> u64 {
        self.nth
    }

    /// Describes the current case (kept for panics, crashes and replays).
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        // Descriptions are only built when they are wanted: on replay.
        if self.verbose {
            self.case_note = s();
            eprintln!("NOTE {}", self.case_note);
        }
    }

    pub fn note_str(&mut self, s: &str) {
        self.case_note.clear();
        self.case_note.push_str(s);
        if self.verbose {
            eprintln!("NOTE {s}");
        }
    }

    pub fn violation(&mut self, msg: &str) {
        self.violations += 1;
        println!("VIOL {} {}", self.case, esc(&trunc(msg, 20000)));
        let _ = std::io::stdout().flush();
    }

    pub fn known(&mut self, msg: &str) {
        println!("KNOWN {}", esc(msg));
    }

    /// A check that could not be carried out (never a verdict).
    pub fn inconclusive(&mut self, msg: &str) {
        println!("INCON {}", esc(&trunc(msg, 4000)));
        let _ = std::io::stdout().flush();
    }

    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    pub fn distinct(&mut self, h: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let v = self.maxes.entry(k.to_string()).or_insert(0);
        *v = (*v).max(n);
    }
    pub fn want_sample(&self) -> bool {
        self.samples.len() < 3
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = s();
            self.samples.push(trunc(&s, 1500));
        }
    }
    pub fn violated(&self) -> bool {
        self.violations > 0
    }

    fn finish(self) {
        let pre = std::env::var("MON_PREFIX").unwrap_or_else(|_| if cfg!(miri) { "miri: ".into() } else { String::new() });
        println!("EVALS {}", self.evals);
        for (k, v) in &self.counts {
            println!("COUNT {v} {pre}{k}");
        }
        for (k, v) in &self.maxes {
            println!("MAX {v} {pre}{k}");
        }
        for s in &self.samples {
            println!("SAMPLE {}", esc(s));
        }
        let mut buf = Vec::with_capacity(self.distinct.len() * 8);
        for h in &self.distinct {
            buf.extend_from_slice(&h.to_le_bytes());
        }
        if let Ok(p) = std::env::var("MON_DISTINCT") {
            let _ = fs::write(p, buf);
        } else {
            println!("DISTINCT {}", self.distinct.len());
        }
        println!("DONE");
    }
}

pub struct Spec {
    pub prop: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Counters that must be non-zero for the run to mean anything.
    pub must_observe: &'static [&'static str],
    pub worker: fn(&mut Ctx),
    /// Address-space limit of a worker in KiB (0: none).
    pub as_limit_kib: u64,
    pub shards: u64,
    /// A case that burns this much CPU time is reported as one that does not terminate.
    pub hang_cpu_s: u64,
}

#[derive(Default)]
pub struct Totals {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub distinct_n: u64,
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<String>,
    pub known: Vec<String>,
    pub incon: Vec<String>,
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn spawn(spec: &Spec, shard: u64, only: Option<u64>, dir: &Path) -> std::io::Result<std::process::Child> {
    let exe = std::env::current_exe()?;
    let mut c = Command::new("sh");
    // An extra worker: the same monitor under another tool (Miri), as a shell command.
    if shard >= spec.shards {
        c.arg("-c").arg(std::env::var("MON_EXTRA_CMD").unwrap());
        c.process_group(0);
        envs(&mut c, spec, shard, only, dir);
        return c.spawn();
    }
    let lim = if spec.as_limit_kib > 0 {
        format!("ulimit -v {}; ", spec.as_limit_kib)
    } else {
        String::new()
    };
    c.arg("-c").arg(format!("ulimit -c 0; {lim}exec \"$0\" \"$@\"")).arg(exe);
    // Leaks are looked for in the workers only, not in this process.
    if let Ok(o) = std::env::var("ASAN_OPTIONS") {
        c.env("ASAN_OPTIONS", o.replace("detect_leaks=0", "detect_leaks=1"));
    }
    for a in std::env::args().skip(1) {
        c.arg(a);
    }
    envs(&mut c, spec, shard, only, dir);
    c.spawn()
}

fn envs(c: &mut Command, spec: &Spec, shard: u64, only: Option<u64>, dir: &Path) {
    c.env("MON_SHARD", shard.to_string())
        .env("MON_NSHARDS", spec.shards.to_string())
        .env("MON_PROGRESS", dir.join(format!("progress{shard}")))
        .env("MON_DISTINCT", dir.join(format!("distinct{shard}")))
        .env("MON_DIR", dir);
    if let Some(o) = only {
        c.env("MON_ONLY", o.to_string());
    }
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
}

struct Out {
    shard: u64,
    done: bool,
    status: Option<std::process::ExitStatus>,
    hung: bool,
    timeout: bool,
    lines: Vec<String>,
    stderr: String,
    last_case: u64,
}

fn run_one(spec: &Spec, shard: u64, only: Option<u64>, dir: &Path, deadline: Instant) -> Out {
    let prog = dir.join(format!("progress{shard}"));
    let _ = fs::write(&prog, [0u8; 8]);
    let mut child = spawn(spec, shard, only, dir).expect("spawn worker");
    let so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let h1 = std::thread::spawn(move || {
        let mut v = vec![];
        for l in BufReader::new(so).split(b'\n') {
            match l {
                Ok(l) => v.push(String::from_utf8_lossy(&l).to_string()),
                Err(_) => break,
            }
        }
        v
    });
    let h2 = std::thread::spawn(move || {
        let mut b = vec![];
        let mut chunk = [0u8; 65536];
        while let Ok(n) = se.read(&mut chunk) {
            if n == 0 {
                break;
            }
            if b.len() < 4_000_000 {
                b.extend_from_slice(&chunk[..n]);
            }
        }
        String::from_utf8_lossy(&b).to_string()
    });
    let rd = || -> u64 {
        let mut b = [0u8; 8];
        if let Ok(f) = fs::File::open(&prog) {
            let _ = f.read_at(&mut b, 0);
        }
        u64::from_le_bytes(b)
    };
    let mut last = (0u64, 0u64);
    let mut hung = false;
    let mut timeout = false;
    let status = loop {
        if let Ok(Some(s)) = child.try_wait() {
            break Some(s);
        }
        let case = rd();
        let t = cpu_ticks(child.id()).unwrap_or(0);
        if case != last.0 {
            last = (case, t);
        } else if case != 0 && spec.hang_cpu_s > 0 && shard < spec.shards && t.saturating_sub(last.1) > spec.hang_cpu_s * 100 {
            hung = true;
            let _ = child.kill();
            break child.wait().ok();
        }
        if Instant::now() > deadline {
            timeout = true;
            let _ = child.kill();
            break child.wait().ok();
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let lines = h1.join().unwrap();
    let stderr = h2.join().unwrap();
    Out {
        shard,
        done: lines.iter().any(|l| l == "DONE"),
        status,
        hung,
        timeout,
        lines,
        stderr,
        last_case: rd(),
    }
}

fn merge(t: &mut Totals, o: &Out, dir: &Path) {
    for l in &o.lines {
        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "EVALS" => t.evals += r.parse::<u64>().unwrap_or(0),
            "DISTINCT" => t.distinct_n += r.parse::<u64>().unwrap_or(0),
            "COUNT" => {
                if let Some((n, k)) = r.split_once(' ') {
                    *t.counts.entry(k.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                }
            }
            "MAX" => {
                if let Some((n, k)) = r.split_once(' ') {
                    let v = t.maxes.entry(k.to_string()).or_insert(0);
                    *v = (*v).max(n.parse::<u64>().unwrap_or(0));
                }
            }
            "SAMPLE" => {
                if t.samples.len() < 12 {
                    t.samples.push(unesc(r));
                }
            }
            "KNOWN" => {
                let m = unesc(r);
                if !t.known.contains(&m) {
                    t.known.push(m);
                }
            }
            "INCON" => t.incon.push(unesc(r)),
            "VIOL" => {
                let (case, m) = r.split_once(' ').unwrap_or(("0", r));
                t.violations.push(format!("shard {} case {case}\n{}", o.shard, unesc(m)));
            }
            _ => {}
        }
    }
    if let Ok(b) = fs::read(dir.join(format!("distinct{}", o.shard))) {
        for c in b.chunks_exact(8) {
            t.distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

/// Entry point of every monitor binary.
pub fn supervise(spec: Spec) -> ! {
    if let Ok(s) = std::env::var("MON_SHARD") {
        worker_main(spec, s.parse().unwrap());
    }
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(if thorough() { 840 } else { 600 });
    let dir = scratch(spec.prop);
    let mut t = Totals::default();
    let outs: Vec<Out> = std::thread::scope(|s| {
        let extra = std::env::var("MON_EXTRA_N").ok().and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
        let hs: Vec<_> = (0..spec.shards + extra)
            .map(|i| {
                let (spec, dir) = (&spec, &dir);
                s.spawn(move || run_one(spec, i, None, dir, deadline))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for o in &outs {
        merge(&mut t, o, &dir);
    }
    for o in &outs {
        if o.done {
            // Found at exit: a leak reported by the sanitizer.
            if !o.status.map(|s| s.success()).unwrap_or(false) {
                if o.stderr.contains("detected memory leaks") {
                    t.violations.push(format!("shard {}: leak\n{}", o.shard, trunc(&o.stderr, 6000)));
                } else {
                    t.incon.push(format!("shard {}: {} after the last case\n{}", o.shard, describe(o), trunc(&o.stderr, 3000)));
                }
            }
            continue;
        }
        // The worker died inside a case: run that case again, alone, and describe it.
        let how = describe(o);
        if o.timeout {
            t.incon.push(format!("shard {}: {how}", o.shard));
            continue;
        }
        if o.last_case == 0 {
            t.incon.push(format!("shard {}: {how} before any case\n{}", o.shard, trunc(&o.stderr, 3000)));
            continue;
        }
        let again = run_one(&spec, o.shard, Some(o.last_case), &dir, deadline.max(Instant::now() + Duration::from_secs(120)));
        let note = again
            .stderr
            .lines()
            .filter(|l| !l.starts_with("NOTE ") || true)
            .collect::<Vec<_>>()
            .join("\n");
        if again.done && !again.lines.iter().any(|l| l.starts_with("VIOL ")) {
            // Not reproducible alone: killed from outside (memory), or history dependent.
            let sig = o.status.and_then(|s| s.signal());
            if sig == Some(9) {
                t.incon.push(format!("shard {}: killed from outside at case {}", o.shard, o.last_case));
            } else {
                t.violations.push(format!(
                    "shard {} case {}: {how} (after the cases before it)\n{}",
                    o.shard, o.last_case, trunc(&o.stderr, 6000)
                ));
            }
        } else {
            t.violations.push(format!(
                "shard {} case {}: {how}; reproduced alone: {}\n{}",
                o.shard, o.last_case, describe(&again), trunc(&note, 12000)
            ));
        }
    }
    let _ = fs::remove_dir_all(&dir);
    conclude(&spec, t, t0.elapsed().as_secs_f64())
}

fn describe(o: &Out) -> String {
    if o.hung {
        return "did not terminate within its CPU budget".to_string();
    }
    if o.timeout {
        return "ran out of wall-clock time".to_string();
    }
    match o.status {
        Some(s) => match s.signal() {
            Some(n) => format!("crashed with signal {n}"),
            None => format!("exited with status {:?}", s.code()),
        },
        None => "unknown end".to_string(),
    }
}

pub fn scratch(prop: &str) -> PathBuf {
    let base = std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".to_string());
    let d = PathBuf::from(base).join(format!("mon-{prop}-{}", std::process::id()));
    fs::create_dir_all(&d).expect("scratch directory");
    d
}

/// Writes the evidence file, prints the verdict and exits.
pub fn conclude(spec: &Spec, mut t: Totals, wall: f64) -> ! {
    let v = verif_dir();
    let _ = fs::create_dir_all(v.join("evidence"));
    let distinct = t.distinct.len() as u64 + t.distinct_n;
    for k in spec.must_observe {
        if t.violations.is_empty() && t.counts.get(*k).copied().unwrap_or(0) == 0 {
            t.incon.push(format!("nothing observed for '{k}'"));
        }
    }
    let mut j = String::from("{");
    j.push_str(&format!("\"property\":{},", jstr(spec.prop)));
    j.push_str(&format!("\"tier\":\"{}\",", if thorough() { "thorough" } else { "quick" }));
    j.push_str(&format!("\"seed\":{},\"level\":\"exploration\",", seed() as i64));
    j.push_str(&format!(
        "\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},",
        t.evals,
        distinct,
        jstr(spec.rule)
    ));
    j.push_str("\"observed\":{");
    let mut first = true;
    for (k, n) in t.counts.iter().chain(t.maxes.iter()) {
        if !first {
            j.push(',');
        }
        first = false;
        j.push_str(&format!("{}:{n}", jstr(k)));
    }
    j.push_str("},\"samples\":[");
    j.push_str(&t.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    j.push_str("],\"known_findings\":[");
    j.push_str(&t.known.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    j.push_str("],\"inconclusive\":[");
    j.push_str(&t.incon.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    j.push_str("]},\"assumptions\":[");
    j.push_str(&spec.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    j.push_str(&format!("],\"wall_s\":{wall:.2},\"violations\":{}}}\n", t.violations.len()));
    fs::write(v.join("evidence").join(format!("{}.json", spec.prop)), j).expect("write evidence");

    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} violations, {wall:.1} s",
        spec.prop,
        t.evals,
        distinct,
        t.violations.len()
    );
    for (k, n) in t.counts.iter().chain(t.maxes.iter()) {
        println!("  {k}: {n}");
    }
    for k in &t.known {
        println!("KNOWN-FINDING: property={} {}", spec.prop, k.replace('\n', " "));
    }
    if !t.violations.is_empty() {
        let dir = v.join("evidence").join("replay");
        let _ = fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}.txt", spec.prop, seed()));
        let mut s = format!(
            "property {}\nreplay: VERIF_SEED={} VERIF_TIER={} bash /verif/check.sh {}   (one case: add MON_SHARD=<shard> MON_ONLY=<case>)\n",
            spec.prop,
            seed(),
            if thorough() { "thorough" } else { "quick" },
            spec.prop
        );
        for x in &t.violations {
            s.push_str("\n---- ");
            s.push_str(x);
            s.push('\n');
        }
        fs::write(&p, s).expect("write replay");
        for x in t.violations.iter().take(3) {
            println!("---- {}", trunc(x, 3000));
        }
        println!("VIOLATION property={} replay={}", spec.prop, p.display());
        std::process::exit(1);
    }
    if !t.incon.is_empty() {
        for x in &t.incon {
            println!("INCONCLUSIVE: {}", trunc(x, 3000));
        }
        std::process::exit(3);
    }
    std::process::exit(0);
}

fn worker_main(spec: Spec, shard: u64) -> ! {
    install_quiet_panic_hook();
    let only = std::env::var("MON_ONLY").ok().and_then(|v| v.parse().ok());
    let mut ctx = Ctx {
        shard,
        nshards: std::env::var("MON_NSHARDS").ok().and_then(|v| v.parse().ok()).unwrap_or(1),
        seed: seed(),
        thorough: thorough(),
        only,
        progress: std::env::var("MON_PROGRESS")
            .ok()
            .and_then(|p| fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).ok()),
        case: 0,
        nth: 0,
        evals: 0,
        distinct: HashSet::new(),
        counts: BTreeMap::new(),
        maxes: BTreeMap::new(),
        samples: vec![],
        violations: 0,
        case_note: String::new(),
        verbose: only.is_some(),
        t0: Instant::now(),
        budget: Duration::from_secs(
            std::env::var("MON_BUDGET_S").ok().and_then(|v| v.parse().ok()).unwrap_or(if cfg!(miri) { if thorough() { 420 } else { 28 } } else if thorough() { 480 } else { 240 }),
        ),
    };
    let r = catch(|| (spec.worker)(&mut ctx));
    if let Err(m) = r {
        // Outside any case: the harness itself is broken.
        ctx.inconclusive(&format!("monitor failed: {m}"));
    }
    ctx.finish();
    std::process::exit(0);
}

/// The entries of the known-findings file that belong to `prop` and are not repaired.
pub fn known_findings(prop: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.txt");
    let mut out = vec![];
    for l in fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={prop} id=")) {
            let (id, what) = r.split_once(' ').unwrap_or((r, ""));
            out.push((id.to_string(), what.to_string()));
        }
    }
    out
}
