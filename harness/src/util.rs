//! Running the real binary, file system snapshots, parallel exploration, reporting.
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub property: String,
    pub thorough: bool,
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub scratch: PathBuf,
    pub out: PathBuf,
    pub start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub spawned: AtomicU64,
    pub samples: Mutex<Vec<String>>,
    pub notes: Mutex<BTreeMap<String, serde_json::Value>>,
    pub violations: Mutex<Vec<Violation>>,
    pub known: Mutex<BTreeMap<String, (u64, String)>>,
    pub known_listed: Vec<(String, String, String)>,
    pub stop: AtomicBool,
    next_dir: AtomicUsize,
}

pub struct Violation {
    pub what: String,
    pub replay: String,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub code: i32, // -1: killed by a signal, -2: timeout
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Out {
    pub fn so(&self) -> String {
        String::from_utf8_lossy(&self.stdout).to_string()
    }
    pub fn se(&self) -> String {
        String::from_utf8_lossy(&self.stderr).to_string()
    }
    /// Rust panics exit with 101; signals and timeouts are crashes and hangs
    pub fn crashed(&self) -> bool {
        self.code < 0 || self.code == 101 || self.code > 128
    }
    pub fn plain(&self) -> String {
        strip_ansi(&self.so())
    }
}

pub fn strip_ansi(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            for d in it.by_ref() {
                if d == 'm' {
                    break;
                }
            }
        } else {
            r.push(c)
        }
    }
    r
}

pub const MAX_VIOLATIONS: usize = 5;

impl Ctx {
    pub fn new() -> Ctx {
        let env = |k: &str| std::env::var(k).unwrap_or_else(|_| panic!("{k} is not set"));
        let known_listed = std::fs::read_to_string(env("TV_KNOWN"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
            .filter(|v| v["status"] == "known")
            .map(|v| {
                (
                    v["property"].as_str().unwrap_or("").to_string(),
                    v["id"].as_str().unwrap_or("").to_string(),
                    v["what"].as_str().unwrap_or("").to_string(),
                )
            })
            .collect();
        Ctx {
            property: env("TV_PROPERTY"),
            thorough: env("TV_TIER") == "thorough",
            bin: env("TV_BIN").into(),
            shim: env("TV_SHIM").into(),
            scratch: env("TV_SCRATCH").into(),
            out: env("TV_OUT").into(),
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            spawned: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            notes: Mutex::new(BTreeMap::new()),
            violations: Mutex::new(vec![]),
            known: Mutex::new(BTreeMap::new()),
            known_listed,
            stop: AtomicBool::new(false),
            next_dir: AtomicUsize::new(0),
        }
    }

    pub fn state(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn transition(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            let mut s: String = s.into();
            if s.len() > 600 {
                let mut e = 600;
                while !s.is_char_boundary(e) {
                    e -= 1
                }
                s.truncate(e);
            }
            v.push(s)
        }
    }
    pub fn note(&self, k: &str, v: impl Into<serde_json::Value>) {
        self.notes.lock().unwrap().insert(k.to_string(), v.into());
    }
    pub fn note_add(&self, k: &str, n: u64) {
        let mut m = self.notes.lock().unwrap();
        let e = m.entry(k.to_string()).or_insert(serde_json::Value::from(0u64));
        *e = serde_json::Value::from(e.as_u64().unwrap_or(0) + n);
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn violation(&self, what: impl Into<String>, replay: impl Into<String>) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < MAX_VIOLATIONS {
            v.push(Violation { what: what.into(), replay: replay.into() });
        }
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    /// A violation of a listed finding: counted, not raised. Not listed: raised.
    pub fn known_or_violation(&self, id: &str, what: String, replay: impl FnOnce() -> String) {
        if self.known_listed.iter().any(|(p, i, _)| *p == self.property && i == id) {
            let mut k = self.known.lock().unwrap();
            let e = k.entry(id.to_string()).or_insert((0, what));
            e.0 += 1;
        } else {
            self.violation(what, replay())
        }
    }

    pub fn dir(&self) -> Scratch {
        let p = self.scratch.join(format!("d{}", self.next_dir.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }

    pub fn run(&self, args: &[&str], stdin: &[u8], cwd: &Path) -> Out {
        self.run_env(args, stdin, cwd, &[])
    }

    pub fn run_env(&self, args: &[&str], stdin: &[u8], cwd: &Path, env: &[(&str, &str)]) -> Out {
        self.spawned.fetch_add(1, Ordering::Relaxed);
        let mut c = Command::new(&self.bin);
        c.args(args).current_dir(cwd).env_clear();
        for (k, v) in env {
            c.env(k, v);
        }
        run_command(c, stdin, Duration::from_secs(40))
    }

    pub fn finish(&self, exhaustive: bool) {
        let v = self.violations.lock().unwrap();
        let known = self.known.lock().unwrap();
        let mut cov = serde_json::Map::new();
        let ld = |a: &AtomicU64| a.load(Ordering::Relaxed);
        cov.insert("states".into(), ld(&self.states).into());
        cov.insert("transitions".into(), ld(&self.transitions).into());
        cov.insert("traces_validated_against_impl".into(), ld(&self.traces).into());
        cov.insert("impl_processes_run".into(), ld(&self.spawned).into());
        cov.insert("exhaustive".into(), (exhaustive && !self.stopped()).into());
        for (k, x) in self.notes.lock().unwrap().iter() {
            cov.insert(k.clone(), x.clone());
        }
        cov.insert("samples".into(), self.samples.lock().unwrap().clone().into());
        cov.insert(
            "known_findings_seen".into(),
            known.iter().map(|(k, (n, w))| serde_json::json!({"id": k, "count": n, "first": w})).collect::<Vec<_>>().into(),
        );
        let result = serde_json::json!({
            "coverage": cov,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": v.iter().map(|x| serde_json::json!({"what": x.what, "replay": x.replay})).collect::<Vec<_>>(),
            "known": known.iter().map(|(k, (n, w))| {
                let t = self.known_listed.iter().find(|(p, i, _)| *p == self.property && i == k).map(|x| x.2.clone()).unwrap_or_default();
                serde_json::json!({"id": k, "count": n, "first": w, "what": t})
            }).collect::<Vec<_>>(),
        });
        std::fs::write(&self.out, serde_json::to_string_pretty(&result).unwrap()).unwrap();
    }
}

pub fn run_command(mut c: Command, stdin: &[u8], timeout: Duration) -> Out {
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut child = match c.spawn() {
        Ok(x) => x,
        Err(e) => panic!("machinery: cannot start {:?}: {e}", c.get_program()),
    };
    bound(child.id());
    {
        let mut i = child.stdin.take().unwrap();
        let _ = i.write_all(stdin);
    }
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let pid = child.id() as i32;
    let done = std::sync::Arc::new(AtomicBool::new(false));
    let timed_out = std::sync::Arc::new(AtomicBool::new(false));
    watchdog(pid, done.clone(), timed_out.clone(), timeout);
    // stderr is short (error messages), it always fits the pipe buffer
    let mut a = vec![];
    let _ = (&mut so).take(OUTPUT_LIMIT).read_to_end(&mut a);
    let mut b = vec![];
    if a.len() as u64 == OUTPUT_LIMIT {
        let _ = child.kill();
    }
    let _ = (&mut se).take(OUTPUT_LIMIT).read_to_end(&mut b);
    let st = child.wait().unwrap();
    done.store(true, Ordering::SeqCst);
    let code = if timed_out.load(Ordering::SeqCst) { -2 } else { st.code().unwrap_or(-1) };
    Out { code, stdout: a, stderr: b }
}

const OUTPUT_LIMIT: u64 = 256 << 20;

/// A process that wants endless memory or writes an endless file ends with an error before the sandbox does
pub fn bound(pid: u32) {
    extern "C" {
        fn prlimit(pid: i32, resource: i32, new: *const [u64; 2], old: *mut [u64; 2]) -> i32;
    }
    const AS: i32 = 9;
    const FSIZE: i32 = 1;
    for (r, n) in [(AS, 2u64 << 30), (FSIZE, 256 << 20)] {
        unsafe { prlimit(pid as i32, r, &[n, n], std::ptr::null_mut()) };
    }
}

type Watch = (i32, std::sync::Arc<AtomicBool>, std::sync::Arc<AtomicBool>, Instant);
static WATCHED: Mutex<Vec<Watch>> = Mutex::new(Vec::new());
static WATCHDOG: std::sync::Once = std::sync::Once::new();

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

fn watchdog(pid: i32, done: std::sync::Arc<AtomicBool>, to: std::sync::Arc<AtomicBool>, t: Duration) {
    WATCHDOG.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            let mut w = WATCHED.lock().unwrap();
            w.retain(|x| !x.1.load(Ordering::SeqCst));
            for x in w.iter() {
                if Instant::now() > x.3 && !x.1.load(Ordering::SeqCst) {
                    x.2.store(true, Ordering::SeqCst);
                    unsafe { kill(x.0, 9) };
                }
            }
        });
    });
    WATCHED.lock().unwrap().push((pid, done, to, Instant::now() + t));
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn p(&self, s: &str) -> PathBuf {
        self.0.join(s)
    }
    pub fn write(&self, s: &str, b: impl AsRef<[u8]>) {
        std::fs::write(self.0.join(s), b).unwrap()
    }
    pub fn read(&self, s: &str) -> Option<Vec<u8>> {
        std::fs::read(self.0.join(s)).ok()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Node {
    File(Vec<u8>),
    Dir,
    Link(String),
}
pub type Fs = BTreeMap<String, Node>;

pub fn snapshot(root: &Path) -> Fs {
    fn go(root: &Path, rel: &str, m: &mut Fs) {
        let d = if rel.is_empty() { root.to_path_buf() } else { root.join(rel) };
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                let r = if rel.is_empty() { n } else { format!("{rel}/{n}") };
                let t = match e.file_type() {
                    Ok(t) => t,
                    Err(_) => continue,
                };
                if t.is_symlink() {
                    let l = std::fs::read_link(e.path()).map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
                    m.insert(r, Node::Link(l));
                } else if t.is_dir() {
                    m.insert(r.clone(), Node::Dir);
                    go(root, &r, m);
                } else {
                    m.insert(r, Node::File(std::fs::read(e.path()).unwrap_or_default()));
                }
            }
        }
    }
    let mut m = Fs::new();
    go(root, "", &mut m);
    m
}

pub fn materialize(root: &Path, fs: &Fs) {
    // BTreeMap order puts directories before their content
    for (k, v) in fs {
        let p = root.join(k);
        match v {
            Node::Dir => std::fs::create_dir_all(&p).unwrap(),
            Node::File(b) => std::fs::write(&p, b).unwrap(),
            Node::Link(t) => std::os::unix::fs::symlink(t, &p).unwrap(),
        }
    }
}

pub fn diff(a: &Fs, b: &Fs) -> String {
    let mut s = String::new();
    for (k, v) in a {
        match b.get(k) {
            None => s += &format!("- {k} ({})\n", show(v)),
            Some(w) if w != v => s += &format!("~ {k}: {} -> {}\n", show(v), show(w)),
            _ => {}
        }
    }
    for (k, v) in b {
        if !a.contains_key(k) {
            s += &format!("+ {k} ({})\n", show(v))
        }
    }
    s
}
fn show(n: &Node) -> String {
    match n {
        Node::Dir => "directory".into(),
        Node::Link(t) => format!("link to {t}"),
        Node::File(b) => format!("{} bytes {}", b.len(), brief(b)),
    }
}
pub fn brief(b: &[u8]) -> String {
    if b.len() > 4000 {
        return format!("{}...", hex(&b[..64]));
    }
    match std::str::from_utf8(b) {
        Ok(s) if !s.chars().any(|c| c.is_control() && c != '\n') => format!("{:?}", s),
        _ => hex(b),
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(" ")
}

fn b64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(T[(n >> (18 - 6 * i)) as usize & 63] as char)
            } else {
                s.push('=')
            }
        }
    }
    s
}

pub fn shq(s: &str) -> String {
    format!("'{}'", s.replace('\'', "'\\''"))
}

/// A replay script: usage `sh replay.sh /path/to/ti-tools`, works in a temporary directory it creates
pub struct Replay(String);
impl Replay {
    pub fn new(what: &str) -> Replay {
        let mut s = String::from("#!/bin/sh\n# usage: sh THIS [path to ti-tools]; works in a directory it creates\n");
        for l in what.lines().take(60) {
            s += &format!("# {l}\n");
        }
        s += "B=${1:-/repo/target/debug/ti-tools}; D=$(mktemp -d); cd \"$D\" || exit 2; echo \"working in $D\"\n";
        Replay(s)
    }
    pub fn file(mut self, name: &str, b: &[u8]) -> Replay {
        self.0 += &format!("base64 -d > {} <<'END'\n{}\nEND\n", shq(name), b64(b));
        self
    }
    pub fn fs(mut self, fs: &Fs) -> Replay {
        for (k, v) in fs {
            match v {
                Node::Dir => self.0 += &format!("mkdir -p {}\n", shq(k)),
                Node::Link(t) => self.0 += &format!("ln -s {} {}\n", shq(t), shq(k)),
                Node::File(b) => self = self.file(k, b),
            }
        }
        self
    }
    pub fn cmd(mut self, args: &[&str], stdin: &[u8]) -> Replay {
        let a = args.iter().map(|x| shq(x)).collect::<Vec<_>>().join(" ");
        self.0 += &format!(
            "echo {}; printf %s {} | \"$B\" {a}; echo \"exit status $?\"\n",
            shq(&format!("+ ti-tools {}", args.join(" "))),
            shq(&String::from_utf8_lossy(stdin)),
        );
        self
    }
    pub fn raw(mut self, s: &str) -> Replay {
        self.0 += s;
        self.0.push('\n');
        self
    }
    pub fn end(mut self) -> String {
        self.0 += "ls -la; for f in *; do echo \"== $f\"; od -An -tx1c \"$f\" 2>/dev/null | head -40; done\n";
        self.0
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).max(2)
}

/// Every item is processed by exactly one worker; stops early only when the violation limit was reached
pub fn par<T: Sync>(ctx: &Ctx, items: &[T], f: impl Fn(&T) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= items.len() || ctx.stopped() {
                    return;
                }
                f(&items[i])
            });
        }
    });
}

pub fn par_map<T: Sync, R: Send>(ctx: &Ctx, items: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<Option<R>> {
    let res: Mutex<Vec<Option<R>>> = Mutex::new((0..items.len()).map(|_| None).collect());
    let idx: Vec<usize> = (0..items.len()).collect();
    par(ctx, &idx, |&i| {
        let r = f(&items[i]);
        res.lock().unwrap()[i] = Some(r);
    });
    res.into_inner().unwrap()
}

/// Breadth-first search over states of the reference model, with a deterministic order of exploration.
/// `succ` returns the successors of a state (it runs the implementation and reports violations itself).
pub fn bfs<S: Clone + Eq + std::hash::Hash + Sync + Send>(
    ctx: &Ctx,
    initial: Vec<S>,
    max_depth: usize,
    max_states: usize,
    succ: impl Fn(&S) -> Vec<S> + Sync,
) -> (usize, usize, bool) {
    let mut seen: std::collections::HashSet<S> = std::collections::HashSet::new();
    let mut level: Vec<S> = vec![];
    for s in initial {
        if seen.insert(s.clone()) {
            level.push(s)
        }
    }
    let mut depth = 0;
    let mut closed = true;
    while !level.is_empty() && !ctx.stopped() {
        if depth >= max_depth || seen.len() > max_states {
            closed = false;
            break;
        }
        let next = par_map(ctx, &level, |s| succ(s));
        let mut nl = vec![];
        for s in next.into_iter().flatten().flatten() {
            if seen.insert(s.clone()) {
                nl.push(s)
            }
        }
        level = nl;
        depth += 1;
    }
    ctx.state(seen.len() as u64);
    (seen.len(), depth, closed)
}
