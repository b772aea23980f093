//! C22: several processes under a scheduler that controls every file-system call. Explicit-state search over the global
//! states (number of calls and hash of all observations of each process, file system), every edge by a new execution.
use crate::effects::*;
use crate::files::*;
use crate::fmt::*;
use crate::spec::*;
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

extern "C" {
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn poll(p: *mut PollFd, n: u64, timeout: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
const O_CLOEXEC: i32 = 0o2000000;

struct Proc {
    child: Child,
    req: i32,
    grant: i32,
    hash: u64,
    steps: usize,
    done: bool,
    hung: bool,
}

impl Proc {
    fn start(ctx: &Ctx, args: &[String], stdin: &[u8], cwd: &std::path::Path) -> Proc {
        let (mut r, mut g) = ([0i32; 2], [0i32; 2]);
        unsafe {
            assert!(pipe2(r.as_mut_ptr(), O_CLOEXEC) == 0 && pipe2(g.as_mut_ptr(), O_CLOEXEC) == 0);
        }
        let mut c = Command::new(&ctx.bin);
        c.args(args).current_dir(cwd).env_clear();
        c.env("LD_PRELOAD", &ctx.shim).env("TV_SCHED", "990,991").env("TV_PERM", "0");
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        unsafe {
            c.pre_exec(move || {
                dup2(r[1], 990);
                dup2(g[0], 991);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("machinery: spawn");
        bound(child.id());
        ctx.spawned.fetch_add(1, Ordering::Relaxed);
        unsafe {
            close(r[1]);
            close(g[0]);
        }
        use std::io::Write;
        let _ = child.stdin.take().unwrap().write_all(stdin);
        let mut p = Proc { child, req: r[0], grant: g[1], hash: 0, steps: 0, done: false, hung: false };
        p.wait();
        p
    }
    /// until the process is at its next call or has ended
    fn wait(&mut self) {
        let mut b = [0u8; 8];
        let mut n = 0;
        while n < 8 {
            let mut p = PollFd { fd: self.req, events: 1, revents: 0 };
            let r = unsafe { poll(&mut p, 1, 30_000) };
            if r == 0 {
                self.hung = true;
                self.done = true;
                let _ = self.child.kill();
                return;
            }
            let k = unsafe { read(self.req, b[n..].as_mut_ptr().cast(), 8 - n) };
            if k <= 0 {
                self.done = true;
                return;
            }
            n += k as usize;
        }
        self.hash = u64::from_le_bytes(b);
        self.steps += 1;
    }
    fn step(&mut self) {
        unsafe { write(self.grant, b"g".as_ptr().cast(), 1) };
        self.wait();
    }
    fn end(&mut self) -> Out {
        use std::io::Read;
        let (mut a, mut b) = (vec![], vec![]);
        let _ = self.child.stdout.take().unwrap().read_to_end(&mut a);
        let _ = self.child.stderr.take().unwrap().read_to_end(&mut b);
        let st = self.child.wait().unwrap();
        Out { code: if self.hung { -2 } else { st.code().unwrap_or(-1) }, stdout: a, stderr: b }
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        unsafe {
            close(self.req);
            close(self.grant);
        }
    }
}

/// What one execution along a schedule shows
struct Exec {
    /// processes that are still running after the schedule
    enabled: Vec<usize>,
    hashes: Vec<(u64, usize)>,
    fs: Fs,
    outs: Option<Vec<Out>>,
}

/// Some processes that wait for their next calls to be granted
struct Run {
    dir: Scratch,
    ps: Vec<Proc>,
    pids: Vec<String>,
}

impl Run {
    fn start(ctx: &Ctx, fs: &Fs, procs: &[(Vec<String>, Vec<u8>)]) -> Run {
        let d = ctx.dir();
        materialize(&d.0, fs);
        let ps: Vec<Proc> = procs.iter().map(|(a, i)| Proc::start(ctx, a, i, &d.0)).collect();
        let pids = ps.iter().map(|p| p.child.id().to_string()).collect();
        Run { dir: d, ps, pids }
    }
    fn step(&mut self, name: &str, i: u8, schedule: &[u8]) {
        assert!(!self.ps[i as usize].done, "machinery: the schedule is not reproducible: {name:?} {schedule:?}");
        self.ps[i as usize].step();
    }
    fn look(&mut self, ctx: &Ctx) -> Exec {
        let enabled: Vec<usize> = (0..self.ps.len()).filter(|i| !self.ps[*i].done).collect();
        let hashes = self.ps.iter().map(|p| (p.hash, p.steps + if p.done { 1000 } else { 0 })).collect();
        let mut fs = Fs::new();
        for (k, v) in snapshot(&self.dir.0) {
            // process ids in the names of temporary files
            let mut n = k;
            for (i, p) in self.pids.iter().enumerate() {
                if n.rsplit('/').next().unwrap().starts_with('.') {
                    n = n.replace(p, &format!("<{i}>"));
                }
            }
            fs.insert(n, v);
        }
        let outs = if enabled.is_empty() { Some(self.ps.iter_mut().map(|p| p.end()).collect()) } else { None };
        ctx.transition(1);
        Exec { enabled, hashes, fs, outs }
    }
}

/// Runs a schedule and then the processes in `finish` to their ends; also the schedule that this made
fn execute_to(ctx: &Ctx, name: &str, fs: &Fs, procs: &[(Vec<String>, Vec<u8>)], schedule: &[u8], finish: &[usize]) -> (Exec, Vec<u8>) {
    let mut full = schedule.to_vec();
    let mut run = Run::start(ctx, fs, procs);
    for i in schedule {
        run.step(name, *i, schedule);
    }
    for i in finish {
        while !run.ps[*i].done && full.len() < 5000 {
            run.ps[*i].step();
            full.push(*i as u8);
        }
    }
    (run.look(ctx), full)
}

type Judge<'a> = Box<dyn Fn(&Fs, &[Out]) -> Result<(), String> + Send + Sync + 'a>;

struct Scenario<'a> {
    name: String,
    fs: Fs,
    procs: Vec<(Vec<String>, Vec<u8>)>,
    /// contents that a path may have in any intermediate state
    allowed: BTreeMap<String, Vec<Option<Node>>>,
    judge: Judge<'a>,
    /// maximal number of switches from a process that could go on; usize::MAX: all interleavings
    preemptions: usize,
}

fn replay(sc: &Scenario, schedule: &[u8], what: &str) -> String {
    replay_of(&sc.fs, &sc.procs, schedule, what)
}

fn replay_of(fs: &Fs, procs: &[(Vec<String>, Vec<u8>)], schedule: &[u8], what: &str) -> String {
    let mut r = Replay::new(what).fs(fs);
    r = r.raw(&format!("# the processes, and the order in which their file-system calls are granted: {}", schedule.iter().map(|x| x.to_string()).collect::<String>()));
    let mut py = String::from("cat > sched.py <<'END'\nimport os,subprocess,sys,struct\nB=sys.argv[1]; shim=os.environ.get('SHIM','/verif/.build/shim.so')\nP=[]\n");
    for (a, i) in procs {
        py += &format!("P.append(({:?},{:?}))\n", a, String::from_utf8_lossy(i));
    }
    py += &format!("S={:?}\n", schedule);
    py += "R=[]\nfor a,i in P:\n  r,w=os.pipe(); gr,gw=os.pipe(); os.set_inheritable(w,True); os.set_inheritable(gr,True)\n  p=subprocess.Popen([B]+a,stdin=subprocess.PIPE,pass_fds=(w,gr),env={'LD_PRELOAD':shim,'TV_SCHED':'%d,%d'%(w,gr),'TV_PERM':'0'})\n  os.close(w); os.close(gr); p.stdin.write(i.encode()); p.stdin.close(); os.read(r,8); R.append((p,r,gw))\nfor s in S:\n  p,r,g=R[s]; os.write(g,b'g'); os.read(r,8)\nfor p,r,g in R:\n  try:\n    while True:\n      os.write(g,b'g')\n      if not os.read(r,8): break\n  except BrokenPipeError: pass\n  print('exit status',p.wait())\nEND\npython3 sched.py \"$B\"; rm sched.py";
    r.raw(&py).end()
}

/// What is left to execute: of which scenario, along which schedule, with how many preemptions so far
struct Todo {
    sc: usize,
    schedule: Vec<u8>,
    pre: usize,
}

type Key = (Vec<(u64, usize)>, Fs, usize, usize);

#[derive(Default)]
struct Progress {
    seen: HashSet<Key>,
    states: usize,
    ends: u64,
    longest: usize,
    /// queued or being executed
    pending: usize,
}

/// counts down also when a thread panics
struct Active<'a>(&'a AtomicU64);
impl Drop for Active<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}

/// Explores some scenarios, the first ones first, with one queue for all of them. An execution that arrives at a new
/// state goes on with one of the processes; the other successors are queued. Returns whether all are explored.
fn explore_all(ctx: &Ctx, scs: &[Scenario], until_secs: u64) -> bool {
    use std::cmp::Reverse;
    use std::collections::BinaryHeap;
    let todo: Mutex<BinaryHeap<Reverse<(usize, usize, Vec<u8>, usize)>>> = Mutex::new(BinaryHeap::new());
    let all: Vec<Mutex<Progress>> = scs.iter().map(|_| Mutex::new(Progress { pending: 1, ..Default::default() })).collect();
    let active = AtomicU64::new(0);
    for i in 0..scs.len() {
        todo.lock().unwrap().push(Reverse((i, 0, vec![], 0)));
    }
    let over = || ctx.stopped() || ctx.start.elapsed().as_secs() > until_secs;
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                let (t, idle) = {
                    let mut q = todo.lock().unwrap();
                    let t = q.pop();
                    if t.is_some() {
                        active.fetch_add(1, Ordering::SeqCst);
                    }
                    (t, active.load(Ordering::SeqCst) == 0)
                };
                let Some(Reverse((i, _, schedule, pre))) = t else {
                    if idle {
                        return;
                    }
                    std::thread::sleep(std::time::Duration::from_micros(200));
                    continue;
                };
                let _done = Active(&active);
                if over() {
                    return;
                }
                follow(ctx, &scs[i], Todo { sc: i, schedule, pre }, &all[i], &|t: Todo| todo.lock().unwrap().push(Reverse((t.sc, t.schedule.len(), t.schedule, t.pre))));
                let mut p = all[i].lock().unwrap();
                p.pending -= 1;
                if p.pending == 0 {
                    let (sc, n) = (&scs[i], p.states);
                    p.seen = HashSet::new();
                    let bounded = sc.preemptions != usize::MAX;
                    ctx.state(n as u64);
                    ctx.sample(format!("{}: {} global states, {} distinct ends, schedules of {} calls{}", sc.name, n, p.ends, p.longest, if bounded { format!(", at most {} preemptions", sc.preemptions) } else { String::new() }));
                    ctx.note(
                        &sc.name,
                        serde_json::json!({"global states": n, "ends": p.ends, "longest schedule": p.longest, "preemption bound": if bounded { serde_json::json!(sc.preemptions) } else { serde_json::json!("none") }}),
                    );
                }
            });
        }
    });
    let open = all.iter().filter(|p| p.lock().unwrap().pending > 0).count();
    if open > 0 {
        ctx.note_add("groups not explored completely, time is over", open as u64);
    }
    open == 0
}

fn follow(ctx: &Ctx, sc: &Scenario, t: Todo, progress: &Mutex<Progress>, push: &dyn Fn(Todo)) {
    let bounded = sc.preemptions != usize::MAX;
    let (mut s, mut pre) = (t.schedule, t.pre);
    let mut run = Run::start(ctx, &sc.fs, &sc.procs);
    for i in &s {
        run.step(&sc.name, *i, &s);
    }
    loop {
        let e = run.look(ctx);
        let last = s.last().copied().unwrap_or(255) as usize;
        // with a bound the state has the number of preemptions left and who may go on without one
        let key = (e.hashes.clone(), e.fs.clone(), if bounded { pre } else { 0 }, if bounded { last } else { 0 });
        {
            let mut p = progress.lock().unwrap();
            if !p.seen.insert(key) {
                return;
            }
            p.states += 1;
            p.longest = p.longest.max(s.len());
            p.ends += e.outs.is_some() as u64;
        }
        let fail = |w: String| {
            let w = format!("{}: schedule {:?}: {w}", sc.name, s.iter().map(|x| x.to_string()).collect::<String>());
            ctx.violation(w.clone(), replay(sc, &s, &w));
        };
        for (p, allowed) in &sc.allowed {
            let got = e.fs.get(p).cloned();
            if !allowed.contains(&got) {
                fail(format!("{p} is {}", got.map(|n| if let Node::File(b) = n { brief(&b) } else { "no file".into() }).unwrap_or("absent".into())));
                return;
            }
        }
        if let Some(outs) = e.outs {
            ctx.trace(1);
            for (i, o) in outs.iter().enumerate() {
                if o.crashed() {
                    fail(format!("process {i} crashes (status {}): {}", o.code, o.se()));
                    return;
                }
            }
            if let Err(w) = (sc.judge)(&e.fs, &outs) {
                fail(w)
            }
            return;
        }
        let mut next: Vec<(u8, usize)> = e
            .enabled
            .iter()
            .filter_map(|&i| {
                let p = pre + (bounded && last != 255 && i != last && e.enabled.contains(&last)) as usize;
                if bounded && p > sc.preemptions {
                    return None;
                }
                Some((i as u8, p))
            })
            .collect();
        let (go, p) = next.remove(next.iter().position(|n| n.0 as usize == last).unwrap_or(0));
        progress.lock().unwrap().pending += next.len();
        for (i, p) in next {
            let mut n = s.clone();
            n.push(i);
            push(Todo { sc: t.sc, schedule: n, pre: p });
        }
        s.push(go);
        pre = p;
        run.step(&sc.name, go, &s);
    }
}

pub fn c22(ctx: &Ctx) {
    let ps = [Prog::new("AAA", &[0xDE, 0x2A, 0x41, 0x2A]), Prog::new("BBB", &[0x42; 30]), Prog::new("CCC", &[0x43, 0x3F, 0x43])];
    let f = |p: &Prog| file(p.bytes(false));
    let t = |p: &Prog| file(txt_of(p, ACCESSIBLE));
    let mut base = Fs::new();
    base.insert("a.8xp".into(), f(&ps[0]));
    base.insert("b.8xp".into(), f(&ps[1]));
    base.insert("c.txt".into(), t(&ps[2]));
    let edit = |e: &Edit, n: &Node| -> Node {
        match n {
            Node::File(b) => file(e.apply(b, "8xp")),
            _ => unreachable!(),
        }
    };
    let cmd = |a: &[&str], i: &[u8]| (strs(a), i.to_vec());
    let with = |fs: &Fs, l: &[(&str, Node)]| -> Fs {
        let mut f = fs.clone();
        for (k, v) in l {
            f.insert(k.to_string(), v.clone());
        }
        f
    };
    let ok = |outs: &[Out]| -> Result<(), String> {
        for (i, o) in outs.iter().enumerate() {
            if o.code != 0 {
                return Err(format!("process {i} fails (status {}): {}", o.code, o.se().trim()));
            }
            if !o.so().contains("Successfully") && !o.so().contains("model:") {
                return Err(format!("process {i} reports no success: {}", o.plain()));
            }
        }
        Ok(())
    };
    let one_of = |fs: &Fs, wants: &[Fs]| -> Result<(), String> {
        if wants.contains(fs) {
            Ok(())
        } else {
            Err(format!("unexpected files:\n{}", diff(&wants[0], fs)))
        }
    };
    let al = |l: &[(&str, &[Option<Node>])]| -> BTreeMap<String, Vec<Option<Node>>> { l.iter().map(|(k, v)| (k.to_string(), v.to_vec())).collect() };
    let all = usize::MAX;
    let mut scs: Vec<Scenario> = vec![];
    // inputs never change
    let keep = |names: &[&str]| -> BTreeMap<String, Vec<Option<Node>>> { names.iter().map(|n| (n.to_string(), vec![Some(base[*n].clone())])).collect() };
    // --- different outputs
    let want = with(&base, &[("x.txt", t(&ps[0])), ("y.txt", t(&ps[1]))]);
    scs.push(Scenario {
        name: "two conversions to different files".into(),
        fs: base.clone(),
        procs: vec![cmd(&["convert", "a.8xp", "-o", "x.txt"], b""), cmd(&["convert", "b.8xp", "-o", "y.txt"], b"")],
        allowed: { let mut m = keep(&["a.8xp", "b.8xp", "c.txt"]); m.extend(al(&[("x.txt", &[None, Some(t(&ps[0]))]), ("y.txt", &[None, Some(t(&ps[1]))])])); m },
        judge: Box::new(move |fs, outs| ok(outs).and_then(|_| one_of(fs, &[want.clone()]))),
        preemptions: all,
    });
    // --- files that differ in their extensions only, and the same text and json files
    {
        let one = |a: &[&str], o: &str| {
            let d = Case::new(&base, a, b"").run(ctx, &[]);
            d.after.get(o).cloned().unwrap_or_else(|| panic!("machinery: {a:?}: {}", d.out.se()))
        };
        let j = one(&["convert", "a.8xp", "-o", "x.json"], "x.json");
        let x = one(&["convert", "b.8xp", "-o", "x.8xp"], "x.8xp");
        let y = one(&["convert", "b.8xp", "-o", "x.txt"], "x.txt");
        let jb = one(&["convert", "b.8xp", "-o", "x.json"], "x.json");
        for (o1, n1, o2, n2) in [("x.txt", t(&ps[0]), "x.8xp", x.clone()), ("x.txt", t(&ps[0]), "x.json", jb.clone()), ("x.json", j.clone(), "x.8xp", x.clone()), ("x.txt", t(&ps[0]), "x.txt", y.clone()), ("x.json", j.clone(), "x.json", jb.clone())] {
            let mut m = keep(&["a.8xp", "b.8xp", "c.txt"]);
            m.insert(o1.into(), vec![None, Some(n1.clone())]);
            m.entry(o2.into()).or_insert(vec![None]).push(Some(n2.clone()));
            let wants = if o1 == o2 { vec![with(&base, &[(o1, n1)]), with(&base, &[(o2, n2)])] } else { vec![with(&base, &[(o1, n1), (o2, n2)])] };
            scs.push(Scenario {
                name: format!("conversions to {o1} and {o2}"),
                fs: base.clone(),
                procs: vec![cmd(&["convert", "a.8xp", "-o", o1], b"y\n"), cmd(&["convert", "b.8xp", "-o", o2], b"y\n")],
                allowed: m,
                judge: Box::new(move |fs, outs| ok(outs).and_then(|_| one_of(fs, &wants))),
                preemptions: all,
            });
        }
    }
    // --- the same output, absent and existing
    for existing in [false, true] {
        let mut fs = base.clone();
        if existing {
            fs.insert("o.8xp".into(), f(&ps[1]));
        }
        let c = {
            let mut p = ps[2].clone();
            p.comment = b"test".to_vec();
            p
        };
        // the comment of programs from txt files is this program's own: run alone once
        let alone = {
            let d = Case::new(&base, &["convert", "c.txt", "-o", "o.8xp"], b"").run(ctx, &[]);
            file(d.read("o.8xp").cloned().unwrap_or(c.bytes(false)))
        };
        let wants = [with(&base, &[("o.8xp", alone.clone())]), with(&base, &[("o.8xp", f(&ps[0]))])];
        let mut m = keep(&["a.8xp", "b.8xp", "c.txt"]);
        m.extend(al(&[("o.8xp", &[if existing { Some(f(&ps[1])) } else { None }, Some(alone), Some(f(&ps[0]))])]));
        scs.push(Scenario {
            name: format!("two conversions to the same {} file", if existing { "existing" } else { "new" }),
            fs: fs.clone(),
            procs: vec![cmd(&["convert", "c.txt", "-o", "o.8xp"], b"y\n"), cmd(&["convert", "a.8xp", "-o", "o.8xp"], b"y\n")],
            allowed: m.clone(),
            judge: Box::new({ let wants = wants.clone(); move |fs, outs| ok(outs).and_then(|_| one_of(fs, &wants)) }),
            preemptions: all,
        });
        // one of them refuses to overwrite: it only matters if the file exists when it looks
        if existing {
            let wants = [wants[0].clone()];
            let mut m = keep(&["a.8xp", "b.8xp", "c.txt"]);
            m.extend(al(&[("o.8xp", &[Some(f(&ps[1])), wants[0].get("o.8xp").cloned()])]));
            scs.push(Scenario {
                name: "one conversion to an existing file, the other one refuses".into(),
                fs,
                procs: vec![cmd(&["convert", "c.txt", "-o", "o.8xp"], b"y\n"), cmd(&["convert", "a.8xp", "-o", "o.8xp"], b"n\n")],
                allowed: m,
                judge: Box::new(move |fs, outs| ok(&outs[..1]).and_then(|_| one_of(fs, &wants))),
                preemptions: all,
            });
        }
    }
    // --- edits of the same file in place: every result is that of one of the orders, or of one edit alone
    let (e1, e2) = (Edit::Name("NEW"), Edit::Comment("new comment".into()));
    let a = &base["a.8xp"];
    let results = vec![edit(&e1, a), edit(&e2, a), edit(&e2, &edit(&e1, a)), edit(&e1, &edit(&e2, a))];
    let mut m = keep(&["b.8xp", "c.txt"]);
    m.insert("a.8xp".into(), results.iter().chain([a]).map(|n| Some(n.clone())).collect());
    let wants: Vec<Fs> = results.iter().map(|r| with(&base, &[("a.8xp", r.clone())])).collect();
    scs.push(Scenario {
        name: "two edits of the same file in place".into(),
        fs: base.clone(),
        procs: vec![cmd(&e1.args("a.8xp"), b"y\n"), cmd(&e2.args("a.8xp"), b"y\n")],
        allowed: m.clone(),
        judge: Box::new({ let wants = wants.clone(); move |fs, outs| ok(outs).and_then(|_| one_of(fs, &wants)) }),
        preemptions: all,
    });
    // --- an edit and readers of the same file
    for reader in [vec!["details", "a.8xp"], vec!["convert", "a.8xp", "-o", "x.txt"], vec!["convert", "a.8xp", "-o", "x.json"]] {
        let after = edit(&e1, a);
        let mut m = keep(&["b.8xp", "c.txt"]);
        m.insert("a.8xp".into(), vec![Some(a.clone()), Some(after.clone())]);
        let outs_of: Vec<Option<Node>> = [a, &after]
            .iter()
            .map(|n| {
                let d = Case::new(&with(&base, &[("a.8xp", (*n).clone())]), &reader, b"").run(ctx, &[]);
                reader.last().and_then(|o| if o.starts_with('x') { d.after.get(*o).cloned() } else { None })
            })
            .collect();
        let wants: Vec<Fs> = outs_of
            .iter()
            .map(|o| {
                let mut w = with(&base, &[("a.8xp", after.clone())]);
                if let Some(n) = o {
                    w.insert(reader.last().unwrap().to_string(), n.clone());
                }
                w
            })
            .collect();
        scs.push(Scenario {
            name: format!("an edit in place and {}", reader.join(" ")),
            fs: base.clone(),
            procs: vec![cmd(&e1.args("a.8xp"), b"y\n"), cmd(&reader, b"")],
            allowed: m,
            judge: Box::new(move |fs, outs| ok(outs).and_then(|_| one_of(fs, &wants))),
            preemptions: all,
        });
    }
    // --- a program that is read while it is replaced by one of another size
    let (long, short) = (Prog::new("LONG", &[0x42; 300]), Prog::new("S", &[0x43]));
    let mut sized = base.clone();
    sized.insert("long.8xp".into(), f(&long));
    sized.insert("short.8xp".into(), f(&short));
    for (from, to) in [("long.8xp", "a.txt"), ("short.8xp", "a.txt"), ("long.8xp", "a.json"), ("short.8xp", "a.json")] {
        let name = format!("{}.{}", &from[..from.len() - 4], &to[2..]);
        let d = Case::new(&sized, &["convert", from, "-o", &name, "-d", if from.starts_with('l') { "accessible" } else { "pretty" }], b"").run(ctx, &[]);
        sized.insert(name.clone(), d.after.get(&name).cloned().unwrap_or_else(|| file("")));
    }
    let replaced = [("long.8xp", "short.8xp"), ("short.8xp", "long.8xp"), ("long.txt", "short.8xp"), ("short.txt", "long.8xp"), ("long.json", "short.8xp"), ("short.json", "long.8xp")];
    for (old, new) in replaced {
        for reader in [vec!["convert", old, "-o", "x.txt"], vec!["convert", old, "-o", "x.8xp"], vec!["lock", old, "-f", "x.8xp"], vec!["details", old], vec!["convert", old, "-p"]] {
            if !old.ends_with("8xp") && !reader.contains(&"convert") {
                continue;
            }
            let a = &sized[old];
            let b = &if old.ends_with("8xp") { sized[new].clone() } else { Case::new(&sized, &["convert", new, "-o", old], b"y\n").run(ctx, &[]).after[old].clone() };
            let mut m = keep(&["a.8xp", "b.8xp", "c.txt"]);
            m.insert(old.into(), vec![Some(a.clone()), Some(b.clone())]);
            m.insert(new.into(), vec![Some(sized[new].clone())]);
            let alone: Vec<Done> = [a, b].iter().map(|n| Case::new(&with(&sized, &[(old, (*n).clone())]), &reader, b"").run(ctx, &[])).collect();
            let wants: Vec<(Fs, String)> = alone.iter().map(|d| (with(&d.after, &[(old, b.clone())]), d.out.plain())).collect();
            scs.push(Scenario {
                name: format!("{} while the file is replaced by a {} one", reader.join(" "), if old.starts_with("long") { "shorter" } else { "longer" }),
                fs: sized.clone(),
                procs: vec![cmd(&["convert", new, "-o", old], b"y\n"), cmd(&reader, b"")],
                allowed: m,
                judge: Box::new(move |fs, outs| {
                    if let Some((i, o)) = outs.iter().enumerate().find(|(_, o)| o.code != 0) {
                        return Err(format!("process {i} fails (status {}): {}", o.code, o.se().trim()));
                    }
                    if !wants.iter().any(|(w, o)| w == fs && *o == outs[1].plain()) {
                        return Err(format!("the second process saw neither the old nor the new program: {:?}\n{}", outs[1].plain(), diff(&wants[1].0, fs)));
                    }
                    Ok(())
                }),
                preemptions: all,
            });
        }
    }
    // --- moving a program away while another process writes elsewhere, and to the same place
    let locked = edit(&Edit::Lock, a);
    let mut w = with(&base, &[("n.8xp", locked.clone()), ("y.txt", t(&ps[1]))]);
    w.remove("a.8xp");
    let mut m = keep(&["b.8xp", "c.txt"]);
    m.extend(al(&[("a.8xp", &[Some(a.clone()), None]), ("n.8xp", &[None, Some(locked.clone())]), ("y.txt", &[None, Some(t(&ps[1]))])]));
    scs.push(Scenario {
        name: "an edit that deletes the old file and a conversion".into(),
        fs: base.clone(),
        procs: vec![cmd(&["lock", "a.8xp", "-f", "n.8xp", "-d"], b""), cmd(&["convert", "b.8xp", "-o", "y.txt"], b"")],
        allowed: m,
        judge: Box::new(move |fs, outs| ok(outs).and_then(|_| one_of(fs, &[w.clone()]))),
        preemptions: all,
    });
    let b = &base["b.8xp"];
    let un = edit(&Edit::Unlock, b);
    let mut gone = base.clone();
    gone.remove("a.8xp");
    gone.remove("b.8xp");
    let wants = [with(&gone, &[("n.8xp", locked.clone())]), with(&gone, &[("n.8xp", un.clone())])];
    scs.push(Scenario {
        name: "two edits to the same new file that delete their old files".into(),
        fs: base.clone(),
        procs: vec![cmd(&["lock", "a.8xp", "-f", "n.8xp", "-d"], b"y\n"), cmd(&["unlock", "b.8xp", "-f", "n.8xp", "-d"], b"y\n")],
        allowed: al(&[("a.8xp", &[Some(a.clone()), None]), ("b.8xp", &[Some(b.clone()), None]), ("n.8xp", &[None, Some(locked.clone()), Some(un.clone())])]),
        judge: Box::new(move |fs, outs| ok(outs).and_then(|_| one_of(fs, &wants))),
        preemptions: all,
    });
    // --- mass conversions
    let mut dirs = Fs::new();
    for d in ["d", "e", "o"] {
        dirs.insert(d.into(), Node::Dir);
    }
    dirs.insert("d/a.8xp".into(), f(&ps[0]));
    dirs.insert("d/b.8xp".into(), f(&ps[1]));
    dirs.insert("e/c.8xp".into(), f(&ps[2]));
    let full = with(&dirs, &[("o/AAA.txt", t(&ps[0])), ("o/BBB.txt", t(&ps[1])), ("o/CCC.txt", t(&ps[2]))]);
    let parts = al(&[("o/AAA.txt", &[None, Some(t(&ps[0]))]), ("o/BBB.txt", &[None, Some(t(&ps[1]))]), ("o/CCC.txt", &[None, Some(t(&ps[2]))])]);
    scs.push(Scenario {
        name: "two mass conversions into one directory".into(),
        fs: dirs.clone(),
        procs: vec![cmd(&["convert", "d", "-m", "-o", "o"], b""), cmd(&["convert", "e", "-m", "-o", "o"], b"")],
        allowed: parts.clone(),
        judge: Box::new({ let full = full.clone(); move |fs, outs| ok(outs).and_then(|_| one_of(fs, &[full.clone()])) }),
        preemptions: all,
    });
    // both create the output directory
    let mut without = dirs.clone();
    without.remove("o");
    scs.push(Scenario {
        name: "two mass conversions into one new directory".into(),
        fs: without,
        procs: vec![cmd(&["convert", "d", "-m", "-o", "o"], b"y\n"), cmd(&["convert", "e", "-m", "-o", "o"], b"y\n")],
        allowed: parts.clone(),
        judge: Box::new({ let full = full.clone(); move |fs, outs| ok(outs).and_then(|_| one_of(fs, &[full.clone()])) }),
        preemptions: all,
    });
    // a file appears in the directory that is converted: it is converted completely or not at all
    let fresh = with(&dirs, &[("o/AAA.txt", t(&ps[0])), ("o/BBB.txt", t(&ps[1])), ("d/new.8xp", f(&ps[2]))]);
    let wants = [fresh.clone(), with(&fresh, &[("o/CCC.txt", t(&ps[2]))])];
    let mut m = parts.clone();
    m.insert("d/new.8xp".into(), vec![None, Some(f(&ps[2]))]);
    scs.push(Scenario {
        name: "a conversion into the input directory of a mass conversion".into(),
        fs: dirs.clone(),
        procs: vec![cmd(&["convert", "d", "-m", "-o", "o"], b""), cmd(&["convert", "e/c.8xp", "-o", "d/new.8xp"], b"")],
        allowed: m,
        judge: Box::new(move |fs, outs| ok(outs).and_then(|_| one_of(fs, &wants))),
        preemptions: all,
    });
    // a file of the input directory is edited in place
    let na = edit(&e1, &dirs["d/a.8xp"]);
    let old = with(&dirs, &[("d/a.8xp", na.clone()), ("o/AAA.txt", t(&ps[0])), ("o/BBB.txt", t(&ps[1]))]);
    let mut renamed = ps[0].clone();
    renamed.name = b"NEW".to_vec();
    let new = with(&dirs, &[("d/a.8xp", na.clone()), ("o/NEW.txt", t(&renamed)), ("o/BBB.txt", t(&ps[1]))]);
    let wants = [old, new];
    scs.push(Scenario {
        name: "an edit of a file that is converted by a mass conversion".into(),
        fs: dirs.clone(),
        procs: vec![cmd(&["convert", "d", "-m", "-o", "o"], b""), cmd(&e1.args("d/a.8xp"), b"y\n")],
        allowed: al(&[("d/a.8xp", &[Some(dirs["d/a.8xp"].clone()), Some(na)])]),
        judge: Box::new(move |fs, outs| ok(outs).and_then(|_| one_of(fs, &wants))),
        preemptions: all,
    });
    // both into their common input directory
    let same = with(&dirs, &[("d/AAA.txt", t(&ps[0])), ("d/BBB.txt", t(&ps[1])), ("d/CCC.txt", t(&ps[2]))]);
    scs.push(Scenario {
        name: "a mass conversion into its input directory and a second one into that directory".into(),
        fs: dirs.clone(),
        procs: vec![cmd(&["convert", "d", "-m", "-o", "d"], &b"y\n".repeat(8)), cmd(&["convert", "e", "-m", "-o", "d"], b"")],
        allowed: al(&[("d/a.8xp", &[Some(dirs["d/a.8xp"].clone())]), ("d/CCC.txt", &[None, Some(t(&ps[2]))])]),
        judge: Box::new(move |fs, outs| {
            ok(outs)?;
            // the new txt file may be seen and converted by the first one
            let mut g = fs.clone();
            g.remove("d/CCC.8xp");
            one_of(&g, &[same.clone()])
        }),
        preemptions: all,
    });
    // --- three processes
    if true {
        let want = with(&base, &[("x.txt", t(&ps[0])), ("y.txt", t(&ps[1])), ("z.txt", t(&ps[2]))]);
        let mut m = keep(&["a.8xp", "b.8xp", "c.txt"]);
        m.extend(al(&[("x.txt", &[None, Some(t(&ps[0]))]), ("y.txt", &[None, Some(t(&ps[1]))])]));
        let alone = Case::new(&base, &["convert", "c.txt", "-o", "z.txt"], b"").run(ctx, &[]).after.get("z.txt").cloned();
        let mut want = want;
        if let Some(n) = alone {
            want.insert("z.txt".into(), n);
        }
        scs.push(Scenario {
            name: "three conversions to different files".into(),
            fs: base.clone(),
            procs: vec![cmd(&["convert", "a.8xp", "-o", "x.txt"], b""), cmd(&["convert", "b.8xp", "-o", "y.txt"], b""), cmd(&["convert", "c.txt", "-o", "z.txt"], b"")],
            allowed: m,
            judge: Box::new(move |fs, outs| ok(outs).and_then(|_| one_of(fs, &[want.clone()]))),
            preemptions: if ctx.thorough { all } else { 2 },
        });
        let wants: Vec<Fs> = [f(&ps[0]), f(&ps[1])].iter().map(|n| with(&base, &[("o.8xp", n.clone())])).collect();
        let mut m = keep(&["a.8xp", "b.8xp", "c.txt"]);
        m.extend(al(&[("o.8xp", &[None, Some(f(&ps[0])), Some(f(&ps[1]))])]));
        scs.push(Scenario {
            name: "three conversions to the same file".into(),
            fs: base.clone(),
            procs: vec![cmd(&["convert", "a.8xp", "-o", "o.8xp"], b"y\n"), cmd(&["convert", "b.8xp", "-o", "o.8xp"], b"y\n"), cmd(&["convert", "a.8xp", "-o", "o.8xp"], b"y\n")],
            allowed: m,
            judge: Box::new(move |fs, outs| ok(outs).and_then(|_| one_of(fs, &wants))),
            preemptions: if ctx.thorough { all } else { 2 },
        });
    }
    pairs(ctx, false);
    explore_all(ctx, &scs, if ctx.thorough { 600 } else { 500 });
    pairs(ctx, true);
}

// ------------------------------------------------------------------------------------- all pairs of commands
/// What a command is in the model: it reads its input, looks whether its target exists, replaces the target, deletes the
/// input, each in one atomic step. Whether it reads or looks first is left open.
struct Op {
    args: Vec<&'static str>,
    input: &'static str,
    target: Option<&'static str>,
    consent: bool,
    delete: bool,
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct Local {
    read: Option<Vec<u8>>,
    looked: bool,
    written: bool,
    code: Option<i32>,
}

/// Every end of some commands in the model: files and exit codes
/// (`dies`: this one may stop for ever at any moment, its code is KILLED then)
const KILLED: i32 = -9;
fn model_ends(ctx: &Ctx, fs: &Fs, ops: &[&Op], dies: Option<usize>, f: &dyn Fn(&Op, &[u8]) -> Option<Vec<u8>>) -> HashSet<(Fs, Vec<i32>)> {
    let start = Local { read: None, looked: false, written: false, code: None };
    let mut seen: HashSet<(Fs, Vec<Local>)> = HashSet::new();
    let mut todo = vec![(fs.clone(), vec![start; ops.len()])];
    let mut ends = HashSet::new();
    while let Some((fs, ls)) = todo.pop() {
        if !seen.insert((fs.clone(), ls.clone())) {
            continue;
        }
        if let Some(codes) = ls.iter().map(|l| l.code).collect::<Option<Vec<i32>>>() {
            ends.insert((fs.clone(), codes));
            if dies.is_none_or(|i| ls[i].code == Some(KILLED)) {
                continue;
            }
        }
        for i in 0..ops.len() {
            let (op, l) = (ops[i], &ls[i]);
            if dies == Some(i) && l.code != Some(KILLED) {
                let mut x = ls.clone();
                x[i].code = Some(KILLED);
                todo.push((fs.clone(), x));
            }
            if l.code.is_some() {
                continue;
            }
            let mut go = |fs: Fs, n: Local| {
                let mut x = ls.clone();
                x[i] = n;
                todo.push((fs, x));
            };
            if l.read.is_none() {
                let mut n = l.clone();
                match fs.get(op.input) {
                    Some(Node::File(b)) => match f(op, b) {
                        Some(_) => n.read = Some(b.clone()),
                        None => n.code = Some(1),
                    },
                    _ => n.code = Some(1),
                }
                if n.code.is_none() && op.target.is_none() {
                    n.code = Some(0);
                }
                go(fs.clone(), n);
            }
            if let Some(t) = op.target {
                if !l.looked {
                    let mut n = l.clone();
                    n.looked = true;
                    if fs.contains_key(t) && !op.consent {
                        n.code = Some(0);
                    }
                    go(fs.clone(), n);
                } else if let (Some(c), false) = (&l.read, l.written) {
                    let mut n = l.clone();
                    let mut g = fs.clone();
                    g.insert(t.into(), file(f(op, c).unwrap()));
                    n.written = true;
                    if !op.delete {
                        n.code = Some(0);
                    }
                    go(g, n);
                } else if l.written {
                    let mut n = l.clone();
                    let mut g = fs.clone();
                    n.code = Some(if g.remove(op.input).is_some() { 0 } else { 1 });
                    go(g, n);
                }
            }
        }
    }
    ctx.note_add("states of the model of the pairs", seen.len() as u64);
    ends
}

/// With one preemption at every call, or with all interleavings
fn pairs(ctx: &Ctx, interleave: bool) {
    let mut fs = Fs::new();
    fs.insert("a.8xp".into(), file(Prog::new("AAA", &[0xDE, 0x2A, 0x41, 0x2A]).bytes(false)));
    fs.insert("b.8xp".into(), file(Prog::new("BBB", &[0x42; 90]).bytes(false)));
    fs.insert("t.txt".into(), file(txt_of(&Prog::new("CCC", &[0x43, 0x3F, 0x43]), ACCESSIBLE)));
    let op = |args: &[&'static str], target, consent| Op { args: args.to_vec(), input: args[1], target, consent, delete: args.contains(&"-d") };
    let ops = vec![
        op(&["convert", "a.8xp", "-o", "n.txt"], Some("n.txt"), true),
        op(&["convert", "a.8xp", "-o", "b.8xp"], Some("b.8xp"), true),
        op(&["convert", "b.8xp", "-o", "a.8xp"], Some("a.8xp"), true),
        op(&["convert", "t.txt", "-o", "n.8xp"], Some("n.8xp"), false),
        op(&["convert", "t.txt", "-o", "a.8xp"], Some("a.8xp"), true),
        op(&["rename", "a.8xp", "-n", "NEW"], Some("a.8xp"), true),
        op(&["comment", "a.8xp", "-c", "other"], Some("a.8xp"), true),
        op(&["lock", "a.8xp", "-f", "n.8xp", "-d"], Some("n.8xp"), true),
        op(&["unlock", "b.8xp", "-f", "n.8xp", "-d"], Some("n.8xp"), false),
        op(&["archive", "b.8xp", "-f", "a.8xp", "-d"], Some("a.8xp"), true),
        op(&["convert", "a.8xp", "-o", "n.json"], Some("n.json"), true),
        op(&["convert", "n.8xp", "-o", "n.txt"], Some("n.txt"), true),
        op(&["convert", "a.8xp", "-o", "t.txt"], Some("t.txt"), false),
        op(&["convert", "n.json", "-o", "b.8xp"], Some("b.8xp"), true),
        op(&["details", "a.8xp"], None, true),
        op(&["convert", "b.8xp", "-p"], None, true),
    ];
    // what a command writes is a function of its input: computed by running it alone
    let memo: Mutex<BTreeMap<(Vec<&str>, Vec<u8>), Option<Vec<u8>>>> = Mutex::new(BTreeMap::new());
    let f = |op: &Op, c: &[u8]| -> Option<Vec<u8>> {
        let key = (op.args.clone(), c.to_vec());
        if let Some(r) = memo.lock().unwrap().get(&key) {
            return r.clone();
        }
        let one: Fs = [(op.input.to_string(), file(c))].into_iter().collect();
        let d = Case::new(&one, &op.args, b"y\n").run(ctx, &[]);
        let r = if d.out.code != 0 { None } else { Some(op.target.map_or(vec![], |t| d.read(t).cloned().unwrap_or_default())) };
        memo.lock().unwrap().insert(key, r.clone());
        r
    };
    let proc = |o: &Op| (strs(&o.args), if o.consent { b"y\n".to_vec() } else { b"n\n".to_vec() });
    let all: Vec<(usize, usize)> = (0..ops.len()).flat_map(|i| (0..=i).map(move |j| (j, i))).collect();
    ctx.note("pairs of commands", all.len() as u64);
    let one_preemption = if interleave { &[][..] } else { &all[..] };
    par(ctx, one_preemption, |(i, j)| {
        let two = [&ops[*i], &ops[*j]];
        let ends = model_ends(ctx, &fs, &two, None, &f);
        ctx.note_add("ends of the model of the pairs", ends.len() as u64);
        let procs = [proc(two[0]), proc(two[1])];
        let name = format!("`{}` and `{}`", two[0].args.join(" "), two[1].args.join(" "));
        let judge = |e: &Exec, schedule: &[u8]| {
            ctx.trace(1);
            let outs = e.outs.as_ref().unwrap();
            let codes: Vec<i32> = outs.iter().map(|o| o.code).collect();
            if !ends.contains(&(e.fs.clone(), codes.clone())) {
                let near = ends.iter().find(|x| x.1 == codes).or(ends.iter().next()).unwrap();
                let w = format!("{name}: schedule {:?}: no order of the two gives the exit codes {codes:?} with these files: {}\n{}", schedule.iter().map(|x| x.to_string()).collect::<String>(), outs.iter().map(|o| o.se()).collect::<String>(), diff(&near.0, &e.fs));
                ctx.violation(w.clone(), replay_of(&fs, &procs, schedule, &w));
            }
        };
        // one process runs completely between any two calls of the other one
        for first in 0..2usize {
            let mut k = 0;
            loop {
                // the first one stops after k calls, if it has so many
                let (probe, _) = execute_to(ctx, &name, &fs, &procs, &vec![first as u8; k], &[1 - first, first]);
                ctx.state(1);
                judge(&probe, &vec![first as u8; k]);
                // how many calls it makes alone
                k += 1;
                if ctx.stopped() || k >= calls_alone(ctx, &fs, &procs[first]) {
                    break;
                }
            }
        }
    });
    if !interleave {
        killed(ctx, &fs, &ops, &f, &proc);
        return;
    }
    // all interleavings
    let mut groups: Vec<Vec<usize>> = all.iter().map(|(i, j)| vec![*i, *j]).collect();
    if ctx.thorough {
        // three commands that have at least one file in common, two by two
        let files = |o: &Op| [Some(o.input), o.target];
        let meet = |i: usize, j: usize| files(&ops[i]).iter().flatten().any(|f| files(&ops[j]).contains(&Some(f)));
        for (i, j) in &all {
            for k in *j..ops.len() {
                if meet(*i, *j) && meet(*j, k) && meet(*i, k) && ops.len() > k {
                    groups.push(vec![*i, *j, k]);
                }
            }
        }
        ctx.note("triples of commands", (groups.len() - all.len()) as u64);
    }
    let scs: Vec<Scenario> = par_map(ctx, &groups, |g| {
        let two: Vec<&Op> = g.iter().map(|i| &ops[*i]).collect();
        let ends = model_ends(ctx, &fs, &two, None, &f);
        Scenario {
            name: two.iter().map(|o| format!("`{}`", o.args.join(" "))).collect::<Vec<_>>().join(" and "),
            fs: fs.clone(),
            procs: two.iter().map(|o| proc(o)).collect(),
            allowed: BTreeMap::new(),
            judge: Box::new(move |fs, outs| {
                let codes: Vec<i32> = outs.iter().map(|o| o.code).collect();
                if ends.contains(&(fs.clone(), codes.clone())) {
                    return Ok(());
                }
                let near = ends.iter().find(|x| x.1 == codes).or(ends.iter().next()).unwrap();
                Err(format!("no order of them gives the exit codes {codes:?} with these files: {}\n{}", outs.iter().map(|o| o.se()).collect::<String>(), diff(&near.0, fs)))
            }),
            preemptions: if g.len() == 2 { usize::MAX } else { 2 },
        }
    })
    .into_iter()
    .flatten()
    .collect();
    explore_all(ctx, &scs, 660);
}

/// One of two commands is killed after each of its calls, while the other one is after each of its calls, and goes on
fn killed(ctx: &Ctx, fs: &Fs, ops: &[Op], f: &(dyn Fn(&Op, &[u8]) -> Option<Vec<u8>> + Sync), proc: &(dyn Fn(&Op) -> (Vec<String>, Vec<u8>) + Sync)) {
    let files = |o: &Op| [Some(o.input), o.target];
    let mut todo: Vec<(usize, usize)> = vec![];
    for i in 0..ops.len() {
        for j in 0..ops.len() {
            // pairs that meet in what the first one writes or deletes; in quick runs
            if ctx.thorough || ops[i].target.is_some() && files(&ops[i]).iter().flatten().any(|x| files(&ops[j]).contains(&Some(x))) {
                todo.push((i, j));
            }
        }
    }
    ctx.note("pairs of commands one of which is killed", todo.len() as u64);
    let (runs, cut) = (AtomicU64::new(0), AtomicU64::new(0));
    par(ctx, &todo, |(i, j)| {
        let two = [&ops[*i], &ops[*j]];
        let ends = model_ends(ctx, fs, &two, Some(0), f);
        let procs = [proc(two[0]), proc(two[1])];
        let names: HashSet<&String> = ends.iter().flat_map(|e| e.0.keys()).chain(fs.keys()).collect();
        let name = format!("`{}` is killed beside `{}`", two[0].args.join(" "), two[1].args.join(" "));
        let n = calls_alone(ctx, fs, &procs[0]);
        let other = calls_alone(ctx, fs, &procs[1]);
        for order in 0..2 {
            for k in 1..=n {
                for m in 0..=other {
                    // the other one has not begun, is at one of its calls; in quick runs at every third
                    if ctx.stopped() || order == 1 && m == 0 || !ctx.thorough && m % 3 != (k + i + j) % 3 {
                        continue;
                    }
                    // a build with many more calls, or a slow machine: what is left is counted
                    if ctx.start.elapsed().as_secs() > 560 {
                        cut.fetch_add(1, Ordering::Relaxed);
                        continue;
                    }
                    let mut run = Run::start(ctx, fs, &procs);
                    let (mut did, mut schedule) = ([0usize; 2], vec![]);
                    for p in if order == 0 { [0usize, 1] } else { [1, 0] } {
                        while did[p] < [k, m][p] && !run.ps[p].done {
                            run.ps[p].step();
                            did[p] += 1;
                            schedule.push(p as u8);
                        }
                    }
                    if run.ps[0].done {
                        continue;
                    }
                    let _ = run.ps[0].child.kill();
                    let _ = run.ps[0].child.wait();
                    run.ps[0].done = true;
                    let at = schedule.len();
                    while !run.ps[1].done && schedule.len() < 5000 {
                        run.ps[1].step();
                        schedule.push(1);
                    }
                    let e = run.look(ctx);
                    runs.fetch_add(1, Ordering::Relaxed);
                    ctx.state(1);
                    ctx.trace(1);
                    let outs = e.outs.as_ref().unwrap();
                    let codes = vec![KILLED, outs[1].code];
                    let mut left = e.fs.clone();
                    // the killed one cannot remove its temporary file
                    let stray: Vec<String> = left.keys().filter(|k| !names.contains(k)).cloned().collect();
                    for s in &stray {
                        left.remove(s);
                    }
                    if stray.len() > 1 || outs[1].crashed() || !ends.contains(&(left.clone(), codes)) {
                        let near = ends.iter().find(|x| x.1[1] == outs[1].code).or(ends.iter().next()).unwrap();
                        let w = format!(
                            "{name}: schedule {:?}, killed after {at} calls: status {} of the other one, left behind {stray:?}, no end of the model has these files: {}\n{}",
                            schedule.iter().map(|x| x.to_string()).collect::<String>(),
                            outs[1].code,
                            outs[1].se(),
                            diff(&near.0, &left)
                        );
                        ctx.violation(w.clone(), replay_of(fs, &procs, &schedule[..at], &w));
                        return;
                    }
                }
            }
        }
    });
    ctx.note("executions in which a process is killed", runs.load(Ordering::Relaxed));
    ctx.note("executions in which a process is killed that time did not allow", cut.load(Ordering::Relaxed));
}

/// The number of calls that a process makes without the other one
fn calls_alone(ctx: &Ctx, fs: &Fs, p: &(Vec<String>, Vec<u8>)) -> usize {
    static MEMO: Mutex<BTreeMap<(Vec<String>, Vec<u8>), usize>> = Mutex::new(BTreeMap::new());
    if let Some(n) = MEMO.lock().unwrap().get(p) {
        return *n;
    }
    let n = execute_to(ctx, "alone", fs, std::slice::from_ref(p), &[], &[0]).1.len();
    MEMO.lock().unwrap().insert(p.clone(), n);
    n
}
