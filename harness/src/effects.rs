//! What commands do to the file system: C14 consent, C15 faults, C16 delete-old, C17 mass conversion, C18 display commands.
use crate::files::*;
use crate::fmt::*;
use crate::spec::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::sync::Mutex;
use std::time::{Duration, SystemTime};

/// One execution of a command in a fresh directory
#[derive(Clone, Default)]
pub struct Case {
    pub fs: Fs,
    pub hard: Vec<(String, String)>,
    pub modes: Vec<(String, u32)>,
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    /// when a file was changed, in seconds from now; the earliest is 1970
    pub times: Vec<(String, i64)>,
}

pub struct Done {
    pub out: Out,
    pub after: Fs,
    /// contents seen when following links
    pub through: BTreeMap<String, Vec<u8>>,
    /// permissions of the files
    pub perms: BTreeMap<String, u32>,
}

impl Done {
    pub fn read(&self, p: &str) -> Option<&Vec<u8>> {
        self.through.get(&clean(p))
    }
}

/// a path relative to the scratch directory without ./ and x/..
pub fn clean(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." if !v.is_empty() => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v.join("/")
}

pub fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|x| x.to_string()).collect()
}
pub fn file(b: impl AsRef<[u8]>) -> Node {
    Node::File(b.as_ref().to_vec())
}

impl Case {
    pub fn new(fs: &Fs, args: &[&str], stdin: &[u8]) -> Case {
        Case { fs: fs.clone(), args: strs(args), stdin: stdin.to_vec(), ..Default::default() }
    }
    pub fn label(&self) -> String {
        format!("`ti-tools {}` with the answers {:?}", self.args.join(" "), String::from_utf8_lossy(&self.stdin))
    }
    pub fn set_up(&self, root: &Path) {
        materialize(root, &self.fs);
        for (a, b) in &self.hard {
            std::fs::hard_link(root.join(a), root.join(b)).unwrap();
        }
        for (p, t) in &self.times {
            let t = if *t == i64::MIN { SystemTime::UNIX_EPOCH } else if *t < 0 { SystemTime::now() - Duration::from_secs(t.unsigned_abs()) } else { SystemTime::now() + Duration::from_secs(*t as u64) };
            if let Ok(f) = std::fs::File::open(root.join(p)) {
                f.set_modified(t).unwrap();
            }
        }
        for (p, m) in &self.modes {
            std::fs::set_permissions(root.join(p), std::fs::Permissions::from_mode(*m)).unwrap();
        }
    }
    pub fn before(&self) -> Fs {
        let mut f = self.fs.clone();
        for (a, b) in &self.hard {
            f.insert(b.clone(), f[a].clone());
        }
        f
    }
    pub fn run(&self, ctx: &Ctx, env: &[(&str, &str)]) -> Done {
        let d = ctx.dir();
        self.set_up(&d.0);
        let root = d.0.to_string_lossy().to_string();
        let args: Vec<String> = self.args.iter().map(|a| a.replace("@ROOT@", &root)).collect();
        let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let out = ctx.run_env(&a, &self.stdin, &d.0, env);
        let perms = if self.modes.is_empty() { BTreeMap::new() } else { permissions(&d.0) };
        for (p, _) in self.modes.iter().rev() {
            let _ = std::fs::set_permissions(d.0.join(p), std::fs::Permissions::from_mode(0o755));
        }
        let after = snapshot(&d.0);
        let mut through = BTreeMap::new();
        for k in after.keys() {
            if let Ok(b) = std::fs::read(d.0.join(k)) {
                through.insert(k.clone(), b);
            }
        }
        ctx.transition(1);
        Done { out, after, through, perms }
    }
    pub fn replay(&self, what: &str, env: &[(&str, &str)]) -> String {
        let mut r = Replay::new(what).fs(&self.fs);
        for (a, b) in &self.hard {
            r = r.raw(&format!("ln {} {}", shq(a), shq(b)));
        }
        for (p, t) in &self.times {
            r = r.raw(&format!("touch -m -d @$(({})) {}", if *t == i64::MIN { "0".into() } else { format!("$(date +%s) + {t}") }, shq(p)));
        }
        for (p, m) in &self.modes {
            r = r.raw(&format!("chmod {m:o} {}", shq(p)));
        }
        if !env.is_empty() {
            r = r.raw(&format!("export LD_PRELOAD=${{SHIM:-/verif/.build/shim.so}} {}", env.iter().filter(|e| e.0 != "LD_PRELOAD" && e.0 != "TV_LOG").map(|e| format!("{}={}", e.0, shq(e.1))).collect::<Vec<_>>().join(" ")));
            // only the program runs with the faults
            let a = self.args.iter().map(|x| shq(x)).collect::<Vec<_>>().join(" ");
            return r
                .raw(&format!("echo {} ", shq(&self.label())))
                .raw(&format!("printf %s {} | \"$B\" {a}; echo \"exit status $?\"", shq(&String::from_utf8_lossy(&self.stdin))))
                .raw("unset LD_PRELOAD")
                .end();
        }
        r.cmd(&self.args.iter().map(|x| x.as_str()).collect::<Vec<_>>(), &self.stdin).end()
    }
    pub fn check(&self, ctx: &Ctx, what: &str, r: Result<(), String>) {
        ctx.trace(1);
        ctx.sample(format!("{what}: {}", self.label()));
        if let Err(e) = r {
            let w = format!("{what}: {}: {e}", self.label());
            ctx.violation(w.clone(), self.replay(&w, &[]))
        }
    }
}

fn permissions(root: &Path) -> BTreeMap<String, u32> {
    snapshot(root).keys().filter_map(|k| Some((k.clone(), std::fs::metadata(root.join(k)).ok()?.permissions().mode() & 0o7777))).collect()
}

pub fn sane(o: &Out) -> Result<(), String> {
    if o.crashed() {
        return Err(format!("crash or hang (status {}): {}", o.code, o.se().trim()));
    }
    Ok(())
}

pub fn untouched(before: &Fs, d: &Done) -> Result<(), String> {
    if *before != d.after {
        return Err(format!("files changed (status {}, {:?}):\n{}", d.out.code, d.out.plain(), diff(before, &d.after)));
    }
    if d.out.so().contains("Successfully") {
        return Err(format!("claims success: {}", d.out.plain().trim()));
    }
    Ok(())
}

/// Is the user asked something?
fn asked(o: &Out) -> bool {
    o.so().lines().any(|l| l.contains("[y/N]") || l.contains('?') && !l.contains("Success"))
}

/// Can permissions keep this process from writing?
fn permissions_count(ctx: &Ctx) -> bool {
    let d = ctx.dir();
    std::fs::create_dir(d.p("x")).unwrap();
    std::fs::set_permissions(d.p("x"), std::fs::Permissions::from_mode(0o555)).unwrap();
    let r = std::fs::write(d.p("x/y"), b"").is_err();
    std::fs::set_permissions(d.p("x"), std::fs::Permissions::from_mode(0o755)).unwrap();
    r
}

fn progs() -> [Prog; 4] {
    let mut v = [
        Prog::new("AAA", &[0xDE, 0x2A, 0x41, 0x2A, 0x3F, 0x31]),
        Prog::new("BBB", &[0x42, 0x3F, 0x5D, 0x00]),
        Prog::new("CCC", b"\x43\x04\x43"),
        Prog::new("DDD", &[0x44; 40]),
    ];
    for (i, p) in v.iter_mut().enumerate() {
        p.comment = format!("comment {i}").into_bytes();
    }
    v
}

fn json_of(ctx: &Ctx, p: &Prog) -> Vec<u8> {
    let d = ctx.dir();
    d.write("x.8xp", p.bytes(false));
    let o = ctx.run(&["convert", "x.8xp", "-o", "x.json"], b"", &d.0);
    d.read("x.json").unwrap_or_else(|| panic!("machinery: the program does not write json: {}", o.se()))
}

const EXTS: [&str; 5] = ["8xp", "txt", "json", "83p", "82p"];

pub fn inputs(ctx: &Ctx) -> Fs {
    let [a, b, c, d] = progs();
    let mut fs = Fs::new();
    fs.insert("in.8xp".into(), file(a.bytes(false)));
    fs.insert("in.83p".into(), file(b.bytes(true)));
    fs.insert("in.82p".into(), file(b.bytes(true)));
    fs.insert("in.txt".into(), file(txt_of(&c, ACCESSIBLE)));
    fs.insert("in.json".into(), file(json_of(ctx, &d)));
    fs.insert("other.8xp".into(), file(c.bytes(false)));
    fs.insert("other.txt".into(), file("not a program"));
    fs
}

pub fn six(i: usize) -> Edit {
    [Edit::Name("NEW"), Edit::Comment("new".into()), Edit::Lock, Edit::Unlock, Edit::Archive, Edit::Unarchive][i].clone()
}

pub fn answers() -> Vec<(&'static [u8], bool)> {
    vec![
        (b"y\n", true),
        (b"Y\n", true),
        (b" y \n", true),
        (b"\ty\r\n", true),
        (b"y", true),
        (b"y\nn\n", true),
        (b"n\n", false),
        (b"N\n", false),
        (b"\n", false),
        (b"", false),
        (b"yes\n", false),
        (b"Yes\n", false),
        (b"YES\n", false),
        (b"no\n", false),
        (b"yy\n", false),
        (b"y y\n", false),
        (b"y.\n", false),
        (b"ny\n", false),
        (b"yn\n", false),
        (b"n\ny\n", false),
        (b"\ny\n", false),
        (b"1\n", false),
        (b"true\n", false),
        (b"ok\n", false),
        (b"\xC3\xBD\n", false),
        (b"[y/N]\n", false),
        (b" \n", false),
        (b"\0y\n", false),
        (b"\"y\"\n", false),
        (b"'y'\n", false),
        (b"(y)\n", false),
        (b"[y]\n", false),
        (b"y,\n", false),
        (b"y/n\n", false),
        (b"-y\n", false),
        (b"y\0\n", false),
        (b"j\n", false),
        (b"\xC5\xB7\n", false),
        (b"\xFF\n", false),
    ]
}

// ------------------------------------------------------------------------------------------------- C14
pub fn c14(ctx: &Ctx) {
    let base = inputs(ctx);
    // a writing command: input, arguments with @ for the target
    let mut cmds: Vec<(String, Vec<String>, &str)> = vec![];
    for i in EXTS {
        for o in EXTS {
            cmds.push((format!("in.{i}"), strs(&["convert", &format!("in.{i}"), "-o", "@"]), o));
        }
    }
    for i in ["8xp", "83p"] {
        for k in 0..6 {
            let f = format!("in.{i}");
            let mut a = strs(&six(k).args(&f));
            a.extend(strs(&["-f", "@"]));
            for o in if k == 0 || ctx.thorough { &EXTS[..] } else { &EXTS[..1] } {
                cmds.push((f.clone(), a.clone(), o));
            }
        }
    }
    let perms = permissions_count(ctx);
    let todo: Vec<_> = cmds.iter().flat_map(|c| (0..15).map(move |k| (c, k))).collect();
    par(ctx, &todo, |((input, args, ext), kind)| {
        let put = |t: &str| args.iter().map(|a| if a == "@" { t.to_string() } else { a.clone() }).collect::<Vec<_>>();
        let fresh = {
            let t = format!("fresh.{ext}");
            let c = Case { fs: base.clone(), args: put(&t), ..Default::default() };
            let d = c.run(ctx, &[]);
            match d.read(&t) {
                Some(b) if d.out.code == 0 => b.clone(),
                _ => {
                    c.check(ctx, "nothing exists at the output path", Err(format!("not saved (status {}): {}", d.out.code, d.out.se().trim())));
                    return;
                }
            }
        };
        let mut c = Case { fs: base.clone(), ..Default::default() };
        let mut t = format!("out.{ext}");
        let (mut exists, mut savable) = (true, true);
        match kind {
            0 => exists = false,
            1 => {
                c.fs.insert(t.clone(), file("something else entirely, and longer than what is written over it ".repeat(40)));
            }
            2 => {
                c.fs.insert(t.clone(), file(""));
            }
            3 | 11 | 12 | 13 => {
                let m = [0o444, 0o600, 0o666, 0o751][(*kind).max(10) - 10];
                if !perms && m == 0o444 {
                    return;
                }
                c.fs.insert(t.clone(), file("with other permissions"));
                c.modes.push((t.clone(), m));
            }
            14 => {
                // a link in another directory, to a file with other permissions
                c.fs.insert("sub".into(), Node::Dir);
                c.fs.insert("real.txt".into(), file("a file that a link leads to"));
                c.fs.insert("between".into(), Node::Link("real.txt".into()));
                t = format!("sub/out.{ext}");
                c.fs.insert(t.clone(), Node::Link("../between".into()));
                c.modes.push(("real.txt".into(), 0o640));
            }
            4 => {
                // the same content as what would be written
                c.fs.insert(t.clone(), file(&fresh));
            }
            5 => {
                c.fs.insert(t.clone(), Node::Link("other.txt".into()));
            }
            6 => {
                c.fs.insert(t.clone(), Node::Dir);
                savable = false;
            }
            7 => {
                c.fs.insert(t.clone(), Node::Dir);
                c.fs.insert(format!("{t}/x.8xp"), file("x"));
                savable = false;
            }
            8 => t = format!("in.{ext}"), // one of the inputs, possibly this one
            9 => {
                c.fs.insert("sub".into(), Node::Dir);
                t = format!("sub/out.{ext}");
                c.fs.insert(t.clone(), file("in a directory"));
            }
            _ => {
                c.fs.insert("sub".into(), Node::Dir);
                t = format!("sub/../other.{ext}");
                exists = c.fs.contains_key(&clean(&t));
            }
        }
        let ans = if exists && (*kind == 1 || *kind == 8 || ctx.thorough) { answers() } else { answers().into_iter().filter(|a| [&b"y\n"[..], b"n\n", b"", b"yes\n"].contains(&a.0)).collect() };
        for (answer, consent) in ans {
            c.args = put(&t);
            c.stdin = answer.to_vec();
            let before = c.before();
            ctx.state(1);
            let d = c.run(ctx, &[]);
            let judge = || -> Result<(), String> {
                sane(&d.out)?;
                if exists && !asked(&d.out) {
                    return Err(format!("not asked (status {}, {:?})", d.out.code, d.out.plain()));
                }
                if exists && !consent {
                    return untouched(&before, &d);
                }
                if !savable {
                    if d.out.code == 0 {
                        return Err("status 0 but a directory can not be replaced".into());
                    }
                    return untouched(&before, &d);
                }
                if d.out.code != 0 || d.read(&t) != Some(&fresh) {
                    return Err(format!("not saved (status {}): {}\n{}", d.out.code, d.out.se().trim(), diff(&before, &d.after)));
                }
                for (p, m) in &c.modes {
                    if d.perms.get(p) != Some(m) {
                        return Err(format!("{p} had the permissions {m:o} and has {:o} now", d.perms.get(p).unwrap_or(&0)));
                    }
                }
                // the file that a link leads to is the one that is replaced
                let real = match kind {
                    5 => "other.txt".into(),
                    14 => "real.txt".into(),
                    _ => clean(&t),
                };
                for (p, n) in &before {
                    if *p == real && d.after.get(p) == Some(&file(&fresh)) {
                        continue;
                    }
                    if d.after.get(p) != Some(n) {
                        return Err(format!("{p} changed:\n{}", diff(&before, &d.after)));
                    }
                }
                for p in d.after.keys() {
                    if !before.contains_key(p) && *p != clean(&t) {
                        return Err(format!("{p} appeared"));
                    }
                }
                Ok(())
            };
            c.check(ctx, &format!("{input} to {} {t}", ["absent", "existing", "empty", "read-only", "identical", "link", "directory", "non-empty directory", "input", "nested", "aliased", "private", "writable", "executable", "distant link"][*kind]), judge());
        }
    });
    // edits in place
    for i in ["8xp", "83p", "82p"] {
        let todo: Vec<_> = (0..6).flat_map(|k| answers().into_iter().map(move |a| (k, a))).collect();
        par(ctx, &todo, |(k, (answer, consent))| {
            let f = format!("in.{i}");
            let e = six(*k);
            let c = Case { fs: base.clone(), args: strs(&e.args(&f)), stdin: answer.to_vec(), ..Default::default() };
            ctx.state(1);
            let d = c.run(ctx, &[]);
            let judge = || -> Result<(), String> {
                sane(&d.out)?;
                if !consent {
                    return untouched(&c.fs, &d);
                }
                let mut want = c.fs.clone();
                if let Node::File(b) = &c.fs[&f] {
                    want.insert(f.clone(), Node::File(e.apply(b, i)));
                }
                if d.after != want || d.out.code != 0 {
                    return Err(format!("status {}, expected the edited file only:\n{}", d.out.code, diff(&want, &d.after)));
                }
                Ok(())
            };
            c.check(ctx, "edit in place", judge());
        });
    }
    consent_mass(ctx);
    consent_histories(ctx);
    consent_names(ctx, &base);
    consent_permissions(ctx, &base);
    consent_world(ctx, &base);
}

/// Consent is what is answered: not that the program runs in a terminal, not what a variable of the environment says, not the time,
/// not the age of the files
fn consent_world(ctx: &Ctx, base: &Fs) {
    let shim = ctx.shim.to_string_lossy().to_string();
    let mut cmds: Vec<(Vec<String>, String)> = vec![];
    for (i, o) in EXTS.iter().enumerate() {
        for k in if ctx.thorough { 0..5 } else { i..i + 1 } {
            cmds.push((strs(&["convert", &format!("in.{}", EXTS[(k + 2) % 5]), "-o", &format!("out.{o}")]), format!("out.{o}")));
        }
    }
    cmds.push((strs(&["lock", "in.8xp", "-f", "out.8xp"]), "out.8xp".into()));
    cmds.push((strs(&["rename", "in.83p", "-n", "OTHER", "-f", "out.83p", "-d"]), "out.83p".into()));
    for k in 0..6 {
        cmds.push((strs(&six(k).args("in.8xp")), "in.8xp".into()));
    }
    cmds.push((strs(&["archive", "in.82p"]), "in.82p".into()));
    cmds.push((strs(&["convert", "d", "-m", "-o", "s"]), "s/ZZ.txt".into()));
    cmds.push((strs(&["convert", "d", "-m", "-o", "none"]), "none".into()));
    let worlds: Vec<(&str, Vec<(&str, &str)>, i64, i64)> = [
        ("in a terminal", vec![("TV_TTY", "1")]),
        ("every variable is 1", vec![("TV_GETENV", "1")]),
        ("every variable is y", vec![("TV_GETENV", "y")]),
        ("every variable is true", vec![("TV_GETENV", "true")]),
        ("every variable is empty", vec![("TV_GETENV", "")]),
        ("every variable is 1, in a terminal", vec![("TV_GETENV", "1"), ("TV_TTY", "1")]),
        ("it is 1970", vec![("TV_TIME", "0")]),
        ("it is 2100", vec![("TV_TIME", "4102444800")]),
        ("time flies", vec![("TV_TICK", "100000")]),
        ("the process id is 1", vec![("TV_PID", "1")]),
    ]
    .into_iter()
    .map(|(a, b)| (a, b, 0, 0))
    .chain([("the output is older", -86400, 0), ("the input is older", 0, -86400), ("both are old", -100_000_000, -100_000_000), ("the output is of tomorrow", 86400, 0), ("the input is of tomorrow", 0, 86400), ("the output is of 1970", i64::MIN, 0)].map(|(n, o, i)| (n, vec![], o, i)))
    .collect();
    let todo: Vec<_> = cmds.iter().flat_map(|c| worlds.iter().map(move |w| (c, w))).collect();
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |((args, t), (name, env, old_out, old_in))| {
        let mut fs = base.clone();
        let dir = t == "none";
        if !dir && !fs.contains_key(t) {
            if t.starts_with("s/") {
                fs.insert("s".into(), Node::Dir);
            }
            fs.insert(t.clone(), file("a file that exists"));
        }
        if args[1] == "d" {
            let mut p = progs()[0].clone();
            p.name = b"ZZ".to_vec();
            fs.insert("d".into(), Node::Dir);
            fs.insert("d/x.8xp".into(), file(p.bytes(false)));
        }
        let mut env: Vec<(&str, &str)> = env.clone();
        env.insert(0, ("LD_PRELOAD", &shim));
        let plain = Case { fs: fs.clone(), args: args.clone(), stdin: b"y\n".to_vec(), ..Default::default() }.run(ctx, &[]);
        for (answer, consent) in answers().into_iter().filter(|a| ctx.thorough || [&b"y\n"[..], b"n\n", b"", b"\n", b"yes\n"].contains(&a.0)) {
            let c = Case { fs: fs.clone(), args: args.clone(), stdin: answer.to_vec(), times: vec![(t.clone(), *old_out), (args[1].clone(), *old_in)].into_iter().filter(|x| x.1 != 0).collect(), ..Default::default() };
            let d = c.run(ctx, &env);
            let judge = || -> Result<(), String> {
                sane(&d.out)?;
                if !asked(&d.out) {
                    return Err(format!("not asked (status {}, {:?})", d.out.code, d.out.plain()));
                }
                if !consent {
                    return untouched(&fs, &d);
                }
                if d.out.code != plain.out.code || d.after != plain.after {
                    return Err(format!("status {}, not the same as elsewhere (status {}):\n{}", d.out.code, plain.out.code, diff(&plain.after, &d.after)));
                }
                Ok(())
            };
            ctx.trace(1);
            if let Err(e) = judge() {
                let w = format!("{name}: {}: {e}", c.label());
                ctx.violation(w.clone(), c.replay(&w, &env));
            }
        }
    });
}

/// A file in a directory that can not be listed, entered or written, or that itself can not be read or written, is not replaced
/// without a question either; and what is not replaced as a whole is not changed at all
fn consent_permissions(ctx: &Ctx, base: &Fs) {
    if !permissions_count(ctx) {
        ctx.note("permissions do not count for this user", 1);
        return;
    }
    let mut cmds: Vec<(Vec<String>, &str)> = EXTS.iter().enumerate().map(|(i, o)| (strs(&["convert", &format!("in.{}", EXTS[(i + 2) % 5]), "-o", "@"]), *o)).collect();
    cmds.push((strs(&["lock", "in.8xp", "-f", "@"]), "8xp"));
    cmds.push((strs(&["comment", "in.83p", "-c", "x", "-f", "@", "-d"]), "83p"));
    cmds.push((strs(&["convert", "d", "-m", "-o", "s"]), "txt"));
    cmds.push((strs(&["rename", "@", "-n", "OTHER"]), "8xp"));
    cmds.push((strs(&["archive", "@"]), "8xp"));
    let todo: Vec<(usize, u32, u32, bool)> = (0..cmds.len()).flat_map(|k| (0..8).flat_map(move |dir| (0..8).flat_map(move |f| [false, true].map(|l| (k, dir, f, l))))).collect();
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |(k, dir, mode, link)| {
        let (args, ext) = &cmds[*k];
        let (mass, in_place) = (args[1] == "d", args[1] == "@");
        if mass && *link || dir & 1 == 0 && *link {
            return;
        }
        let mut fs = base.clone();
        fs.insert("s".into(), Node::Dir);
        let real = if mass { "s/ZZ.txt".into() } else { format!("s/out.{ext}") };
        fs.insert(real.clone(), if in_place { base["in.8xp"].clone() } else { file("a file that exists") });
        if mass {
            let mut p = progs()[0].clone();
            p.name = b"ZZ".to_vec();
            fs.insert("d".into(), Node::Dir);
            fs.insert("d/x.8xp".into(), file(p.bytes(false)));
        }
        let t = if *link { format!("link.{ext}") } else { real.clone() };
        if *link {
            fs.insert(t.clone(), Node::Link(real.clone()));
        }
        let args: Vec<String> = args.iter().map(|a| if a == "@" { t.clone() } else { a.clone() }).collect();
        // what is written there when nothing is in the way
        let free = Case { fs: fs.clone(), args: args.clone(), stdin: b"y\n".to_vec(), ..Default::default() }.run(ctx, &[]);
        let Some(fresh) = free.read(&real).filter(|b| free.out.code == 0 && fs.get(&real) != Some(&file(b))).cloned() else {
            return Case { fs: fs.clone(), args, stdin: b"y\n".to_vec(), ..Default::default() }.check(ctx, "with all permissions", Err(format!("not saved (status {}): {}", free.out.code, free.out.se().trim())));
        };
        for (answer, consent) in [(&b"n\nn\n"[..], false), (b"", false), (b"y\ny\n", true)] {
            let c = Case { fs: fs.clone(), args: args.clone(), stdin: answer.to_vec(), modes: vec![(real.clone(), mode << 6), ("s".into(), dir << 6)], ..Default::default() };
            let d = c.run(ctx, &[]);
            let judge = || -> Result<(), String> {
                sane(&d.out)?;
                // that it exists can be seen by everybody who may enter the directory; an edit in place has to read it first
                let seen = dir & 1 == 1 && (!in_place || mode & 4 == 4);
                if seen && !asked(&d.out) {
                    return Err(format!("not asked (status {}, {:?})", d.out.code, d.out.plain()));
                }
                if !consent || !seen {
                    // a refusal of one file of many is not a failure
                    return untouched(&fs, &d);
                }
                let replaced = d.after.get(&real) == Some(&file(&fresh));
                if !replaced || d.out.code != 0 {
                    if dir & 3 == 3 && mode & 6 == 6 {
                        return Err(format!("not saved (status {}): {}\n{}", d.out.code, d.out.se().trim(), diff(&fs, &d.after)));
                    }
                    if !mass && d.out.code == 0 {
                        return Err(format!("status 0, but the file is not replaced:\n{}", diff(&fs, &d.after)));
                    }
                    return untouched(&fs, &d);
                }
                if d.after != free.after {
                    return Err(format!("expected the replaced file only:\n{}", diff(&free.after, &d.after)));
                }
                if d.perms.get(&real).is_some_and(|m| *m != mode << 6) {
                    return Err(format!("{real} had the permissions {:o} and has {:o} now", mode << 6, d.perms[&real]));
                }
                Ok(())
            };
            c.check(ctx, &format!("a file with the permissions {:o} in a directory with {:o}{}", mode << 6, dir << 6, if *link { ", through a link" } else { "" }), judge());
        }
    });
}

/// The question does not depend on how the existing file is called: every sign alone, before and behind a letter, hidden files,
/// names of backups and temporary files, long names, in directories with such names
fn consent_names(ctx: &Ctx, base: &Fs) {
    let mut names: Vec<String> = vec![];
    for c in (0x20u8..0x7F).map(|c| c as char).filter(|c| *c != '/').chain("\u{1}\u{7f}\u{a0}éΘ→😀".chars()) {
        names.extend([format!("{c}"), format!("{c}q"), format!("q{c}")]);
    }
    for n in [".hidden", "..two", "...", "q~", "~q", "q.bak", "q.old", "q.orig", "#q#", "q.tmp", "tmp", ".tmp", ".ti-tools-1-0.tmp", "con", "nul", "output", "out", "new", "old", "copy", "backup", "test", "untitled", "Copy of q", "q (1)", "q 2", "q_1", "AAA", "0", "00", "1e9", "null", "true"] {
        names.push(n.into());
    }
    names.extend([200, 240, 250, 251].map(|n| "q".repeat(n)));
    // a flag's value does not look like a flag
    names.retain(|n| !n.starts_with('-') && n != ".");
    names.sort();
    names.dedup();
    let todo: Vec<(usize, &String, usize)> = names.iter().enumerate().flat_map(|(i, n)| (0..if ctx.thorough { 10 } else { 4 }).map(move |k| (i, n, if ctx.thorough { k } else { (i + k * 3) % 10 }))).collect();
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |(i, n, k)| {
        let ext = EXTS[k % 5];
        let edit = k / 5 == 1 && ext != "json" && ext != "txt";
        let nested = (i + k) % 4 == 3;
        let t = if nested { format!("{n}/q.{ext}") } else { format!("{n}.{ext}") };
        if t.split('/').any(|c| c.len() > 255) {
            return;
        }
        let args = if edit { strs(&["lock", "in.8xp", "-f", &t]) } else { strs(&["convert", &format!("in.{}", EXTS[(i + k) % 5]), "-o", &t]) };
        let mut fs = base.clone();
        if nested {
            fs.insert(n.to_string(), Node::Dir);
        }
        let c = Case { fs: fs.clone(), args: args.clone(), ..Default::default() };
        let d = c.run(ctx, &[]);
        let Some(fresh) = d.read(&t).filter(|_| d.out.code == 0).cloned() else {
            return c.check(ctx, "nothing exists at the output path", Err(format!("not saved (status {}): {}", d.out.code, d.out.se().trim())));
        };
        fs.insert(t.clone(), file("here before"));
        for (answer, consent) in [(&b"n\n"[..], false), (b"", false), (b"y\n", true)] {
            let c = Case { fs: fs.clone(), args: args.clone(), stdin: answer.to_vec(), ..Default::default() };
            let d = c.run(ctx, &[]);
            let judge = || -> Result<(), String> {
                sane(&d.out)?;
                if !asked(&d.out) {
                    return Err(format!("not asked (status {}, {:?})", d.out.code, d.out.plain()));
                }
                if !consent {
                    return untouched(&fs, &d);
                }
                let mut want = fs.clone();
                want.insert(t.clone(), file(&fresh));
                if d.out.code != 0 || d.after != want {
                    return Err(format!("status {}, expected the replaced file only:\n{}", d.out.code, diff(&want, &d.after)));
                }
                Ok(())
            };
            c.check(ctx, "a file with this name exists", judge());
        }
    });
}

/// Mass conversion into a directory where some outputs exist, with every sequence of answers
pub fn consent_mass(ctx: &Ctx) {
    let ps = progs();
    let n = 3;
    let mut base = Fs::new();
    base.insert("d".into(), Node::Dir);
    for (i, p) in ps.iter().take(n).enumerate() {
        base.insert(format!("d/{}.8xp", ["x", "y", "z"][i]), file(p.bytes(false)));
    }
    let outs: Vec<String> = ps.iter().take(n).map(|p| format!("o/{}.txt", String::from_utf8_lossy(&p.name))).collect();
    let news: Vec<Node> = ps.iter().take(n).map(|p| file(txt_of(p, ACCESSIBLE))).collect();
    let words: [&[u8]; 3] = [b"y\n", b"n\n", b"yes\n"];
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut level = seqs.clone();
    for _ in 0..if ctx.thorough { 6 } else { 4 } {
        level = level.iter().flat_map(|s| (0..words.len()).map(move |w| [s.clone(), vec![w]].concat())).collect();
        seqs.extend(level.clone());
    }
    let todo: Vec<(usize, &Vec<usize>)> = (0..1 << n).flat_map(|m| seqs.iter().map(move |s| (m, s))).collect();
    par(ctx, &todo, |(mask, seq)| {
        let mut fs = base.clone();
        fs.insert("o".into(), Node::Dir);
        for i in 0..n {
            if mask >> i & 1 == 1 {
                fs.insert(outs[i].clone(), file(format!("old {i}")));
            }
        }
        let mut c = Case::new(&fs, &["convert", "d", "-m", "-o", "o"], b"");
        c.stdin = seq.iter().flat_map(|w| words[*w].to_vec()).collect();
        // the model: a prompt for every existing file, and one more after a refusal
        let mut want = fs.clone();
        let mut it = seq.iter();
        for i in 0..n {
            if mask >> i & 1 == 1 && it.next() != Some(&0) {
                if it.next() == Some(&0) {
                    continue;
                }
                break;
            }
            want.insert(outs[i].clone(), news[i].clone());
        }
        ctx.state(1);
        let shim = ctx.shim.to_string_lossy().to_string();
        let d = c.run(ctx, &[("LD_PRELOAD", &shim), ("TV_PERM", "0")]);
        let judge = || -> Result<(), String> {
            sane(&d.out)?;
            if d.after != want {
                return Err(format!("unexpected files:\n{}", diff(&want, &d.after)));
            }
            for i in 0..n {
                let saved = want.get(&outs[i]) == Some(&news[i]);
                let claimed = d.out.plain().lines().any(|l| l.contains("Successfully") && l.contains(&outs[i]));
                if saved != claimed {
                    return Err(format!("{} was {}saved but the output is {:?}", outs[i], if saved { "" } else { "not " }, d.out.plain()));
                }
            }
            Ok(())
        };
        c.check(ctx, "mass conversion", judge());
    });
    // the output directory itself, and two programs with the same name
    for (answer, consent) in answers() {
        let c = Case::new(&base, &["convert", "d", "-m", "-o", "new"], answer);
        let d = c.run(ctx, &[]);
        let judge = || -> Result<(), String> {
            sane(&d.out)?;
            if !consent {
                return untouched(&base, &d);
            }
            let mut want = base.clone();
            want.insert("new".into(), Node::Dir);
            for i in 0..n {
                want.insert(outs[i].replace("o/", "new/"), news[i].clone());
            }
            if d.after != want {
                return Err(format!("unexpected files:\n{}", diff(&want, &d.after)));
            }
            Ok(())
        };
        ctx.state(1);
        c.check(ctx, "mass conversion to a new directory", judge());
        let mut fs = base.clone();
        let mut p = ps[1].clone();
        p.name = ps[0].name.clone();
        fs.insert("d/y.8xp".into(), file(p.bytes(false)));
        fs.insert("o".into(), Node::Dir);
        let mut c = Case::new(&fs, &["convert", "d", "-m", "-o", "o"], answer);
        if !consent {
            c.stdin.extend(b"\nn\n");
        }
        let shim = ctx.shim.to_string_lossy().to_string();
        for perm in ["0", "2", "3"] {
            // y.8xp is read after x.8xp, and the other way round; the order is seen when the names differ
            let mut apart = c.clone();
            let mut q = p.clone();
            q.name = b"OTHER".to_vec();
            apart.fs.insert("d/y.8xp".into(), file(q.bytes(false)));
            let t = apart.run(ctx, &[("LD_PRELOAD", &shim), ("TV_PERM", perm)]).out.plain();
            let at = |name: &[u8]| t.find(&format!("Successfully saved {}", String::from_utf8_lossy(name)));
            let (Some(one), Some(two)) = (at(&ps[0].name), at(b"OTHER")) else {
                c.check(ctx, "mass conversion of two programs", Err(format!("not both are reported as saved: {t:?}")));
                continue;
            };
            let d = c.run(ctx, &[("LD_PRELOAD", &shim), ("TV_PERM", perm)]);
            let (first, second) = if one < two { (&news[0], file(txt_of(&p, ACCESSIBLE))) } else { (&file(txt_of(&p, ACCESSIBLE)), news[0].clone()) };
            let judge = || -> Result<(), String> {
                sane(&d.out)?;
                let got = d.after.get(&outs[0]);
                if consent && got != Some(&second) || !consent && got != Some(first) {
                    return Err(format!("the second program of this name was {}: {:?}", if consent { "not saved" } else { "saved" }, got));
                }
                for (k, v) in &fs {
                    if d.after.get(k) != Some(v) {
                        return Err(format!("{k} changed"));
                    }
                }
                Ok(())
            };
            ctx.state(1);
            c.check(ctx, "mass conversion of two programs with the same name", judge());
        }
    }
}

/// Sequences of commands with consent and refusal: only what was consented to changes
fn consent_histories(ctx: &Ctx) {
    let [a, b, _, _] = progs();
    let mut start = Fs::new();
    start.insert("a.8xp".into(), file(a.bytes(false)));
    start.insert("b.txt".into(), file(txt_of(&b, ACCESSIBLE)));
    // arguments, input, target, deletes the input
    let ops: Vec<(Vec<&str>, &str, &str, bool)> = vec![
        (vec!["convert", "a.8xp", "-o", "b.txt"], "a.8xp", "b.txt", false),
        (vec!["convert", "b.txt", "-o", "a.8xp"], "b.txt", "a.8xp", false),
        (vec!["convert", "b.txt", "-o", "c.8xp"], "b.txt", "c.8xp", false),
        (vec!["convert", "a.8xp", "-o", "d.json"], "a.8xp", "d.json", false),
        (vec!["convert", "d.json", "-o", "c.8xp"], "d.json", "c.8xp", false),
        (vec!["rename", "a.8xp", "-n", "Q"], "a.8xp", "a.8xp", false),
        (vec!["lock", "a.8xp", "-f", "c.8xp"], "a.8xp", "c.8xp", false),
        (vec!["lock", "a.8xp", "-f", "c.8xp", "-d"], "a.8xp", "c.8xp", true),
        (vec!["comment", "c.8xp", "-c", "k", "-f", "a.8xp", "-d"], "c.8xp", "a.8xp", true),
        (vec!["archive", "c.8xp", "-f", "c.8xp", "-d"], "c.8xp", "c.8xp", false),
    ];
    // what a command writes depends on its input only
    let memo: Mutex<BTreeMap<(usize, Vec<u8>), Option<Vec<u8>>>> = Mutex::new(BTreeMap::new());
    let depth = if ctx.thorough { 7 } else { 4 };
    let (n, dep, closed) = bfs(ctx, vec![start], depth, 6000, |fs: &Fs| {
        let mut next = vec![];
        for (i, (args, input, target, delete)) in ops.iter().enumerate() {
            let content = match fs.get(*input) {
                Some(Node::File(b)) => b.clone(),
                _ => {
                    let c = Case::new(fs, args, b"y\n");
                    let d = c.run(ctx, &[]);
                    let r = if d.out.code == 0 { Err("status 0 without an input".to_string()) } else { sane(&d.out).and_then(|_| untouched(fs, &d)) };
                    c.check(ctx, "history", r);
                    continue;
                }
            };
            let key = (i, content.clone());
            let known = memo.lock().unwrap().get(&key).cloned();
            let fresh = known.unwrap_or_else(|| {
                let mut one = Fs::new();
                one.insert(input.to_string(), file(&content));
                let t = format!("fresh.{}", target.split('.').nth(1).unwrap());
                let mut a: Vec<&str> = args.clone();
                match a.iter().position(|x| *x == "-o" || *x == "-f") {
                    Some(p) => a[p + 1] = &t,
                    None => a.extend(["-f", &t]),
                }
                let d = Case::new(&one, &a, b"").run(ctx, &[]);
                let r = d.read(&t).cloned();
                memo.lock().unwrap().insert(key, r.clone());
                r
            });
            for answer in [&b"y\n"[..], b"n\n", b""] {
                let exists = fs.contains_key(*target);
                if !exists && answer == b"y\n" {
                    continue;
                }
                let c = Case::new(fs, args, answer);
                let d = c.run(ctx, &[]);
                let mut want = fs.clone();
                if let Some(f) = &fresh {
                    if !exists || answer == b"y\n" {
                        want.insert(target.to_string(), file(f));
                        if *delete {
                            want.remove(*input);
                        }
                    }
                }
                let r = sane(&d.out).and_then(|_| if d.after == want { Ok(()) } else { Err(format!("unexpected files:\n{}", diff(&want, &d.after))) });
                c.check(ctx, "history", r);
                next.push(want);
            }
        }
        next
    });
    ctx.note("histories", serde_json::json!({"states": n, "depth": dep, "closed": closed}));
}

// ------------------------------------------------------------------------------------------------- C16
pub fn c16(ctx: &Ctx) {
    let perms = permissions_count(ctx);
    let [a, b, c3, _] = progs();
    let mut base = Fs::new();
    base.insert("in.8xp".into(), file(a.bytes(false)));
    base.insert("in.83p".into(), file(b.bytes(true)));
    base.insert("ab.82p".into(), file(b.bytes(true)));
    base.insert("ab.8xp".into(), file(a.bytes(false)));
    base.insert("old.8xp".into(), file(c3.bytes(false)));
    base.insert("sub".into(), Node::Dir);
    base.insert("sub/x.8xp".into(), file(b.bytes(false)));
    base.insert("dir.8xp".into(), Node::Dir);
    base.insert("ln.8xp".into(), Node::Link("in.8xp".into()));
    base.insert("ln2.8xp".into(), Node::Link("old.8xp".into()));
    base.insert("here".into(), Node::Link(".".into()));
    base.insert("loop.8xp".into(), Node::Link("loop.8xp".into()));
    base.insert("dangling.8xp".into(), Node::Link("nowhere.8xp".into()));
    base.insert("ro".into(), Node::Dir);
    // input; target; the target exists, it can be saved, it is the input by another name
    struct T {
        path: &'static str,
        exists: bool,
        savable: bool,
        alias: bool,
    }
    let t = |path, exists, savable, alias| T { path, exists, savable, alias };
    let targets = |input: &str| -> Vec<T> {
        let own = ["in.8xp", "ln.8xp", "./in.8xp", "here/in.8xp"].contains(&input);
        let mut v = vec![
            t("new.8xp", false, true, false),
            t("new.txt", false, true, false),
            t("new.json", false, true, false),
            t("new.83p", false, true, false),
            t("new.82p", false, true, false),
            t("sub/new.8xp", false, true, false),
            t("./sub/../new.8xp", false, true, false),
            t("@ROOT@/new.8xp", false, true, false),
            t("here/new.8xp", false, true, false),
            t("old.8xp", true, true, false),
            t("sub/x.8xp", true, true, false),
            t("in.8xp", true, true, own),
            t("./in.8xp", true, true, own),
            t("sub/../in.8xp", true, true, own),
            t("here/in.8xp", true, true, own),
            t("here/here/./in.8xp", true, true, own),
            t("@ROOT@/in.8xp", true, true, own),
            t("ln.8xp", true, true, own),
            t("./ln.8xp", true, true, own),
            t("ln2.8xp", true, true, false),
            t("hard.8xp", true, true, own),
            t("in.83p", true, true, input == "in.83p"),
            t("./in.83p", true, true, input == "in.83p"),
            t("ab.82p", true, true, input == "ab.82p"),
            t("ab.8xp", true, true, input == "ab.8xp"),
            t("ab.83p", false, true, false),
            t("ab.txt", false, true, false),
            t("ab.json", false, true, false),
            t("in.82p", false, true, false),
            t("in.txt", false, true, false),
            t("sub/in.8xp", false, true, false),
            t("sub/ab.82p", false, true, false),
            t("no/new.8xp", false, false, false),
            t("dir.8xp", true, false, false),
            t("new.foo", false, false, false),
            t("new", false, false, false),
            t("", false, false, false),
            t(".", false, false, false),
            t("sub", false, false, false),
            t("new.8XP", false, false, false),
            t(".8xp", false, false, false),
            t("in.8xp/new.8xp", false, false, false),
        ];
        if perms {
            v.push(t("ro/new.8xp", false, false, false));
        }
        v
    };
    let mut todo: Vec<(&str, usize, usize, bool, &[u8])> = vec![];
    for input in ["in.8xp", "ln.8xp", "in.83p", "ab.82p", "ab.8xp", "./in.8xp", "here/in.8xp"] {
        for k in 0..6 {
            for (i, _) in targets(input).iter().enumerate() {
                for del in [false, true] {
                    for ans in [&b"y\n"[..], b"n\n", b"", b"Y\n", b"yes\n"] {
                        todo.push((input, k, i, del, ans));
                    }
                }
            }
        }
    }
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |(input, k, i, del, ans)| {
        let ts = targets(input);
        let T { path, exists, savable, alias } = ts[*i];
        let e = six(*k);
        let ext = input.rsplit('.').next().unwrap();
        let real = if input.ends_with("in.8xp") || *input == "ln.8xp" { "in.8xp" } else { input };

        let mut args = strs(&e.args(input));
        // both forms of the flags
        args.extend(strs(&[if (k + i) % 2 == 0 { "-f" } else { "--new-file" }, path]));
        if *del {
            args.push(if (k + i) % 4 < 2 { "-d" } else { "--delete-old" }.into());
        }
        let typed = input;
        // the name that is deleted
        let input = if real == "in.8xp" && *input != "ln.8xp" { &"in.8xp" } else { input };
        let mut c = Case { fs: base.clone(), args, stdin: ans.to_vec(), ..Default::default() };
        c.hard.push(("in.8xp".into(), "hard.8xp".into()));
        if perms {
            c.modes.push(("ro".into(), 0o555));
        }
        let before = c.before();
        let d = c.run(ctx, &[]);
        let old = match &before[real] {
            Node::File(b) => b.clone(),
            _ => unreachable!(),
        };
        let p = clean(&path.replace("@ROOT@/", "").replace("here/", ""));
        let yes = ans.trim_ascii() == b"y" || ans.trim_ascii() == b"Y";
        let judge = || -> Result<(), String> {
            sane(&d.out)?;
            if !savable || exists && !yes {
                if !savable && d.out.code == 0 && !(exists && !yes) {
                    return Err("status 0 but the new file can not be saved".into());
                }
                return untouched(&before, &d);
            }
            // the edited program is at the new path
            let got = d.read(&p).ok_or_else(|| format!("the edited program is not at {path} (status {}):\n{}", d.out.code, diff(&before, &d.after)))?;
            let mut q = parse(&old, ext)?;
            match &e {
                Edit::Name(n) => q.name = n.as_bytes().to_vec(),
                Edit::Comment(x) => q.comment = x.as_bytes().to_vec(),
                Edit::Lock => q.ftype = 6,
                Edit::Unlock => q.ftype = 5,
                Edit::Archive => q.dest = 0x80,
                Edit::Unarchive => q.dest = 0,
            }
            let out = p.rsplit('.').next().unwrap();
            match out {
                "json" => {
                    let v: serde_json::Value = serde_json::from_slice(got).map_err(|e| format!("incomplete json: {e}"))?;
                    if v["metadata"]["name"] != serde_json::json!(String::from_utf8_lossy(&q.name)) {
                        return Err("json of another program".into());
                    }
                }
                "txt" => {
                    if *got != txt_of(&q, ACCESSIBLE).into_bytes() {
                        return Err(format!("the new file is {}", brief(got)));
                    }
                }
                x => {
                    let same = x == ext && e.apply(&old, ext) == *got;
                    let mut q2 = q.clone();
                    if x != "8xp" {
                        q2.dest = 0;
                        q2.version = 0;
                    }
                    if !same && q2.file(x) != *got {
                        return Err(format!("the new file is {} instead of {}", brief(got), brief(&q2.file(x))));
                    }
                }
            }
            if d.out.code != 0 {
                return Err(format!("status {}: {}", d.out.code, d.out.se().trim()));
            }
            // everything else
            for (f, n) in &before {
                let is_input = f == input;
                if *f == p {
                    continue;
                }
                if is_input && *del && !alias {
                    if d.after.contains_key(f) {
                        return Err("the old file was not deleted".into());
                    }
                    continue;
                }
                // names of one file: the old or the new content; with -d the input may be gone if its content is elsewhere
                let group = alias && ["in.8xp", "ln.8xp", "hard.8xp"].contains(&f.as_str());
                let through_link = p == "ln2.8xp" && f == "old.8xp" || p == "ln.8xp" && f == "in.8xp";
                match d.after.get(f) {
                    Some(m) if m == n => {}
                    _ if (group || through_link) && d.read(f) == Some(got) => {}
                    // a link to the deleted file; hard links and links are other names of the old file
                    None if group && is_input && *del => {}
                    m => return Err(format!("{f} changed: {m:?}\n{}", diff(&before, &d.after))),
                }
            }
            for f in d.after.keys() {
                if !before.contains_key(f) && *f != p {
                    return Err(format!("{f} appeared"));
                }
            }
            Ok(())
        };
        c.check(ctx, &format!("{} {typed} as {path}{}", c.args[0], if *del { " deleting the old file" } else { "" }), judge());
    });
    // edits that are refused do not delete anything
    for args in [
        vec!["rename", "in.8xp", "-n", "TOOLONGNAME"],
        vec!["rename", "in.8xp", "-n", "A1"],
        vec!["rename", "in.8xp", "-n", "A B"],
        vec!["comment", "in.8xp", "-c", "1234567890123456789012345678901234567890123"],
        vec!["lock", "sub", ],
        vec!["lock", "absent.8xp"],
        vec!["lock", "dir.8xp"],
        vec!["lock", "loop.8xp"],
        vec!["lock", "dangling.8xp"],
        vec!["rename", "bad.8xp", "-n", "A"],
        vec!["rename", "bad.txt", "-n", "A"],
        vec!["archive", "bad.json"],
    ] {
        for target in ["new.8xp", "old.8xp", "in.8xp", "bad.8xp"] {
            for del in [false, true] {
                for ans in [&b"y\n"[..], b""] {
                    let mut a = args.clone();
                    a.extend(["-f", target]);
                    if del {
                        a.push("-d");
                    }
                    let mut fs = base.clone();
                    fs.insert("bad.8xp".into(), file(&b.bytes(false)[..70]));
                    fs.insert("bad.txt".into(), file("x\ny\n"));
                    fs.insert("bad.json".into(), file("{}"));
                    let c = Case::new(&fs, &a, ans);
                    let d = c.run(ctx, &[]);
                    ctx.state(1);
                    let r = if d.out.code == 0 { Err("status 0".to_string()) } else { sane(&d.out).and_then(|_| untouched(&fs, &d)) };
                    c.check(ctx, "refused edit", r);
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------- C15
const READ_ONLY_OPS: [&str; 0] = [];

pub fn c15(ctx: &Ctx) {
    let _ = READ_ONLY_OPS;
    let [a, b, c3, d4] = progs();
    let mut base = Fs::new();
    base.insert("in.8xp".into(), file(a.bytes(false)));
    base.insert("in.83p".into(), file(b.bytes(true)));
    base.insert("in.txt".into(), file(txt_of(&c3, ACCESSIBLE)));
    base.insert("in.json".into(), file(json_of(ctx, &d4)));
    base.insert("old.8xp".into(), file(d4.bytes(false)));
    base.insert("old.txt".into(), file("an older text that is much longer than the new one ".repeat(30)));
    base.insert("old.json".into(), file("{}"));
    base.insert("old.83p".into(), file(""));
    base.insert("ln.8xp".into(), Node::Link("old.8xp".into()));
    base.insert("sub".into(), Node::Dir);
    let mut sc: Vec<Case> = vec![];
    let add = |sc: &mut Vec<Case>, fs: &Fs, args: &[&str], stdin: &[u8]| sc.push(Case::new(fs, args, stdin));
    for (i, o) in [("8xp", "txt"), ("8xp", "json"), ("txt", "8xp"), ("json", "83p"), ("83p", "8xp"), ("txt", "txt"), ("json", "8xp"), ("8xp", "83p")] {
        for t in ["new", "old", "sub/new"] {
            if t == "sub/new" && o != "8xp" {
                continue;
            }
            add(&mut sc, &base, &["convert", &format!("in.{i}"), "-o", &format!("{t}.{o}")], b"y\ny\n");
        }
    }
    add(&mut sc, &base, &["convert", "in.txt", "-o", "in.txt"], b"y\n");
    add(&mut sc, &base, &["convert", "in.83p", "-o", "in.83p"], b"y\n");
    add(&mut sc, &base, &["convert", "in.txt", "-o", "ln.8xp"], b"y\n");
    add(&mut sc, &base, &["convert", "in.txt", "-o", "old.8xp"], b"n\n");
    for k in 0..6 {
        let e = six(k);
        for f in ["in.8xp", "in.83p"] {
            if f == "in.83p" && k > 1 {
                continue;
            }
            sc.push(Case::new(&base, &e.args(f), b"y\n"));
        }
        if k > 2 && !ctx.thorough {
            continue;
        }
        for t in ["new.8xp", "old.8xp", "in.8xp", "./in.8xp", "new.txt", "ln.8xp"] {
            for del in [false, true] {
                if !del && t != "new.8xp" && k > 0 {
                    continue;
                }
                let mut x = strs(&e.args("in.8xp"));
                x.extend(strs(&["-f", t]));
                if del {
                    x.push("-d".into());
                }
                sc.push(Case { fs: base.clone(), args: x, stdin: b"y\n".to_vec(), ..Default::default() });
            }
        }
    }
    // a large program
    let mut big = base.clone();
    let mut p = Prog::new("BIG", &[0x41; 60000]);
    p.body[30000] = 0x3F;
    big.insert("in.8xp".into(), file(p.bytes(false)));
    big.insert("old.8xp".into(), file(Prog::new("BIG", &[0x42; 60000]).bytes(false)));
    add(&mut sc, &big, &["rename", "in.8xp", "-n", "BIGGER"], b"y\n");
    add(&mut sc, &big, &["lock", "in.8xp", "-f", "old.8xp", "-d"], b"y\n");
    add(&mut sc, &big, &["convert", "in.8xp", "-o", "old.txt"], b"y\n");
    // mass conversion
    let mut mass = Fs::new();
    mass.insert("d".into(), Node::Dir);
    mass.insert("d/a.8xp".into(), file(a.bytes(false)));
    mass.insert("d/b.txt".into(), file(txt_of(&b, ACCESSIBLE)));
    mass.insert("d/c.json".into(), file(json_of(ctx, &c3)));
    let many = b"y\n".repeat(12);
    add(&mut sc, &mass, &["convert", "d", "-m", "-o", "new"], &many);
    add(&mut sc, &mass, &["convert", "d", "-m", "-o", "d"], b"");
    let mut m = mass.clone();
    m.insert("o".into(), Node::Dir);
    add(&mut sc, &m, &["convert", "d", "-m", "-o", "o"], &many);
    add(&mut sc, &m, &["convert", "d", "-m", "-o", "o"], b"");
    m.insert("o/AAA.txt".into(), file("old"));
    m.insert("o/CCC.8xp".into(), file(d4.bytes(false)));
    add(&mut sc, &m, &["convert", "d", "-m", "-o", "o"], &many);

    let shim = ctx.shim.to_string_lossy().to_string();
    let distinct: Mutex<BTreeSet<(usize, String)>> = Mutex::new(BTreeSet::new());
    let evals = Mutex::new(0u64);
    // the calls of the run without faults
    struct Plan {
        i: usize,
        calls: Vec<String>,
        reads: usize,
        clean: Done,
    }
    let idx: Vec<usize> = (0..sc.len()).collect();
    let log_of = |c: &Case, i: usize, faults: &str, read: &str| -> (Done, Vec<String>) {
        let log = ctx.scratch.join(format!("log-{i}-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
        let _ = std::fs::remove_file(&log);
        let l = log.to_string_lossy().to_string();
        let mut env = vec![("LD_PRELOAD", shim.as_str()), ("TV_LOG", l.as_str()), ("TV_PERM", "0")];
        if !faults.is_empty() {
            env.push(("TV_FAULT", faults));
        }
        if !read.is_empty() {
            env.push(("TV_READ", read));
        }
        let d = c.run(ctx, &env);
        let calls = std::fs::read_to_string(&log).unwrap_or_default().lines().map(|x| x.to_string()).collect();
        let _ = std::fs::remove_file(&log);
        (d, calls)
    };
    let plans: Vec<Plan> = par_map(ctx, &idx, |&i| {
        let (clean, calls) = log_of(&sc[i], i, "", "");
        if clean.out.code != 0 {
            sc[i].check(ctx, "no fault", Err(format!("status {}: {}", clean.out.code, clean.out.se())));
        }
        // how many reads of files there are: count until a failing read is not reached any more
        let mut reads = 0;
        while reads < 60 {
            let (d, _) = log_of(&sc[i], i, "", &format!("{}:e5", reads + 1));
            if d.after == clean.after && d.out.code == 0 && d.out.stderr == clean.out.stderr && d.out.stdout == clean.out.stdout {
                break;
            }
            reads += 1;
        }
        Plan { i, calls, reads, clean }
    })
    .into_iter()
    .flatten()
    .collect();
    ctx.state(plans.len() as u64);
    let judge = |c: &Case, p: &Plan, d: &Done, log: &[String], faults: &str| -> Result<(), String> {
        let (f0, f1, f) = (&c.before(), &p.clean.after, &d.after);
        let killed = d.out.code == -1;
        if !killed {
            sane(&d.out)?;
        }
        let quit = d.out.se().contains("Quit:");
        // existing files
        for (k, v) in f0 {
            match (f1.get(k), f.get(k)) {
                (_, Some(x)) if x == v => {}
                (Some(n), Some(x)) if x == n => {}
                // a deleted old file: only with the complete new file
                (None, None) => {
                    let saved = f1.iter().filter(|(k, v)| f0.get(*k) != Some(v)).all(|(k, v)| f.get(k) == Some(v));
                    if !saved {
                        return Err(format!("{k} is deleted but the new file is not complete:\n{}", diff(f0, f)));
                    }
                }
                (_, x) => return Err(format!("{k} is neither the old nor the new file: {x:?}\n{}", diff(f0, f))),
            }
        }
        // a fault in removing the temporary file can leave it
        let unlink_failed = faults.split(',').any(|x| {
            let n: usize = x.split(':').next().unwrap().parse().unwrap_or(0);
            !x.contains(":k") && !x.contains(":K") && log.get(n.wrapping_sub(1)).is_some_and(|l| l.contains(" unlink "))
        });
        for (k, v) in f {
            if f0.contains_key(k) {
                continue;
            }
            match f1.get(k) {
                Some(n) if n == v => {}
                Some(_) => return Err(format!("{k} is incomplete: {v:?}")),
                None if killed || unlink_failed => {
                    // what is left must not look like a program
                    let ext = k.rsplit('/').next().unwrap().rsplit_once('.').map(|x| x.1).unwrap_or("");
                    if EXTS.contains(&ext) {
                        return Err(format!("the unfinished file {k} has the name of a program"));
                    }
                }
                None => return Err(format!("{k} is left behind (status {}):\n{}", d.out.code, diff(f1, f))),
            }
        }
        let complete = f == f1;
        if !killed && !complete && d.out.code == 0 && !quit && !(c.args.contains(&"-m".to_string()) && d.out.so().contains("Failed to save")) {
            return Err(format!("status 0 but the result is not complete:\n{}\n{}", diff(f1, f), d.out.plain()));
        }
        if !killed && !complete && d.out.se().trim().is_empty() && !d.out.so().contains("Error") {
            return Err("no error message".into());
        }
        // success messages
        for l in d.out.plain().lines() {
            if let Some(rest) = l.strip_prefix("Successfully saved ") {
                let path = rest.rsplit(" to ").next().unwrap();
                if d.after.get(&clean(path)) != f1.get(&clean(path)) {
                    return Err(format!("{l:?} but the file is not complete"));
                }
            } else if l.starts_with("Successfully") && !f1.iter().all(|(k, v)| f.get(k) == Some(v)) {
                return Err(format!("{l:?} but the new file is not complete"));
            } else if l.starts_with("Deleted old file") && f.contains_key(&c.args[1]) {
                return Err("\"Deleted old file\" but it is there".into());
            }
        }
        Ok(())
    };
    let run = |p: &Plan, faults: &str, read: &str| -> (Done, Vec<String>) {
        let c = &sc[p.i];
        let (d, log) = log_of(c, p.i, faults, read);
        *evals.lock().unwrap() += 1;
        // reached: the call was made and the run differs from the run without faults
        distinct.lock().unwrap().insert((p.i, format!("{faults}{read} {:?} {}", log.len(), d.out.code)));
        let what = if faults.is_empty() {
            format!("read {read}")
        } else {
            format!("faults {faults} ({})", faults.split(',').map(|x| log.get(x.split(':').next().unwrap().parse::<usize>().unwrap() - 1).cloned().unwrap_or("not reached".into())).collect::<Vec<_>>().join(", "))
        };
        ctx.trace(1);
        ctx.sample(format!("{}: {what}", c.label()));
        if let Err(e) = judge(c, p, &d, &log, faults) {
            let w = format!("{what}: {}: {e}", c.label());
            let mut env = vec![("TV_PERM", "0")];
            if !faults.is_empty() {
                env.push(("TV_FAULT", faults))
            }
            if !read.is_empty() {
                env.push(("TV_READ", read))
            }
            ctx.violation(w.clone(), c.replay(&w, &env));
        }
        (d, log)
    };
    let kinds_of = |call: &str, len: usize| -> Vec<String> {
        let mut v: Vec<String> = ["k", "K", "e28", "e5", "e13", "e4", "e30", "e122"].iter().map(|x| x.to_string()).collect();
        let op = call.split(' ').nth(1).unwrap_or("");
        if op == "write" {
            v.extend(["z", "t", "s", "S", "t0", "t1", "s1", "S0"].iter().map(|x| x.to_string()));
            v.push(format!("t{}", len.saturating_sub(1)));
            v.push(format!("s{}", len.saturating_sub(1)));
            if len < 400 && ctx.thorough {
                for i in 2..len.saturating_sub(1) {
                    v.push(format!("t{i}"));
                    v.push(format!("S{i}"));
                }
            }
        }
        if op == "rename" {
            v.extend(["e18", "e1", "e2", "e21"].iter().map(|x| x.to_string()));
        }
        if op.starts_with("open") {
            v.extend(["e17", "e24", "e2"].iter().map(|x| x.to_string()));
        }
        v
    };
    // --- every call x every fault
    let mut singles: Vec<(usize, String)> = vec![];
    for (i, p) in plans.iter().enumerate() {
        let len = p.clean.after.iter().filter(|(k, v)| sc[p.i].fs.get(*k) != Some(v)).map(|(_, v)| if let Node::File(b) = v { b.len() } else { 0 }).max().unwrap_or(0);
        for (n, call) in p.calls.iter().enumerate() {
            for k in kinds_of(call, len) {
                singles.push((i, format!("{}:{k}", n + 1)));
            }
        }
        ctx.state(p.calls.len() as u64);
        ctx.note_add("calls that change files", p.calls.len() as u64);
        ctx.note_add("reads of files", p.reads as u64);
    }
    let second: Mutex<Vec<(usize, String, usize, Vec<String>)>> = Mutex::new(vec![]);
    par(ctx, &singles, |(i, f)| {
        let p = &plans[*i];
        let (d, log) = run(p, f, "");
        let n: usize = f.split(':').next().unwrap().parse().unwrap();
        if d.out.code != -1 && log.len() > n {
            second.lock().unwrap().push((*i, f.clone(), n, log));
        }
    });
    // --- failing and short reads
    let mut reads: Vec<(usize, String)> = vec![];
    for (i, p) in plans.iter().enumerate() {
        for n in 1..=p.reads {
            for e in ["e5", "e13", "e4", "s1", "s7"] {
                reads.push((i, format!("{n}:{e}")));
            }
        }
        reads.push((i, "0:s1".into()));
        reads.push((i, "0:s100".into()));
    }
    // one byte at a time is slow for the large program
    reads.retain(|(i, r)| r != "0:s1" || !sc[plans[*i].i].args.iter().any(|a| a == "BIGGER") || ctx.thorough);
    par(ctx, &reads, |(i, r)| {
        let p = &plans[*i];
        let (d, _) = run(p, "", r);
        // short and interrupted reads are no errors
        if (r.contains(":s") || r.contains(":e4")) && d.after != p.clean.after && r.contains(":s") {
            let w = format!("short read {r}: {}: {}", sc[p.i].label(), diff(&p.clean.after, &d.after));
            ctx.violation(w.clone(), sc[p.i].replay(&w, &[("TV_READ", r)]));
        }
    });
    // --- a second fault after the first: all pairs in the thorough tier, faults of the calls that only happen after a fault always
    let second = second.into_inner().unwrap();
    let mut pairs: Vec<(usize, String)> = vec![];
    for (i, f, n, log) in &second {
        let plan = &plans[*i];
        for (m, call) in log.iter().enumerate().skip(*n) {
            let usual = plan.calls.get(m).is_some_and(|c| c.split(' ').nth(1) == call.split(' ').nth(1));
            if usual && !ctx.thorough {
                continue;
            }
            let ks: Vec<&str> = if usual { vec!["k", "K", "e28", "s"] } else { vec!["k", "K", "e5", "e13", "t"] };
            for k in ks {
                if (k == "s" || k == "t") && !call.contains(" write ") {
                    continue;
                }
                // one representative errno for pairs
                if [":e13", ":e30", ":e122", ":e1", ":e2", ":e21", ":e17", ":e24"].iter().any(|e| f.ends_with(e)) {
                    continue;
                }
                pairs.push((*i, format!("{f},{}:{k}", m + 1)));
            }
        }
    }
    ctx.note("pairs of faults", pairs.len() as u64);
    par(ctx, &pairs, |(i, f)| {
        run(&plans[*i], f, "");
    });
    ctx.note("evaluations", *evals.lock().unwrap());
    ctx.note("distinct_nontrivial", distinct.lock().unwrap().len() as u64);
    ctx.note("scenarios", plans.len() as u64);
    ctx.note("rule", "every file-modifying call of every scenario x every fault of its kind, every read x failure and short read, and second faults; non-trivial: the call with the fault was reached; distinct: by scenario, faults, number of calls made and exit status");
}

// ------------------------------------------------------------------------------------------------- C17
pub fn c17(ctx: &Ctx) {
    let [a, b, c3, d4] = progs();
    let broken8 = a.bytes(false)[..60].to_vec();
    // entries of the input directory, with the files that they lead to
    struct Entry {
        name: &'static str,
        node: Node,
        outs: Vec<(String, Vec<u8>)>,
        broken: bool,
    }
    let single = |name: &str, content: &[u8], outs: &[&str], flags: &[&str]| -> Vec<(String, Vec<u8>)> {
        outs.iter()
            .map(|o| {
                let d = ctx.dir();
                d.write(name, content);
                let t = format!("single-{o}");
                let mut args = vec!["convert", name, "-o", &t];
                args.extend(flags);
                let r = ctx.run(&args, b"", &d.0);
                (o.to_string(), d.read(&t).unwrap_or_else(|| panic!("machinery: {args:?}: {}", r.se())))
            })
            .collect()
    };
    let jc = json_of(ctx, &c3);
    let named = |n: &str| {
        let mut p = a.clone();
        p.name = n.as_bytes().to_vec();
        p.bytes(false)
    };
    let entries = |flags: &[&str]| -> Vec<Entry> {
        let e = |name: &'static str, content: Vec<u8>, outs: &[&str]| Entry { name, outs: single(name, &content, outs, flags), node: Node::File(content), broken: false };
        vec![
            e("x.8xp", a.bytes(false), &["AAA.txt"]),
            e("x.txt", txt_of(&b, ACCESSIBLE).into_bytes(), &["BBB.8xp"]),
            Entry { name: "a-broken.8xp", node: file(&broken8), outs: vec![], broken: true },
            e("x.json", jc.clone(), &["CCC.txt", "CCC.8xp"]),
            Entry { name: "notes.md", node: file("# notes"), outs: vec![], broken: false },
            Entry { name: "m-broken.txt", node: file("just\ntext"), outs: vec![], broken: true },
            e("q.83p", d4.bytes(true), &["DDD.txt"]),
            Entry { name: "dir.8xp", node: Node::Dir, outs: vec![], broken: true },
            Entry { name: "noext", node: file("x"), outs: vec![], broken: false },
            Entry { name: "z-broken.json", node: file("{\"header\":"), outs: vec![], broken: true },
            e(".hidden.8xp", named("HIDDEN"), &["HIDDEN.txt"]),
            e("lower.8xp", named("lower"), &["lower.txt"]),
            e("a.b.c.8xp", named("Mixed1"), &["Mixed1.txt"]),
            e("two words.82p", { let mut p = d4.clone(); p.name = b"WORDS".to_vec(); p.bytes(true) }, &["WORDS.txt"]),
            e("\u{e9}\u{2192}.txt", { let mut p = b.clone(); p.name = b"UNI".to_vec(); txt_of(&p, ACCESSIBLE).into_bytes() }, &["UNI.8xp"]),
            Entry { name: "UPPER.8XP", node: file(named("UPPER")), outs: vec![], broken: false },
            Entry { name: "dead.8xp", node: Node::Link("nowhere".into()), outs: vec![], broken: true },
            Entry { name: "link.8xp", node: Node::Link("../outside.8xp".into()), outs: single("link.8xp", &named("OUTSIDE"), &["OUTSIDE.txt"], flags), broken: false },
            Entry { name: "empty.txt", node: file(""), outs: vec![], broken: true },
            Entry { name: "sub", node: Node::Dir, outs: vec![], broken: false },
            Entry { name: ".8xp", node: file(named("NOSTEM")), outs: vec![], broken: false },
            Entry { name: "short.8xp", node: file(&a.bytes(false)[..70]), outs: vec![], broken: true },
        ]
    };
    let es = entries(&[]);
    let shim = ctx.shim.to_string_lossy().to_string();
    let kinds = ["existing", "new", "input", "nested", "with files"];
    // (flags, entries, subset, permutation, kind of output directory)
    let mut todo: Vec<(usize, Vec<usize>, u64, usize)> = vec![];
    let (nsub, full) = if ctx.thorough { (9, 6) } else { (8, 4) };
    for mask in 0u32..1 << nsub {
        let s: Vec<usize> = (0..nsub).filter(|i| mask >> i & 1 == 1).collect();
        let fact: u64 = (1..=s.len() as u64).product();
        // all orders of small subsets; of the larger ones all rotations and their reversals
        for p in 0..fact {
            if s.len() > full && !all_adjacent(s.len(), p) {
                continue;
            }
            todo.push((0, s.clone(), p, 0));
        }
        for k in 1..kinds.len() {
            todo.push((0, s.clone(), 0, k));
            if s.len() > 1 {
                todo.push((0, s.clone(), fact - 1, k));
            }
        }
    }
    let all: Vec<usize> = (0..es.len()).collect();
    for s in [(0..10).collect(), vec![2, 3, 7, 8, 9], (10..all.len()).collect(), all.clone()] {
        for k in 0..kinds.len() {
            for p in if ctx.thorough { 0..120 } else { 0..12 } {
                todo.push((0, s.clone(), p, k));
            }
        }
    }
    // every pair of all entries in both orders, every three of them in the thorough tier
    for i in 0..all.len() {
        for j in 0..i {
            for p in 0..2 {
                todo.push((0, vec![j, i], p, 0));
            }
            for h in 0..if ctx.thorough { j } else { 0 } {
                for p in 0..6 {
                    todo.push((0, vec![h, j, i], p, 0));
                }
            }
        }
    }
    let flagsets: Vec<Vec<&str>> = vec![
        vec![],
        vec!["-d", "pretty"],
        vec!["-d", "ti"],
        vec!["-e", "min"],
        vec!["-e", "max", "-d", "accessible"],
        vec!["-c"],
        vec!["-p"],
        vec!["-c", "-p", "-d", "pretty", "-e", "min"],
    ];
    let sets: Vec<Vec<Entry>> = flagsets.iter().map(|f| if f.is_empty() { entries(&[]) } else { entries(f) }).collect();
    for f in 1..flagsets.len() {
        for k in 0..kinds.len() {
            for p in 0..2 {
                todo.push((f, vec![0, 1, 3, 6], p * 23, k));
                todo.push((f, (0..10).collect(), p * 3628799, k));
            }
        }
    }
    let _ = es;
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |(f, s, perm, kind)| {
        let es = &sets[*f];
        let mut fs = Fs::new();
        fs.insert("d".into(), Node::Dir);
        for i in s {
            fs.insert(format!("d/{}", es[*i].name), es[*i].node.clone());
            if es[*i].node == Node::Dir {
                fs.insert(format!("d/{}/inner.8xp", es[*i].name), file(d4.bytes(false)));
            }
            if es[*i].name == "link.8xp" {
                fs.insert("outside.8xp".into(), file(named("OUTSIDE")));
            }
        }
        let out = ["o", "o", "d", "d/o", "o"][*kind];
        match kind {
            0 | 3 => {
                fs.insert(out.into(), Node::Dir);
            }
            4 => {
                fs.insert("o".into(), Node::Dir);
                fs.insert("o/other.txt".into(), file("stays"));
                fs.insert("o/x.8xp".into(), file("stays too"));
            }
            _ => {}
        }
        let mut args = vec!["convert", "d", "-m", "-o", out];
        args.extend(&flagsets[*f]);
        let c = Case::new(&fs, &args, if *kind == 1 { b"y\n" } else { b"" });
        let mut want = fs.clone();
        want.insert(out.into(), Node::Dir);
        for i in s {
            for (n, b) in &es[*i].outs {
                want.insert(format!("{out}/{n}"), file(b));
            }
        }
        let p = perm.to_string();
        let d = c.run(ctx, &[("LD_PRELOAD", &shim), ("TV_PERM", &p)]);
        let broken = s.iter().any(|i| es[*i].broken);
        let judge = || -> Result<(), String> {
            sane(&d.out)?;
            if d.after != want {
                return Err(format!("order {p} of {:?}: unexpected files (status {}, {}):\n{}", s.iter().map(|i| es[*i].name).collect::<Vec<_>>(), d.out.code, d.out.se().trim(), diff(&want, &d.after)));
            }
            if broken != (d.out.code != 0) {
                return Err(format!("status {} {} broken files", d.out.code, if broken { "with" } else { "without" }));
            }
            for i in s {
                if es[*i].broken && !d.out.se().contains(es[*i].name) && !d.out.so().contains(es[*i].name) {
                    return Err(format!("{} is not reported", es[*i].name));
                }
            }
            Ok(())
        };
        ctx.trace(1);
        ctx.sample(format!("{} order {p} of {:?}", c.label(), s.iter().map(|i| es[*i].name).collect::<Vec<_>>()));
        if let Err(e) = judge() {
            let w = format!("output directory: {}: {}: {e}", kinds[*kind], c.label());
            ctx.violation(w.clone(), c.replay(&w, &[("TV_PERM", &p)]));
        }
    });
    mass_names(ctx);
    mass_sizes(ctx);
    mass_conflicts(ctx);
    mass_company(ctx);
    mass_entry_names(ctx);
}

/// What is made of a file does not depend on the files before it: all ordered pairs (thorough: triples of a part) of files of all
/// models, formats and modes, with all tokens of the model or with one that it does not have
fn mass_company(ctx: &Ctx) {
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    // unique names of programs
    let name = |n: usize| format!("{}{}", (b'A' + (n / 26) as u8) as char, (b'A' + (n % 26) as u8) as char);
    let newest = Table::new("latest");
    let everything = |t: &Table| -> Vec<u8> { t.tokens.keys().flatten().copied().collect() };
    let foreign = |t: &Table| newest.tokens.keys().find(|k| !t.tokens.contains_key(*k)).cloned();
    for (i, (sig, product, model)) in FILE_MODELS.iter().enumerate() {
        let t = Table::new(crate::export::generation(&MODELS.iter().find(|m| m.0 == *model).unwrap()).model);
        let mut bodies = vec![everything(&t)];
        bodies.extend(foreign(&t).map(|k| [&[0x41], &k[..]].concat()));
        for (j, body) in bodies.iter().enumerate() {
            for ext in ["8xp", "83p"] {
                if ext == "83p" && (i + j) % 3 != 0 {
                    continue;
                }
                let mut p = Prog::new(&name(files.len()), body);
                p.sig = sig.to_string();
                p.product = *product;
                p.ftype = TYPES[i % 4];
                p.dest = DESTS[if ext == "83p" { 0 } else { i % 2 }];
                p.comment = format!("no {}", files.len()).into_bytes();
                files.push((ext.into(), p.file(ext)));
                if j == 0 && i % 3 == 0 && ext == "8xp" {
                    p.name = name(files.len()).into_bytes();
                    files.push(("json".into(), json_of(ctx, &p)));
                }
            }
        }
    }
    for (i, g) in GENERATIONS.iter().enumerate() {
        let t = Table::new(g);
        for mode in 0..3 {
            if mode != ACCESSIBLE && i % 4 != 0 {
                continue;
            }
            let mut x = Txt::new(&name(files.len()), mode, g, &t.decode(&everything(&t), mode).unwrap());
            x.ftype = type_name(TYPES[i % 4]).into();
            x.dest = dest_name(DESTS[i % 2]).into();
            files.push(("txt".into(), x.text().into_bytes()));
            if let (Some(k), ACCESSIBLE) = (foreign(&t), mode) {
                files.push(("txt".into(), Txt::new(&name(files.len()), mode, g, &format!("A{}", newest.tokens[&k][mode])).text().into_bytes()));
            }
        }
    }
    let shim = ctx.shim.to_string_lossy().to_string();
    for (fi, flags) in [&["-o", "o"][..], &["-c", "-p"], &["-o", "o", "-d", "pretty", "-e", "min"]].into_iter().enumerate() {
        let case = |s: &[usize]| {
            let mut fs = Fs::new();
            fs.insert("d".into(), Node::Dir);
            fs.insert("o".into(), Node::Dir);
            for (n, i) in s.iter().enumerate() {
                fs.insert(format!("d/{n}.{}", files[*i].0), file(&files[*i].1));
            }
            Case::new(&fs, &[&["convert", "d", "-m"], flags].concat(), b"")
        };
        let made = |d: &Done| -> Fs { d.after.iter().filter(|(k, _)| k.starts_with("o/")).map(|(k, v)| (k.clone(), v.clone())).collect() };
        let indices: Vec<usize> = (0..files.len()).collect();
        let alone: Vec<(i32, Fs, String)> = par_map(ctx, &indices, |i| {
            let d = case(&[*i]).run(ctx, &[]);
            (d.out.code, made(&d), d.out.so().trim().to_string())
        })
        .into_iter()
        .flatten()
        .collect();
        if alone.len() != files.len() {
            return;
        }
        let good = alone.iter().filter(|a| a.0 == 0).count();
        ctx.note(&format!("company {}: files converted alone", flags.join(" ")), format!("{good} of {}", files.len()));
        let mut todo: Vec<(Vec<usize>, u64)> = vec![];
        for i in 0..files.len() {
            for j in 0..i {
                for p in 0..2 {
                    if fi == 0 || ctx.thorough || (i + j) % 4 == 0 {
                        todo.push((vec![j, i], p));
                    }
                }
                for h in (0..j).filter(|h| ctx.thorough && fi == 0 && (h + i + j) % 7 == 0) {
                    todo.extend((0..6).map(|p| (vec![h, j, i], p)));
                }
            }
        }
        ctx.state(todo.len() as u64);
        par(ctx, &todo, |(s, perm)| {
            let c = case(s);
            let p = perm.to_string();
            let env = [("LD_PRELOAD", &shim[..]), ("TV_PERM", &p)];
            let d = c.run(ctx, &env);
            ctx.trace(1);
            let judge = || -> Result<(), String> {
                sane(&d.out)?;
                let want: Fs = s.iter().flat_map(|i| alone[*i].1.clone()).collect();
                if made(&d) != want {
                    return Err(format!("not what each file is converted to alone (status {}, {}):\n{}", d.out.code, d.out.se().trim(), diff(&want, &made(&d))));
                }
                let fails = s.iter().any(|i| alone[*i].0 != 0);
                if fails != (d.out.code != 0) {
                    return Err(format!("status {}, alone {:?}", d.out.code, s.iter().map(|i| alone[*i].0).collect::<Vec<_>>()));
                }
                if fi == 1 {
                    for i in s {
                        if alone[*i].0 == 0 && !d.out.so().contains(&alone[*i].2) {
                            return Err(format!("what is shown of {} alone is not shown", files[*i].0));
                        }
                    }
                }
                Ok(())
            };
            if let Err(e) = judge() {
                let w = format!("order {p} of {s:?}: {}: {e}", c.label());
                ctx.violation(w.clone(), c.replay(&w, &env));
            }
        });
    }
}

/// Names of files that are not UTF-8, long, or full of signs, of good and broken files of every kind: the entry is converted or
/// reported just as it is under a plain name, and the others are converted all the same
fn mass_entry_names(ctx: &Ctx) {
    use std::ffi::OsStr;
    use std::os::unix::ffi::OsStrExt;
    let p = Prog::new("ENTRY", b"1");
    let mut nameless = p.clone();
    nameless.name = vec![];
    let content = |ext: &str, p: &Prog| match ext {
        "txt" => txt_of(p, ACCESSIBLE).into_bytes(),
        "json" => json_of(ctx, p),
        _ => p.file(ext),
    };
    let mut names: Vec<Vec<u8>> = vec![b"\xff".to_vec(), b"a\xffb".to_vec(), b"\xc3".to_vec(), b"\xed\xa0\x80".to_vec(), b"\xff.\xfe".to_vec(), b"-o".to_vec(), b"--".to_vec(), b" ".to_vec(), b"*".to_vec(), b"a\nb".to_vec(), b"[color:red]".to_vec(), b"%s{}".to_vec(), b".".to_vec(), b"..".to_vec(), b"~".to_vec(), b"\\".to_vec()];
    for n in [100, 240, 249, 250, 251] {
        names.push(vec![b'n'; n]);
    }
    if ctx.thorough {
        names.extend((1..=255u8).filter(|c| *c != b'/').map(|c| vec![c]));
        names.extend((1..=255u8).filter(|c| *c != b'/').map(|c| vec![b'x', c]));
    }
    const KINDS: [&str; 8] = ["good", "without a program name", "broken", "empty", "dangling", "looping", "directory", "unreadable"];
    let todo: Vec<(&Vec<u8>, usize, usize)> = names.iter().flat_map(|n| (0..5).flat_map(move |e| (0..KINDS.len()).map(move |k| (n, e, k)))).collect();
    ctx.state(todo.len() as u64);
    let shim = ctx.shim.to_string_lossy().to_string();
    par(ctx, &todo, |(name, e, kind)| {
        let ext = EXTS[*e];
        if name.len() + 1 + ext.len() > 255 {
            return;
        }
        if KINDS[*kind] == "unreadable" && !permissions_count(ctx) || KINDS[*kind] == "without a program name" && ext == "txt" {
            return;
        }
        let run = |name: &[u8], perm: u64, outs: &[&str]| {
            let full = [name, b".", ext.as_bytes()].concat();
            let d = ctx.dir();
            std::fs::create_dir(d.p("d")).unwrap();
            std::fs::create_dir(d.p("o")).unwrap();
            d.write("d/m.8xp", Prog::new("OTHER", b"2").bytes(false));
            let x = d.p("d").join(OsStr::from_bytes(&full));
            match KINDS[*kind] {
                "good" | "unreadable" => std::fs::write(&x, content(ext, &p)).unwrap(),
                "without a program name" => std::fs::write(&x, content(ext, &nameless)).unwrap(),
                "broken" => std::fs::write(&x, b"this is no program").unwrap(),
                "empty" => std::fs::write(&x, b"").unwrap(),
                "dangling" => std::os::unix::fs::symlink("nowhere", &x).unwrap(),
                "looping" => std::os::unix::fs::symlink(OsStr::from_bytes(&full), &x).unwrap(),
                _ => std::fs::create_dir(&x).unwrap(),
            }
            if KINDS[*kind] == "unreadable" {
                std::fs::set_permissions(&x, std::fs::Permissions::from_mode(0)).unwrap();
            }
            let before = snapshot(&d.p("d"));
            let perm = perm.to_string();
            let o = ctx.run_env(&[&["convert", "d", "-m"], outs].concat(), b"", &d.0, &[("LD_PRELOAD", &shim), ("TV_PERM", &perm)]);
            ctx.transition(1);
            let kept = snapshot(&d.p("d")) == before;
            let mut made: Vec<(String, Vec<u8>)> = snapshot(&d.p("o")).into_iter().map(|(k, v)| (k, if let Node::File(b) = v { b } else { b"?".to_vec() })).collect();
            if KINDS[*kind] == "without a program name" {
                // what such a file is called comes from its own name
                made.retain(|m| !m.0.starts_with("OTHER"));
                for m in &mut made {
                    m.0 = m.0.rsplit('.').next().unwrap().into();
                }
                if let Some(b) = d.read("o/OTHER.txt") {
                    made.push(("OTHER.txt".into(), b));
                }
            }
            (o, made, kept)
        };
        for outs in [&["-o", "o"][..], &["-p", "-c"]] {
            let (want, files, _) = run(b"plain", 0, outs);
            for perm in 0..2 {
                let (o, made, kept) = run(name, perm, outs);
                let judge = || -> Result<(), String> {
                    sane(&o)?;
                    if !kept {
                        return Err("the directory that is converted changed".into());
                    }
                    if made != files {
                        return Err(format!("made {:?} instead of {:?}, status {}: {}", made.iter().map(|m| &m.0).collect::<Vec<_>>(), files.iter().map(|m| &m.0).collect::<Vec<_>>(), o.code, o.se().trim()));
                    }
                    if o.code != want.code {
                        return Err(format!("status {}, under a plain name {}: {}", o.code, want.code, o.se().trim()));
                    }
                    if outs.len() == 2 && outs[0] == "-p" && o.so().len() != want.so().len() {
                        return Err(format!("shows {:?}, under a plain name {:?}", o.plain(), want.plain()));
                    }
                    Ok(())
                };
                ctx.trace(1);
                if let Err(e) = judge() {
                    let shown: String = name.iter().map(|c| format!("\\{c:03o}")).collect();
                    let w = format!("`convert d -m {}` of a directory with m.8xp and an entry of the kind {:?} with the name '{shown}.{ext}', in order {perm}: {e}", outs.join(" "), KINDS[*kind]);
                    let w: String = w.chars().take(1500).collect();
                    let made = match KINDS[*kind] {
                        "good" | "unreadable" | "without a program name" => {
                            let c = content(ext, if KINDS[*kind] == "without a program name" { &nameless } else { &p });
                            Replay::new(&w).raw("mkdir d o").file("d/m.8xp", &Prog::new("OTHER", b"2").bytes(false)).file("d/x", &c).raw("mv d/x \"d/$N\"")
                        }
                        k => Replay::new(&w).raw("mkdir d o").file("d/m.8xp", &Prog::new("OTHER", b"2").bytes(false)).raw(match k {
                            "broken" => "echo broken > \"d/$N\"",
                            "empty" => ": > \"d/$N\"",
                            "directory" => "mkdir \"d/$N\"",
                            _ => "ln -s nowhere \"d/$N\"",
                        }),
                    };
                    ctx.violation(w.clone(), made.cmd(&[&["convert", "d", "-m"], outs].concat(), b"").end().replacen("mkdir d o", &format!("N=\"$(printf '{shown}.{ext}')\"\nmkdir d o"), 1));
                }
            }
        }
    });
}

/// Saving where something exists: every answer to every question, in every order of the directory.
/// A declined file stays as it is; after a skipped one everything else is still converted; quitting changes
/// nothing further. The outcome must be one that some order of the entries leads to.
fn mass_conflicts(ctx: &Ctx) {
    let named = |n: &str, body: &[u8]| Prog::new(n, body);
    let jsonp = |p: &Prog| json_of(ctx, p);
    let txtp = |p: &Prog| txt_of(p, ACCESSIBLE).into_bytes();
    let (a, b, c, d) = (named("AAA", b"A"), named("BBB", b"B"), named("CCC", b"C"), named("DDD", b"D"));
    // different targets; the same target for all; inputs that are targets of other inputs
    let families: Vec<(&str, Vec<(&str, Vec<u8>)>, Vec<&str>)> = vec![
        ("different targets", vec![("x.8xp", a.bytes(false)), ("y.txt", txtp(&b)), ("z.json", jsonp(&c)), ("q.83p", d.bytes(true))], vec!["AAA.txt", "BBB.8xp", "CCC.txt", "CCC.8xp", "DDD.txt"]),
        ("one target", vec![("x.8xp", a.bytes(false)), ("w.82p", named("AAA", b"X").bytes(true)), ("y.txt", txtp(&named("AAA", b"Y"))), ("z.json", jsonp(&named("AAA", b"Z")))], vec!["AAA.txt", "AAA.8xp"]),
        ("a target is an input", vec![("x.8xp", a.bytes(false)), ("AAA.txt", txtp(&b)), ("BBB.8xp", named("CCC", b"Q").bytes(false)), ("n.json", jsonp(&c))], vec!["CCC.8xp"]),
        ("a broken file among them", vec![("x.8xp", a.bytes(false)), ("k.8xp", b"broken".to_vec()), ("z.json", jsonp(&c))], vec!["AAA.txt", "CCC.txt", "CCC.8xp"]),
    ];
    let mut scripts: Vec<Vec<bool>> = vec![vec![]];
    let mut level = scripts.clone();
    for _ in 0..if ctx.thorough { 8 } else { 6 } {
        level = level.iter().flat_map(|l| [true, false].map(|x| [l.clone(), vec![x]].concat())).collect();
        scripts.extend(level.clone());
    }
    // what a file is converted to, observed alone
    type Outs = Option<Vec<(String, Vec<u8>)>>;
    let memo: std::sync::Mutex<BTreeMap<(String, Vec<u8>), Outs>> = Default::default();
    let conv = |name: &str, content: &[u8]| -> Outs {
        let ext = name.rsplit('.').next().unwrap().to_string();
        if let Some(o) = memo.lock().unwrap().get(&(ext.clone(), content.to_vec())) {
            return o.clone();
        }
        let mut fs = Fs::new();
        fs.insert("i".into(), Node::Dir);
        fs.insert("o".into(), Node::Dir);
        fs.insert(format!("i/only.{ext}"), file(content));
        let r = Case::new(&fs, &["convert", "i", "-m", "-o", "o"], b"").run(ctx, &[]);
        let outs: Vec<(String, Vec<u8>)> = r.after.iter().filter(|(k, _)| k.starts_with("o/")).filter_map(|(k, v)| if let Node::File(b) = v { Some((k[2..].to_string(), b.clone())) } else { None }).collect();
        let o = if r.out.code == 0 && !outs.is_empty() { Some(outs) } else { None };
        memo.lock().unwrap().insert((ext, content.to_vec()), o.clone());
        o
    };
    // (family, existing targets, script, order, output directory: other, input, missing)
    let mut todo: Vec<(usize, u32, &Vec<bool>, u64, usize)> = vec![];
    for (k, (_, es, ts)) in families.iter().enumerate() {
        let fact: u64 = (1..=es.len() as u64).product();
        for mask in 0..1u32 << ts.len() {
            for (n, sc) in scripts.iter().enumerate() {
                for place in 0..3 {
                    if place == 2 && mask != 0 || k == 2 && place != 1 {
                        continue;
                    }
                    for p in 0..fact {
                        // the orders in turn in the quick tier
                        if ctx.thorough && sc.len() < 6 || (p as usize + n + mask as usize + place) % if k == 0 { 12 } else { 4 } == 0 {
                            todo.push((k, mask, sc, p, place));
                        }
                    }
                }
            }
        }
    }
    ctx.state(todo.len() as u64);
    ctx.note("conflicts in mass conversions", todo.len() as u64);
    let shim = ctx.shim.to_string_lossy().to_string();
    par(ctx, &todo, |(k, mask, sc, perm, place)| {
        let (what, es, ts) = &families[*k];
        let out = ["o", "d", "o"][*place];
        let mut fs = Fs::new();
        fs.insert("d".into(), Node::Dir);
        if *place < 2 {
            fs.insert(out.into(), Node::Dir);
        }
        for (n, c) in es {
            fs.insert(format!("d/{n}"), file(c));
        }
        for (i, t) in ts.iter().enumerate() {
            // something that is not a program: in the input directory it is an entry too
            if mask >> i & 1 == 1 {
                fs.insert(format!("{out}/{t}"), file(format!("existing {t}")));
            }
        }
        let stdin: String = sc.iter().map(|x| if *x { "y\n" } else { "n\n" }).collect();
        let c = Case::new(&fs, &["convert", "d", "-m", "-o", out], stdin.as_bytes());
        let p = perm.to_string();
        let d = c.run(ctx, &[("LD_PRELOAD", &shim), ("TV_PERM", &p)]);
        let entries: Vec<String> = fs.keys().filter(|x| x.starts_with("d/") && matches!(fs[*x], Node::File(_))).cloned().collect();
        let judge = || -> Result<(), String> {
            sane(&d.out)?;
            // every order of the entries x order of the two files of a json file x whether the second is tried
            // when the first is declined x reading the inputs at once or one after the other
            let n = entries.len();
            let fact: u64 = (1..=n as u64).product();
            for o in 0..fact {
                let mut rest: Vec<&String> = entries.iter().collect();
                let mut order = vec![];
                let mut q = o;
                for m in (1..=n as u64).rev() {
                    order.push(rest.remove((q % m) as usize));
                    q /= m;
                }
                for variant in 0..8 {
                    let mut files = fs.clone();
                    let mut it = sc.iter();
                    let mut ask = || it.next().copied().unwrap_or(false);
                    let (mut declined, mut broken, mut quit) = (false, false, false);
                    if *place == 2 {
                        if !ask() {
                            if files == d.after && d.out.code != 0 {
                                return Ok(());
                            }
                            break;
                        }
                        files.insert(out.into(), Node::Dir);
                    }
                    'entries: for e in &order {
                        let from = if variant & 1 == 0 { &files } else { &fs };
                        let Some(Node::File(content)) = from.get(*e) else { continue };
                        let Some(mut outs) = conv(e, content) else {
                            broken = true;
                            continue;
                        };
                        outs.sort();
                        if variant & 2 == 0 {
                            outs.reverse();
                        }
                        for (t, b) in outs {
                            let t = format!("{out}/{t}");
                            if files.contains_key(&t) && !ask() {
                                declined = true;
                                if !ask() {
                                    quit = true;
                                    break 'entries;
                                }
                                if variant & 4 == 0 {
                                    break;
                                }
                                continue;
                            }
                            files.insert(t, file(b));
                        }
                    }
                    // a broken file is a failure, whatever is answered for the others
                    if files == d.after && (d.out.code != 0 || !broken) && (declined || quit || broken || d.out.code == 0) {
                        return Ok(());
                    }
                }
            }
            Err(format!("order {p}, status {}: no order of the files leads to this:\n{}\n{}", d.out.code, diff(&fs, &d.after), d.out.plain()))
        };
        ctx.trace(1);
        ctx.sample(format!("{what}: {} order {p}", c.label()));
        if let Err(e) = judge() {
            let w = format!("{what}: {}: {e}", c.label());
            ctx.violation(w.clone(), c.replay(&w, &[("TV_PERM", &p)]));
        }
    });
}

/// Permutation numbers whose orders, together, put every pair of entries in both orders next to each other
fn all_adjacent(n: usize, p: u64) -> bool {
    // the first and last block of the factorial number system: rotations of the sorted and of the reversed order
    let f: u64 = (1..n as u64).product();
    p % f == 0 || p % f == f - 1
}

/// Names in the files that could lead out of the output directory
/// Directories of every size up to a bound and of sizes around powers of two
fn mass_sizes(ctx: &Ctx) {
    let mut sizes: Vec<usize> = (0..if ctx.thorough { 140 } else { 70 }).collect();
    sizes.extend([99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]);
    if ctx.thorough {
        sizes.extend([2047, 2048, 2049, 4095, 4096, 4097, 5000]);
    }
    ctx.state(sizes.len() as u64);
    par(ctx, &sizes, |n| {
        let letters = |i: usize| [b'A' + (i / 676) as u8, b'A' + (i / 26 % 26) as u8, b'A' + (i % 26) as u8].to_vec();
        let mut fs = Fs::new();
        fs.insert("d".into(), Node::Dir);
        fs.insert("o".into(), Node::Dir);
        let mut want = fs.clone();
        for i in 0..*n {
            let mut p = Prog::new("", &[0x41, 0x3F, 0x42 + (i % 20) as u8]);
            p.name = letters(i);
            let name = String::from_utf8(p.name.clone()).unwrap();
            let text = i % 3 == 1;
            let input = if text { txt_of(&p, ACCESSIBLE).into_bytes() } else { p.bytes(false) };
            fs.insert(format!("d/f{i}.{}", if text { "txt" } else { "8xp" }), file(&input));
            want.insert(if text { format!("o/{name}.8xp") } else { format!("o/{name}.txt") }, file(if text { p.bytes(false) } else { txt_of(&p, ACCESSIBLE).into_bytes() }));
        }
        let mut c = Case::new(&fs, &["convert", "d", "-m", "-o", "o"], b"");
        c.stdin = vec![];
        let d = c.run(ctx, &[]);
        let judge = || -> Result<(), String> {
            sane(&d.out)?;
            if d.out.code != 0 {
                return Err(format!("status {}: {}", d.out.code, d.out.se().trim()));
            }
            for (k, v) in &fs {
                if d.after.get(k) != Some(v) {
                    return Err(format!("{k} changed"));
                }
            }
            let outs: Vec<&String> = d.after.keys().filter(|k| k.starts_with("o/")).collect();
            if outs.len() != *n || d.after.len() != fs.len() + n {
                return Err(format!("{} files were created from {n}", outs.len()));
            }
            for (k, v) in want.iter().filter(|(k, _)| k.starts_with("o/")) {
                let same = match (d.after.get(k), v) {
                    // the comment of a program made from text is the tool's
                    (Some(Node::File(a)), Node::File(b)) if k.ends_with(".8xp") => parse(a, "8xp").is_ok_and(|x| parse(b, "8xp").is_ok_and(|y| x.body == y.body && x.name == y.name)),
                    (a, b) => a == Some(b),
                };
                if !same {
                    return Err(format!("{k} is missing or wrong"));
                }
            }
            Ok(())
        };
        if judge().is_err() {
            c.check(ctx, &format!("directory of {n} files"), judge());
        }
    });
}

fn mass_names(ctx: &Ctx) {
    let mut names: Vec<String> = [
        "../X", "a/b", "..", ".", "/abs", "", "a\\b", "C:X", "X\nY", "X\rY", "*", "~", "-o", "..\\X", "a/..", "/", "//", "./", "../..", "é", "Θ", " ", "A B", "a.b", ".hid", "X.8xp", "abc", "Abc", "A1", "1", "A B ", "ABCDEFGH", "$HOME", "`id`", "%s", "\u{1b}[0m", "\u{7f}",
        "con", "a/../../b", "....//x", "x/",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    let alpha = ['.', '/', 'a', '\\', ':'];
    for n in 1..=if ctx.thorough { 4 } else { 3 } {
        let mut l = vec![String::new()];
        for _ in 0..n {
            l = l.iter().flat_map(|s| alpha.iter().map(move |c| format!("{s}{c}"))).collect();
        }
        names.extend(l);
    }
    // every character at the start, in the middle and at the end; letters and digits in every arrangement up to the full length
    for c in 1..128u8 {
        let c = c as char;
        names.extend([format!("{c}AB"), format!("A{c}B"), format!("AB{c}"), format!("ABCDEFG{c}")]);
    }
    for n in 1..=8 {
        for m in 0..1u32 << n {
            names.push((0..n).map(|i| if m >> i & 1 == 1 { '7' } else { 'Q' }).collect());
        }
    }
    let mut seen = BTreeSet::new();
    names.retain(|n| seen.insert(n.clone()));
    let base = progs()[0].clone();
    let json = String::from_utf8(json_of(ctx, &base)).unwrap();
    let todo: Vec<(&String, usize)> = names.iter().flat_map(|n| (0..3).map(move |k| (n, k))).collect();
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |(name, kind)| {
        let mut fs = Fs::new();
        for d in ["top", "top/mid", "top/mid/in", "top/mid/out"] {
            fs.insert(d.into(), Node::Dir);
        }
        let content = match kind {
            0 => {
                let b: Vec<u8> = name.chars().map(|c| c as u32 as u8).collect();
                if b.len() > 8 || name.chars().any(|c| c as u32 > 255) {
                    return;
                }
                let mut p = base.clone();
                p.name = b;
                ("stem.8xp", p.bytes(false))
            }
            1 => {
                if name.contains('\n') {
                    return;
                }
                let mut t = Txt::new(name, ACCESSIBLE, "latest", "A");
                t.name = name.to_string();
                ("stem.txt", t.text().into_bytes())
            }
            _ => {
                let mut v: serde_json::Value = serde_json::from_str(&json).unwrap();
                v["metadata"]["name"] = serde_json::json!(name);
                ("stem.json", serde_json::to_vec(&v).unwrap())
            }
        };
        fs.insert(format!("top/mid/in/{}", content.0), file(&content.1));
        let c = Case::new(&fs, &["convert", "top/mid/in", "-m", "-o", "top/mid/out"], b"");
        let d = c.run(ctx, &[]);
        let alone = {
            let mut one = Fs::new();
            one.insert(content.0.into(), file(&content.1));
            let ext = if *kind == 1 { "8xp" } else { "txt" };
            let t = format!("t.{ext}");
            Case::new(&one, &["convert", content.0, "-o", &t], b"").run(ctx, &[]).read(&t).cloned()
        };
        let judge = || -> Result<(), String> {
            sane(&d.out)?;
            for (k, v) in &fs {
                if d.after.get(k) != Some(v) {
                    return Err(format!("{k} changed"));
                }
            }
            let new: Vec<(&String, &Node)> = d.after.iter().filter(|(k, _)| !fs.contains_key(*k)).collect();
            for (k, _) in &new {
                if !k.starts_with("top/mid/out/") || k["top/mid/out/".len()..].contains('/') {
                    return Err(format!("{k} was created outside the output directory"));
                }
            }
            match &alone {
                Some(b) => {
                    if d.out.code != 0 || new.is_empty() || !new.iter().any(|n| *n.1 == file(b)) {
                        return Err(format!("not converted (status {}): {}", d.out.code, d.out.se().trim()));
                    }
                    let plain = !name.is_empty() && name.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ');
                    let e = if *kind == 1 { "8xp" } else { "txt" };
                    if plain && !new.iter().any(|n| *n.0 == format!("top/mid/out/{name}.{e}")) {
                        return Err(format!("{name}.{e} was not created, but {:?}", new.iter().map(|n| n.0).collect::<Vec<_>>()));
                    }
                    if new.len() != if *kind == 2 { 2 } else { 1 } {
                        return Err(format!("{} files were created", new.len()));
                    }
                }
                None => {
                    if d.out.code == 0 || !new.is_empty() {
                        return Err(format!("status {} but the file can not be converted", d.out.code));
                    }
                }
            }
            Ok(())
        };
        c.check(ctx, &format!("program name {name:?}"), judge());
    });
}

// ------------------------------------------------------------------------------------------------- C18
/// Runs a command that may not change anything
fn display(ctx: &Ctx, c: &Case) -> (Out, Result<(), String>) {
    let log = ctx.scratch.join(format!("log-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    let _ = std::fs::remove_file(&log);
    let (l, shim) = (log.to_string_lossy().to_string(), ctx.shim.to_string_lossy().to_string());
    let d = c.run(ctx, &[("LD_PRELOAD", &shim), ("TV_LOG", &l)]);
    let calls = std::fs::read_to_string(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    let r = sane(&d.out).and_then(|_| untouched(&c.before(), &d)).and_then(|_| if calls.is_empty() { Ok(()) } else { Err(format!("makes calls that change files: {}", calls.trim())) });
    (d.out, r)
}

fn latin(b: &[u8]) -> String {
    b.iter().map(|x| *x as char).collect()
}

/// The pairs of hexadecimal digits of a dump
fn dumped(s: &str) -> Option<Vec<u8>> {
    s.split([',', '\n', ' ']).filter(|x| !x.is_empty()).map(|x| if x.len() == 2 { u8::from_str_radix(x, 16).ok() } else { None }).collect()
}

fn facts(p: &Prog, size: bool) -> Vec<String> {
    let m = model(p.model());
    let mut v = vec![
        format!("Body Size: {} bytes", p.body.len()),
        format!("model: {}", p.model()),
        format!("language: {}", m.4),
        format!("Destination: {}", dest_name(p.dest)),
        format!("File Type: {}", type_name(p.ftype)),
    ];
    if size {
        v.push(format!("Total Size: {} bytes", p.bytes(false).len()));
    }
    v
}

fn shows(out: &str, p: &Prog, size: bool) -> Result<(), String> {
    let head = format!("{}\n{}\n", latin(&p.name), latin(&p.comment));
    if !out.starts_with(&head) {
        return Err(format!("does not start with the name and the comment {head:?}: {:?}", &out.chars().take(100).collect::<String>()));
    }
    let rest: Vec<&str> = out[head.len()..].lines().collect();
    for f in facts(p, size) {
        let key = f.split(':').next().unwrap();
        let got: Vec<&&str> = rest.iter().take(7).filter(|l| l.split(':').next() == Some(key)).collect();
        if got != [&f.as_str()] {
            return Err(format!("expected {f:?}, shown {got:?}"));
        }
    }
    Ok(())
}

pub fn c18(ctx: &Ctx) {
    let pts = points(if ctx.thorough { 4 } else { 3 });
    ctx.state(pts.len() as u64);
    par(ctx, &pts, |x| {
        let (p, mode) = (&x.prog, x.mode);
        let t = table_of(&p.sig, p.product);
        let text = t.decode(&p.body, mode).unwrap();
        for ext in ["8xp", "83p"] {
            if ext != "8xp" && (p.version != 0 || p.dest != 0 || mode != ACCESSIBLE) {
                continue;
            }
            let f = format!("x.{ext}");
            let fs: Fs = [(f.clone(), file(p.file(ext)))].into_iter().collect();
            let c = Case::new(&fs, &["details", &f], b"");
            let (o, r) = display(ctx, &c);
            c.check(ctx, "details", r.and_then(|_| if o.code == 0 { shows(&o.so(), p, ext == "8xp") } else { Err(format!("status {}: {}", o.code, o.se())) }));
            let c = Case::new(&fs, &["convert", &f, "-p", "-d", MODES[mode]], b"");
            let (o, r) = display(ctx, &c);
            let judge = || -> Result<(), String> {
                r?;
                if o.code != 0 {
                    return Err(format!("status {}: {}", o.code, o.se()));
                }
                let out = o.so();
                shows(&out, p, ext == "8xp")?;
                // after the line that separates them, the text up to the line breaks at the end
                let marker = "----- Program -----\n";
                let head = latin(&p.name).len() + latin(&p.comment).len() + 2;
                let at = out[head..].find(marker).ok_or("no program text")? + head + marker.len();
                if out[at..].trim_end_matches('\n') != text.trim_end_matches('\n') || !out[at..].starts_with(&text) {
                    return Err(format!("shows the text {:?} instead of {text:?}", &out[at..].chars().take(200).collect::<String>()));
                }
                Ok(())
            };
            c.check(ctx, "preview", judge());
            if ext == "8xp" {
                let c = Case::new(&fs, &["convert", &f, "-c"], b"");
                let (o, r) = display(ctx, &c);
                c.check(ctx, "content", r.and_then(|_| if o.code == 0 && dumped(&o.so()) == Some(p.bytes(false)) { Ok(()) } else { Err(format!("status {}: {:?} is not the content of the file", o.code, o.so())) }));
            }
        }
    });
    // dumps and details of every size
    let sizes: Vec<usize> = (0..70).chain([255, 256, 257, 1000, 4095, 4096, 5000, 20000, 65000, 65516]).collect();
    ctx.state(sizes.len() as u64);
    par(ctx, &sizes, |n| {
        let p = Prog::new("SIZED", &(0..*n).map(|i| 0x30 + (i % 40) as u8).map(|b| if b == 0x3A + 4 { 0x3F } else { b }).collect::<Vec<_>>());
        let t = table_of(&p.sig, p.product);
        let text = match t.decode(&p.body, ACCESSIBLE) {
            Some(t) => t,
            None => panic!("machinery: no tokens"),
        };
        let fs: Fs = [("x.8xp".to_string(), file(p.bytes(false)))].into_iter().collect();
        for args in [&["details", "x.8xp"][..], &["convert", "x.8xp", "-c"], &["convert", "x.8xp", "-p"], &["convert", "x.8xp", "-p", "-c"]] {
            let c = Case::new(&fs, args, b"");
            let (o, r) = display(ctx, &c);
            let judge = || -> Result<(), String> {
                r?;
                let out = o.so();
                if o.code != 0 {
                    return Err(format!("status {}: {}", o.code, o.se()));
                }
                let at = if args.contains(&"-c") { out.find("\n\n").ok_or("no end of the dump")? + 2 } else { 0 };
                let rest = out[at..].trim_start_matches('\n');
                if args.contains(&"-c") && dumped(&out[..at]) != Some(p.bytes(false)) {
                    return Err("the dump is not the content of the file".into());
                }
                if args.contains(&"-p") || args[0] == "details" {
                    shows(rest, &p, true)?;
                }
                if args.contains(&"-p") && !rest.contains(&format!("----- Program -----\n{text}\n")) {
                    return Err("the text of the program is not shown".into());
                }
                Ok(())
            };
            c.check(ctx, &format!("body of {n} bytes"), judge());
        }
    });
    // the list of models
    let c = Case::new(&Fs::new(), &["models"], b"");
    let (o, r) = display(ctx, &c);
    let judge = || -> Result<(), String> {
        r?;
        let out = o.plain();
        let lines: Vec<&str> = out.lines().map(|l| l.trim()).collect();
        for m in MODELS {
            if lines.iter().filter(|l| **l == m.0).count() != 1 {
                return Err(format!("{} is not listed once: {out}", m.0));
            }
        }
        if let Some(l) = lines.iter().find(|l| l.starts_with("TI-") && !MODELS.iter().any(|m| m.0 == **l)) {
            return Err(format!("{l} is no supported model"));
        }
        if o.code == 0 { Ok(()) } else { Err(format!("status {}", o.code)) }
    };
    c.check(ctx, "models", judge());
    // previews of txt and json files: what the conversion would give
    let mut txts = vec![];
    for m in MODELS {
        for mode in 0..3 {
            for b in [["A→B", "A->B", "41"][mode], "", "\n\n"] {
                txts.push((m.0, mode, b));
            }
        }
    }
    ctx.state(txts.len() as u64);
    par(ctx, &txts, |(m, mode, b)| {
        let mut fs = Fs::new();
        fs.insert("x.txt".into(), file(Txt::new("NAME", *mode, m, b).text()));
        let bytes = Case::new(&fs, &["convert", "x.txt", "-o", "y.8xp"], b"").run(ctx, &[]).read("y.8xp").cloned();
        let bytes = match bytes {
            Some(x) => x,
            None => return,
        };
        fs.insert("x.json".into(), file(Case::new(&fs, &["convert", "x.txt", "-o", "y.json"], b"").run(ctx, &[]).read("y.json").cloned().unwrap_or_default()));
        let p = match parse(&bytes, "8xp") {
            Ok(p) => p,
            Err(_) => return,
        };
        for (f, text_flag, bytes_flag) in [("x.txt", "-c", "-p"), ("x.json", "", "-p")] {
            let c = Case::new(&fs, &["convert", f, bytes_flag], b"");
            let (o, r) = display(ctx, &c);
            let judge = || -> Result<(), String> {
                r?;
                let out = o.so();
                // the dump ends with an empty line
                let end = out.find("\n\n").unwrap_or(out.len());
                if o.code != 0 || dumped(&out[..end]) != Some(bytes.clone()) {
                    return Err(format!("status {}: {out:?} does not show the bytes of the program", o.code));
                }
                if f == "x.json" && !out[end..].contains("Body Size: ") {
                    return Err("no preview".into());
                }
                Ok(())
            };
            c.check(ctx, "bytes", judge());
            if text_flag.is_empty() {
                let c = Case::new(&fs, &["convert", f, "-c"], b"");
                let (o, r) = display(ctx, &c);
                let judge = || -> Result<(), String> {
                    r?;
                    let a: serde_json::Value = serde_json::from_str(&o.so()).map_err(|e| format!("not json: {e}"))?;
                    let b: serde_json::Value = if let Node::File(b) = &fs["x.json"] { serde_json::from_slice(b).unwrap() } else { unreachable!() };
                    if a == b { Ok(()) } else { Err("another program".into()) }
                };
                c.check(ctx, "json content", judge());
                continue;
            }
            let c = Case::new(&fs, &["convert", f, text_flag], b"");
            let (o, r) = display(ctx, &c);
            let judge = || -> Result<(), String> {
                r?;
                let out = o.so();
                if !out.starts_with("NAME\n") || !out.contains(&format!("\nmodel: {m}\n")) || !out.contains(&format!("\nBody Size: {} bytes\n", p.body.len())) || !out.contains(&format!("\nTotal Size: {} bytes\n", bytes.len())) || !out.contains(&format!("----- Program -----\n{b}\n")) {
                    return Err(format!("shows {out:?}"));
                }
                Ok(())
            };
            c.check(ctx, "text", judge());
        }
    });
    // every display command in every state of its input: nothing is written
    let [a, b, ..] = progs();
    let mut fs = inputs(ctx);
    fs.insert("bad.8xp".into(), file(&a.bytes(false)[..71]));
    fs.insert("bad.txt".into(), file("x"));
    fs.insert("bad.json".into(), file("[]"));
    fs.insert("empty.8xp".into(), file(""));
    fs.insert("dir".into(), Node::Dir);
    fs.insert("dir/a.8xp".into(), file(a.bytes(false)));
    fs.insert("dir/b.txt".into(), file(txt_of(&b, ACCESSIBLE)));
    fs.insert("dir/c.json".into(), fs["in.json"].clone());
    fs.insert("dir/bad.8xp".into(), file("bad"));
    fs.insert("dir.8xp".into(), Node::Dir);
    fs.insert("ln.8xp".into(), Node::Link("in.8xp".into()));
    fs.insert("dangling.8xp".into(), Node::Link("nowhere".into()));
    fs.insert("loop.txt".into(), Node::Link("loop.txt".into()));
    let mut cmds: Vec<Vec<String>> = vec![];
    let paths: Vec<String> = fs.keys().cloned().chain(["absent.8xp".into(), "".into(), ".".into(), "dir/".into(), "in.8xp/".into()]).collect();
    for f in &paths {
        cmds.push(strs(&["details", f]));
        for flags in [&[][..], &["-c"], &["-p"], &["-c", "-p"], &["-m"], &["-m", "-c"], &["-m", "-p"], &["-m", "-c", "-p"], &["-p", "-d", "ti"], &["-c", "-e", "min"], &["-p", "-o"], &["-m", "-p", "-o"]] {
            let mut v = strs(&["convert", f]);
            v.extend(strs(flags));
            cmds.push(v);
        }
        cmds.push(strs(&["search", f]));
    }
    for w in [&["models"][..], &["version"], &["help"], &[], &["search", "Disp "], &["search", "Disp ", "-t", "pretty"], &["search", "0xDE", "-t", "byte"], &["search", "zzz"], &["search"], &["convert"], &["details"], &["rename"], &["nothing"], &["rename", "in.8xp"], &["lock"], &["lock", "in.8xp", "-d"], &["lock", "in.8xp", "-h"], &["rename", "in.8xp", "-n", "X", "--help"]] {
        cmds.push(strs(w));
    }
    for c in ["help", "version", "convert", "search", "rename", "comment", "lock", "unlock", "archive", "unarchive", "details", "models", "zzz", ""] {
        cmds.push(strs(&["help", c]));
        cmds.push(strs(&[c, "--help"]));
        cmds.push(strs(&[c, "in.8xp", "-h"]));
    }
    ctx.state(cmds.len() as u64);
    par(ctx, &cmds, |args| {
        for stdin in [&b""[..], b"y\ny\ny\n"] {
            let mut f = fs.clone();
            if args.iter().any(|a| a.contains("loop")) {
                f.remove("dangling.8xp");
            }
            let c = Case { fs: f, args: args.clone(), stdin: stdin.to_vec(), ..Default::default() };
            let (_, r) = display(ctx, &c);
            c.check(ctx, "display command", r);
        }
    });
}
