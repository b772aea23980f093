//! C28: the library. Histories of calls on programs, conversions between codes and names, matching in any token table.
use crate::export::*;
use crate::files::*;
use crate::fmt::*;
use crate::spec::*;
use crate::util::*;
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::process::Command;
use std::time::Duration;

/// An observer of the library; None if it could not be built for this tree
fn observer(name: &str) -> Option<PathBuf> {
    let p = PathBuf::from(std::env::var("TV_LIBDIR").ok()?).join(name);
    p.exists().then_some(p)
}

fn latin(b: &[u8]) -> String {
    b.iter().map(|x| *x as char).collect()
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

#[derive(Clone)]
enum Op {
    Rename(&'static str, bool),
    Comment(String, bool),
    Simple(&'static str),
}
impl Op {
    fn line(&self) -> String {
        match self {
            Op::Rename(n, _) => format!("op\trename\t{}", esc(n)),
            Op::Comment(c, _) => format!("op\tcomment\t{}", esc(c)),
            Op::Simple(x) => format!("op\t{x}"),
        }
    }
    /// true: the call is accepted
    fn apply(&self, p: &mut Prog) -> bool {
        match self {
            Op::Rename(n, ok) => {
                if *ok {
                    p.name = n.to_uppercase().into_bytes()
                }
                *ok
            }
            Op::Comment(c, ok) => {
                if *ok {
                    p.comment = c.clone().into_bytes()
                }
                *ok
            }
            Op::Simple(x) => {
                match *x {
                    "lock" => p.ftype = 6,
                    "unlock" => p.ftype = 5,
                    "archive" => p.dest = 0x80,
                    _ => p.dest = 0,
                }
                true
            }
        }
    }
}

fn ops() -> Vec<Op> {
    let digits = "1234567890".repeat(5);
    vec![
        Op::Rename("abc", true),
        Op::Rename("ABCDEFGH", true),
        Op::Rename("zZ", true),
        Op::Rename("ABCDEFGHI", false),
        Op::Rename("AB1", false),
        Op::Rename("É", false),
        Op::Comment("".into(), true),
        Op::Comment("x [y]".into(), true),
        Op::Comment(digits[..42].into(), true),
        Op::Comment(digits[..43].into(), false),
        Op::Comment(format!("{}a", "é".repeat(21)), false),
        Op::Simple("lock"),
        Op::Simple("unlock"),
        Op::Simple("archive"),
        Op::Simple("unarchive"),
    ]
}

/// A cyclic sequence over k symbols that contains every word of length n, extended to a linear one
fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    let mut a = vec![0; k * n];
    let mut s = vec![];
    fn go(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, s: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                s.extend(&a[1..=p])
            }
            return;
        }
        a[t] = a[t - p];
        go(t + 1, p, k, n, a, s);
        for j in a[t - p] + 1..k {
            a[t] = j;
            go(t + 1, t, k, n, a, s);
        }
    }
    go(1, 1, k, n, &mut a, &mut s);
    s.extend_from_within(..n - 1);
    s
}

struct Start {
    file: String,
    content: Vec<u8>,
    load: String,
    prog: Prog,
    mode: usize,
    model: &'static str,
}

fn shown(p: &Prog, model: &str, text: &str) -> String {
    let lang = MODELS.iter().find(|m| m.0 == model).unwrap().4;
    format!(
        "{}\n{}\nTotal Size: {} bytes\nBody Size: {} bytes\n----- Status -----\nmodel: {model}\nlanguage: {lang}\nDestination: {}\nFile Type: {}\n----- Program -----\n{text}",
        latin(&p.name), latin(&p.comment), p.bytes(false).len(), p.body.len(), dest_name(p.dest), type_name(p.ftype)
    )
}

fn histories(ctx: &Ctx) {
    let Some(bin) = observer("libedit") else {
        ctx.note("histories of library calls", "not explored: the observer does not build");
        return;
    };
    let ops = ops();
    let mut starts: Vec<Start> = vec![];
    for x in points(1) {
        let (p, mode) = (x.prog, x.mode);
        for ext in ["8xp", "83p", "82p", "json"] {
            if ext != "8xp" && ext != "json" && (p.version != 0 || p.dest != 0) || ext == "82p" && mode != ACCESSIBLE {
                continue;
            }
            let file = format!("x.{ext}");
            let (content, load) = if ext == "json" {
                let d = ctx.dir();
                d.write("x.8xp", p.bytes(false));
                let o = ctx.run(&["convert", "x.8xp", "-d", MODES[mode], "-o", "x.json"], b"", &d.0);
                match d.read("x.json") {
                    Some(b) => (b, "load\tjson\tx.json\t-".to_string()),
                    None => {
                        ctx.violation(format!("no json: {}", o.se()), Replay::new("json").file("x.8xp", &p.bytes(false)).cmd(&["convert", "x.8xp", "-o", "x.json"], b"").end());
                        continue;
                    }
                }
            } else {
                (p.file(ext), format!("load\t8xp\t{file}\t{}", MODES[mode]))
            };
            starts.push(Start { file, content, load, prog: p.clone(), mode, model: p.model() });
        }
    }
    let sign = {
        let d = ctx.dir();
        d.write("x.txt", Txt::new("A", ACCESSIBLE, "latest", "A").text());
        let o = ctx.run(&["convert", "x.txt", "-o", "x.8xp"], b"", &d.0);
        let b = d.read("x.8xp").unwrap_or_else(|| panic!("machinery: {}", o.se()));
        b[11..53].iter().copied().take_while(|x| *x != 0).collect::<Vec<u8>>()
    };
    for (i, m) in MODELS.iter().enumerate() {
        for mode in 0..3 {
            let t = generation(m);
            let mut p = Prog::new(["PROG", "", "a", "aBcDeFgH"][(i + mode) % 4], &[0xDE, 0x2A, 0x41, 0x42, 0x2A, 0x3F, 0x31, 0x04, 0x41, 0x3F]);
            p.sig = m.2.into();
            p.product = m.3;
            p.ftype = TYPES[(i + mode) % 4];
            p.dest = DESTS[(i / 2 + mode) % 2];
            p.comment = sign.clone();
            let mut x = Txt::new(&latin(&p.name), mode, m.0, &t.decode(&p.body, mode).unwrap());
            x.ftype = type_name(p.ftype).into();
            x.dest = dest_name(p.dest).into();
            let tr = Trie::new(t, mode);
            for e in [Enc::Smart, Enc::Max] {
                // only where the text leads back to the body: what an encoder does otherwise is C01 to C05
                let own = |r: Result<Vec<Seg>, String>| r.is_ok_and(|s| bytes_of(&s) == p.body);
                if own(encode_ref(&tr, &x.body, e)) && (e != Enc::Smart || own(encode_smart(&tr, &x.body))) {
                    starts.push(Start { file: "x.txt".into(), content: x.text().into_bytes(), load: format!("load\ttxt\tx.txt\t{}", e.arg()), prog: p.clone(), mode, model: m.0 });
                }
            }
        }
    }
    ctx.state(starts.len() as u64);
    ctx.note("programs that library histories start from", starts.len() as u64);
    let walk = de_bruijn(ops.len(), 3);
    let long = de_bruijn(ops.len(), 4);
    ctx.note("calls of one walk (every three successive calls)", walk.len() as u64);
    let numbered: Vec<(usize, &Start)> = starts.iter().enumerate().collect();
    par(ctx, &numbered, |(si, s)| {
        let small = s.content.len() < 1500;
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        let mut level = seqs.clone();
        for _ in 0..if !small { 1 } else if ctx.thorough && si % 8 == 0 { 3 } else { 2 } {
            level = level.iter().flat_map(|q| (0..ops.len()).map(move |o| [q.clone(), vec![o]].concat())).collect();
            seqs.extend(level.clone());
        }
        if small {
            seqs.push(if ctx.thorough && si % 16 == 1 { long.clone() } else { walk.clone() });
        }
        ctx.state(seqs.len() as u64);
        let d = ctx.dir();
        d.write(&s.file, &s.content);
        d.write("old.8xp", b"old");
        std::fs::create_dir(d.p("saved")).unwrap();
        let text = generation(MODELS.iter().find(|m| m.0 == s.model).unwrap()).decode(&s.prog.body, s.mode).unwrap();
        // what is asked, and what is expected
        enum Want {
            Result(bool),
            State(Prog, bool),
            Saved(String, Prog),
            Refused(String),
        }
        let mut ask: Vec<String> = vec![];
        let mut want: Vec<Want> = vec![];
        let mut from: Vec<usize> = vec![];
        for (qi, q) in seqs.iter().enumerate() {
            let mut p = s.prog.clone();
            let begin = ask.len();
            let mut put = |l: String, w: Want| {
                ask.push(l);
                want.push(w);
                from.push(begin);
            };
            put(s.load.clone(), Want::Result(true));
            put("state".into(), Want::State(p.clone(), true));
            for o in q {
                let ok = ops[*o].apply(&mut p);
                put(ops[*o].line(), Want::Result(ok));
                put("state".into(), Want::State(p.clone(), false));
            }
            if q.len() < 2 || q.len() > 10 {
                for ext in ["8xp", "83p", "82p", "txt", "json"] {
                    let f = format!("saved/{qi}.{ext}");
                    put(format!("save\t{f}"), Want::Saved(f, p.clone()));
                }
                for f in ["old.8xp", "saved/new.foo", "saved/new", "nowhere/new.txt", &s.file] {
                    put(format!("save\t{f}"), Want::Refused(f.into()));
                }
                put("state".into(), Want::State(p.clone(), false));
            }
        }
        // loading what is of another format, or not there
        let begin = ask.len();
        for (kind, ext) in [("8xp", "txt"), ("8xp", "json"), ("txt", "8xp"), ("txt", "83p"), ("txt", "json"), ("json", "8xp"), ("json", "txt"), ("8xp", "foo"), ("txt", ""), ("json", "foo")] {
            let f = if ext.is_empty() { "other".to_string() } else { format!("other.{ext}") };
            d.write(&f, &s.content);
            for path in [f, format!("absent.{ext}")] {
                ask.push(format!("load\t{kind}\t{path}\t{}", if kind == "txt" { "smart" } else { "pretty" }));
                want.push(Want::Result(false));
                from.push(begin);
            }
        }
        ctx.trace(seqs.len() as u64);
        ctx.transition(ask.len() as u64);
        let mut c = Command::new(&bin);
        c.arg("observed").env_clear().current_dir(&d.0);
        let o = run_command(c, (ask.join("\n") + "\n").as_bytes(), Duration::from_secs(300));
        let seen = String::from_utf8_lossy(&d.read("observed").unwrap_or_default()).to_string();
        let replay = |i: usize, what: &str| {
            let lines = &ask[from[i]..=i];
            let script: Vec<String> = lines.iter().map(|l| shq(l)).collect();
            Replay::new(what)
                .file(&s.file, &s.content)
                .raw(&format!(
                    "# needs the observer: cargo build --release --manifest-path /verif/libcheck/Cargo.toml --target-dir /verif/.build/lib --bin libedit\nmkdir -p saved\nprintf '%s\\n' {} | /verif/.build/lib/release/libedit observed; tail -2 observed",
                    script.join(" ")
                ))
                .end()
        };
        let label = format!("{} {} {}", s.load.replace('\t', " "), s.model, brief(&s.prog.name));
        if o.code != 0 {
            let i = seen.lines().count().min(ask.len() - 1);
            let w = format!("{label}: the library crashes (status {}) at `{}`: {}", o.code, ask[i].replace('\t', " "), o.se().trim());
            let r = replay(i, &w);
            ctx.violation(w, r);
            return;
        }
        let lines: Vec<&str> = seen.lines().collect();
        for (i, w) in want.iter().enumerate() {
            let got = lines.get(i).copied().unwrap_or("nothing");
            let judge = || -> Result<(), String> {
                match w {
                    Want::Result(ok) => {
                        let e = if *ok { "R\tok" } else { "R\terror" };
                        if got != e { Err(format!("gives {got:?} instead of {e:?}")) } else { Ok(()) }
                    }
                    Want::Refused(f) => {
                        if got != "R\terror" {
                            return Err(format!("gives {got:?} instead of an error"));
                        }
                        let is = d.read(f);
                        let was = if f == "old.8xp" { Some(b"old".to_vec()) } else if *f == s.file { Some(s.content.clone()) } else { None };
                        if is != was { Err(format!("{f} changed")) } else { Ok(()) }
                    }
                    Want::State(p, fresh) => {
                        let f: Vec<&str> = got.split('\t').collect();
                        if f.len() != 3 {
                            return Err(format!("gives {got:?} instead of the state of the program"));
                        }
                        let mut v = stated(p, s.mode, s.model, &text, false);
                        if !*fresh {
                            // the checksum is recomputed when the program is saved
                            v.retain(|(k, _)| !k.starts_with("/checksum"));
                        }
                        judge_json(f[1].as_bytes(), &v).map_err(|e| e.replace("the json file", "the program"))?;
                        let t: String = serde_json::from_str(f[2]).map_err(|e| e.to_string())?;
                        if t != shown(p, s.model, &text) {
                            return Err(format!("is shown as {t:?}"));
                        }
                        Ok(())
                    }
                    Want::Saved(f, p) => {
                        if got != "R\tok" {
                            return Err(format!("gives {got:?}"));
                        }
                        let b = d.read(f).ok_or("no file")?;
                        match f.rsplit('.').next().unwrap() {
                            "txt" => {
                                let mut x = Txt::new(&latin(&p.name), s.mode, s.model, &text);
                                x.comment = latin(&p.comment);
                                x.name = latin(&p.name);
                                x.ftype = type_name(p.ftype).into();
                                x.dest = dest_name(p.dest).into();
                                x.name = x.name.replace(['\n', '\r'], " ");
                                x.comment = x.comment.replace(['\n', '\r'], " ");
                                if b != x.text().as_bytes() { Err(format!("wrote {:?} instead of {:?}", String::from_utf8_lossy(&b), x.text())) } else { Ok(()) }
                            }
                            "json" => {
                                let mut v = stated(p, s.mode, s.model, &text, false);
                                v.retain(|(k, _)| !k.starts_with("/checksum"));
                                judge_json(&b, &v).map(|_| ())
                            }
                            ext => {
                                if b != p.file(ext) { Err(format!("wrote {} instead of {}", hex(&b), hex(&p.file(ext)))) } else { Ok(()) }
                            }
                        }
                    }
                }
            };
            if let Err(e) = judge() {
                let w: String = format!("{label}: after {} calls `{}`: {e}", i - from[i], ask[i].replace('\t', " ")).chars().take(1500).collect();
                let r = replay(i, &w);
                ctx.violation(w, r);
                return;
            }
        }
    });
}

/// What a program is does not depend on the programs that the process loaded before it: a walk from each file in which every
/// ordered pair of files follows each other
fn company(ctx: &Ctx) {
    let Some(bin) = observer("libedit") else {
        ctx.note("programs in one process", "not explored: the observer does not build");
        return;
    };
    let newest = table_of("**TI83F*", 0);
    let everything = |t: &Table| -> Vec<u8> { t.tokens.keys().flatten().copied().collect() };
    let foreign = |t: &Table| newest.tokens.keys().find(|k| !t.tokens.contains_key(*k)).cloned();
    let mut fs = Fs::new();
    let mut loads: Vec<String> = vec![];
    let letters = |n: usize| format!("{}{}", (b'A' + (n / 26) as u8) as char, (b'A' + (n % 26) as u8) as char);
    for (i, (sig, product, _)) in FILE_MODELS.iter().enumerate() {
        let t = table_of(sig, *product);
        let mut bodies = vec![everything(t)];
        bodies.extend(foreign(t).map(|k| [&[0x41], &k[..]].concat()));
        for (j, body) in bodies.iter().enumerate() {
            let n = fs.len();
            let ext = ["8xp", "83p", "82p"][(i + j) % 3];
            let mut p = Prog::new(&letters(n), body);
            p.sig = sig.to_string();
            p.product = *product;
            p.ftype = TYPES[i % 4];
            p.comment = format!("no {n}").into_bytes();
            fs.insert(format!("f{n}.{ext}"), Node::File(p.file(ext)));
            for m in 0..if j == 0 { 3 } else { 1 } {
                loads.push(format!("load\t8xp\tf{n}.{ext}\t{}", MODES[m]));
            }
            if j == 0 {
                for mode in 0..3 {
                    let n = fs.len();
                    let x = Txt::new(&letters(n), mode, t.model, &t.decode(body, mode).unwrap());
                    fs.insert(format!("f{n}.txt"), Node::File(x.text().into_bytes()));
                    loads.push(format!("load\ttxt\tf{n}.txt\t{}", ["smart", "min", "max"][(i + mode) % 3]));
                }
            } else {
                let n = fs.len();
                let x = Txt::new(&letters(n), ACCESSIBLE, t.model, &newest.decode(body, ACCESSIBLE).unwrap());
                fs.insert(format!("f{n}.txt"), Node::File(x.text().into_bytes()));
                loads.push(format!("load\ttxt\tf{n}.txt\tsmart"));
            }
        }
    }
    // what follows a load, and how many lines the observer answers
    let then = |n: &str| ["state".to_string(), "op\tcomment\tcompany".into(), "op\tlock".into(), "state".into(), format!("save\tsaved/{n}.8xp"), format!("save\tsaved/{n}.txt")];
    let lines = 1 + then("").len();
    let run = |ask: &[String]| {
        let d = ctx.dir();
        materialize(&d.0, &fs);
        std::fs::create_dir(d.p("saved")).unwrap();
        let mut c = Command::new(&bin);
        c.arg("observed").env_clear().current_dir(&d.0);
        let o = run_command(c, (ask.join("\n") + "\n").as_bytes(), Duration::from_secs(300));
        let seen: Vec<String> = String::from_utf8_lossy(&d.read("observed").unwrap_or_default()).lines().map(|l| l.to_string()).collect();
        (o, seen, snapshot(&d.p("saved")))
    };
    let sequence = |order: &[usize]| -> Vec<String> { order.iter().enumerate().flat_map(|(at, l)| std::iter::once(loads[*l].clone()).chain(then(&at.to_string()))).collect() };
    let replay = |what: &str, ask: &[String]| {
        Replay::new(what)
            .fs(&fs)
            .raw(&format!(
                "# needs the observer: cargo build --release --manifest-path /verif/libcheck/Cargo.toml --target-dir /verif/.build/lib --bin libedit\nmkdir -p saved\nprintf '%s\\n' {} | /verif/.build/lib/release/libedit observed; tail -{lines} observed",
                ask.iter().map(|l| shq(l)).collect::<Vec<_>>().join(" ")
            ))
            .end()
    };
    let all: Vec<usize> = (0..loads.len()).collect();
    let alone: Vec<(Vec<String>, Fs)> = par_map(ctx, &all, |l| {
        let ask = sequence(&[*l]);
        let (o, seen, saved) = run(&ask);
        if o.code != 0 {
            let w = format!("`{}`: the library crashes (status {}): {}", loads[*l].replace('\t', " "), o.code, o.se().trim());
            ctx.violation(w.clone(), replay(&w, &ask));
        }
        (seen, saved)
    })
    .into_iter()
    .flatten()
    .collect();
    if alone.len() != loads.len() || ctx.stopped() {
        return;
    }
    ctx.note("loads in one process", loads.len() as u64);
    ctx.note("loads in one process that succeed", alone.iter().filter(|a| a.0.first().is_some_and(|l| l == "R\tok")).count() as u64);
    ctx.state(loads.len() as u64);
    let n = loads.len();
    par(ctx, &all, |first| {
        // first, +1, -1, +2, -2, ...: over all first elements every ordered pair follows each other
        let order: Vec<usize> = (0..n).map(|k| (first + if k % 2 == 1 { k.div_ceil(2) } else { n - k / 2 }) % n).collect();
        let ask = sequence(&order);
        let (o, seen, saved) = run(&ask);
        ctx.trace(1);
        ctx.transition(ask.len() as u64);
        for (at, l) in order.iter().enumerate() {
            let got: &[String] = seen.get(at * lines..(at + 1) * lines).unwrap_or(&[]);
            let files: Fs = saved.iter().filter_map(|(k, v)| Some((k.strip_prefix(&format!("{at}."))?.to_string(), v.clone()))).collect();
            let want: Fs = alone[*l].1.iter().filter_map(|(k, v)| Some((k.strip_prefix("0.")?.to_string(), v.clone()))).collect();
            if got != &alone[*l].0[..] || files != want {
                let i = (0..lines).find(|i| got.get(*i) != alone[*l].0.get(*i));
                let w: String = format!(
                    "`{}` after {at} other loads, the last one `{}`: {} (status {})",
                    loads[*l].replace('\t', " "),
                    if at > 0 { loads[order[at - 1]].replace('\t', " ") } else { "none".into() },
                    match i {
                        Some(i) => format!("`{}` gives {:?} instead of {:?}", ask[at * lines + i], got.get(i), alone[*l].0.get(i)),
                        None => format!("saved files differ: {}", diff(&want, &files)),
                    },
                    o.code
                )
                .chars()
                .take(1500)
                .collect();
                ctx.violation(w.clone(), replay(&w, &ask[..(at + 1) * lines]));
                return;
            }
        }
    });
}

const EXTENSIONS: [&str; 5] = ["8xp", "83p", "82p", "txt", "json"];

fn conversions(ctx: &Ctx) {
    let Some(bin) = observer("libconv") else {
        ctx.note("conversions", "not explored: the observer does not build");
        return;
    };
    let groups: Vec<Vec<&str>> = vec![
        TYPES.iter().map(|t| type_name(*t)).collect(),
        vec!["RAM", "Archive"],
        MODES.to_vec(),
        vec!["min", "max", "smart"],
        MODELS.iter().map(|m| m.0).collect(),
        EXTENSIONS.to_vec(),
    ];
    let mut all: BTreeSet<String> = BTreeSet::new();
    for g in &groups {
        all.extend(g.iter().map(|x| x.to_string()));
        all.extend(crate::more::near(g));
    }
    all.extend(["Protected Program", "ram", "LockedProgram", "FlashApplication", "archive", "TiAscii", "Pretty", "Accessible"].map(|x| x.to_string()));
    ctx.state(all.len() as u64);
    let input: String = all.iter().map(|s| serde_json::to_string(s).unwrap() + "\n").collect();
    let d = ctx.dir();
    let mut c = Command::new(&bin);
    c.env_clear().current_dir(&d.0);
    let o = run_command(c, input.as_bytes(), Duration::from_secs(300));
    let replay = |w: &str| {
        Replay::new(w)
            .raw("# needs the observer: cargo build --release --manifest-path /verif/libcheck/Cargo.toml --target-dir /verif/.build/lib --bin libconv")
            .raw(&format!("printf '%s\\n' {} | /verif/.build/lib/release/libconv", shq(w.split('\t').nth(1).unwrap_or(""))))
            .end()
    };
    if o.code != 0 {
        ctx.violation(format!("a conversion crashes (status {}): {}", o.code, o.se().trim()), replay(""));
        return;
    }
    let mut n = 0;
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let name = || serde_json::from_str::<String>(f[1]).unwrap();
        let types = |t: Option<u8>| t.map_or("none".to_string(), |t| format!("{t} {}", type_name(t)));
        let dests = |t: Option<u8>| t.map_or("none".to_string(), |t| format!("{t} {}", dest_name(t)));
        let listed = |g: &[&str]| if g.contains(&name().as_str()) { name() } else { "none".into() };
        let want = match f[0] {
            "type" => types(TYPES.iter().copied().find(|t| t.to_string() == f[1])),
            "dest" => dests(DESTS.iter().copied().find(|t| t.to_string() == f[1])),
            "type name" => types(TYPES.iter().copied().find(|t| type_name(*t) == name())),
            "dest name" => dests(DESTS.iter().copied().find(|t| dest_name(*t) == name())),
            "absent" => "[false, false, false]".into(),
            "extension" if name().contains(['/', '.']) => continue,
            "extension" => match listed(&EXTENSIONS) {
                n if n == "none" => n,
                n => format!("{n} {} {} {}", n.ends_with('p'), n == "txt", n == "json"),
            },
            "display" => listed(&MODES),
            "encode" => listed(&["min", "max", "smart"]),
            "model byte" => {
                let (b, sig) = f[1].split_once(' ').unwrap();
                let b: u8 = b.parse().unwrap();
                match FILE_MODELS.iter().find(|m| m.1 == b && m.0 == sig) {
                    Some(m) => {
                        let x = model(m.2);
                        format!("{} {} {} {}", x.0, x.2, x.3, x.4)
                    }
                    // a known product with the signature of another calculator
                    None if FILE_MODELS.iter().any(|m| m.1 == b) => continue,
                    None => "none".into(),
                }
            }
            "model" | "model details" => match MODELS.iter().find(|m| m.0 == name()) {
                Some(m) if f[0] == "model" => format!("{} {} {} {}", m.0, m.2, m.3, m.4),
                Some(m) => m.0.to_string(),
                None => continue,
            },
            _ => panic!("machinery: {l}"),
        };
        n += 1;
        ctx.transition(1);
        if want != f[2] {
            let w = format!("{}\t{}\tgives {} instead of {want}", f[0], f[1], f[2]);
            let r = replay(&w);
            ctx.violation(w, r);
        }
    }
    ctx.trace(1);
    ctx.note("conversions between codes, names and values", n as u64);
}

fn matching(ctx: &Ctx) {
    let Some(bin) = observer("libmatch") else {
        ctx.note("matching", "not explored: the observer does not build");
        return;
    };
    let words = |alpha: &[char], n: usize| -> Vec<String> {
        let mut v = vec![];
        let mut level = vec![String::new()];
        for _ in 0..n {
            level = level.iter().flat_map(|s| alpha.iter().map(move |c| format!("{s}{c}"))).collect();
            v.extend(level.clone());
        }
        v
    };
    let mut texts = words(&['a', 'é'], if ctx.thorough { 3 } else { 2 });
    texts.push("a".repeat(30));
    texts.push("a".repeat(300));
    let keys = ["$41 en", "$42 en", "$BB$00 en", "$5 en"];
    // every table of up to four tokens
    let mut tables: Vec<Vec<(&str, &str)>> = vec![vec![]];
    for k in keys {
        let more: Vec<Vec<(&str, &str)>> = tables.iter().flat_map(|t| texts.iter().map(move |x| [t.clone(), vec![(k, x.as_str())]].concat())).collect();
        tables.extend(more);
    }
    let mut values = vec![String::new()];
    values.extend(words(&['a', 'é', 'x'], 3));
    values.extend(["a".repeat(29), "a".repeat(30), "a".repeat(31), "a".repeat(299), "a".repeat(301)]);
    ctx.state(tables.len() as u64);
    ctx.note("token tables", tables.len() as u64);
    let chunks: Vec<&[Vec<(&str, &str)>]> = tables.chunks(200).collect();
    par(ctx, &chunks, |ts| {
        let mut input = String::new();
        for t in ts.iter() {
            input += &t.iter().map(|(k, x)| format!("{}={x}", k.replace(' ', "_"))).collect::<Vec<_>>().join(" ");
            input.push('\n');
        }
        let tail = format!("?\n{}", values.iter().map(|v| format!("{v}\n")).collect::<String>());
        let mut c = Command::new(&bin);
        c.env_clear();
        let o = run_command(c, (input + &tail).as_bytes(), Duration::from_secs(300));
        let replay = |w: &str, t: &[(&str, &str)]| {
            let l = t.iter().map(|(k, x)| format!("{}={x}", k.replace(' ', "_"))).collect::<Vec<_>>().join(" ");
            Replay::new(w)
                .raw("# needs the observer: cargo build --release --manifest-path /verif/libcheck/Cargo.toml --target-dir /verif/.build/lib --bin libmatch")
                .raw(&format!("printf '%s' {} | /verif/.build/lib/release/libmatch", shq(&format!("{l}\n{tail}"))))
                .end()
        };
        if o.code != 0 {
            ctx.violation(format!("matching crashes (status {}): {}", o.code, o.se().trim()), replay("crash", &ts[0]));
            return;
        }
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        for (t, answers) in ts.iter().zip(s.split(".\n")) {
            for l in answers.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                let (v, mode): (&String, usize) = (&values[f[0].parse::<usize>().unwrap()], f[1].parse().unwrap());
                ctx.transition(1);
                let own: Vec<(String, String)> = t
                    .iter()
                    .map(|(k, x)| (k.replace(' ', "_"), match mode { 0 => x.to_string(), 1 => format!("A{x}"), _ => x.chars().rev().collect() }))
                    .collect();
                let v = if mode == 1 { format!("A{v}") } else { v.clone() };
                let fit: Vec<&(String, String)> = own.iter().filter(|(_, x)| v.starts_with(x.as_str())).collect();
                let judge = || -> Result<(), String> {
                    if f.len() != 3 {
                        return Err(format!("the answer depends on the order of insertion: {:?}", &f[2..]));
                    }
                    let (long, short) = f[2].split_once(' ').ok_or("no answer")?;
                    for (a, want) in [(long, fit.iter().map(|x| x.1.len()).max()), (short, fit.iter().map(|x| x.1.len()).min())] {
                        let ok = match want {
                            None => a == "-",
                            Some(n) => fit.iter().any(|(k, x)| x.len() == n && a == format!("{k}={x}")),
                        };
                        if !ok {
                            return Err(format!("the answer is {a}, but {:?} tokens fit", fit));
                        }
                    }
                    Ok(())
                };
                if let Err(e) = judge() {
                    let w: String = format!("tokens {t:?}, value {v:?}, mode {}: {e}", MODES[mode]).chars().take(900).collect();
                    let r = replay(&w, t);
                    ctx.violation(w, r);
                    return;
                }
            }
        }
        ctx.trace(ts.len() as u64);
    });
}

pub fn c28(ctx: &Ctx) {
    histories(ctx);
    company(ctx);
    conversions(ctx);
    matching(ctx);
}
