//! C23 flags and their values, C24 spellings of paths, C25 long sequences of conversions and edits.
use crate::effects::*;
use crate::files::*;
use crate::fmt::*;
use crate::spec::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Mutex;

fn p(s: &str) -> String {
    s.to_string()
}

/// Programs whose texts differ in every display mode and whose tokens differ in every encode mode
fn sensitive(ctx: &Ctx) -> Fs {
    let mut a = Prog::new("FLAGS", &[0xDE, 0x2A, 0x41, 0x2A, 0x3F, 0x5B, 0x04, 0x5D, 0x00, 0x3F, 0xC2, 0x31, 0x11, 0x3F, 0xBB, 0x68, 0xEF, 0x65]);
    a.comment = b"flags".to_vec();
    let mut fs = Fs::new();
    fs.insert("in.8xp".into(), file(a.bytes(false)));
    fs.insert("in.83p".into(), file(a.bytes(true)));
    fs.insert("in.82p".into(), file(a.bytes(true)));
    let t = Txt::new("FLAGS", ACCESSIBLE, "latest", "Disp \"sin(\"\nprgmABC\nIf A and B\nThen\n");
    fs.insert("in.txt".into(), file(t.text()));
    let d = ctx.dir();
    d.write("x.8xp", a.bytes(false));
    let o = ctx.run(&["convert", "x.8xp", "-o", "x.json"], b"", &d.0);
    fs.insert("in.json".into(), file(d.read("x.json").unwrap_or_else(|| panic!("machinery: no json: {}", o.se()))));
    fs
}

const EXTS: [&str; 5] = ["8xp", "83p", "82p", "txt", "json"];

/// What two runs did must be the same
fn alike(a: &Done, b: &Done, what: &str) -> Result<(), String> {
    sane(&a.out)?;
    sane(&b.out)?;
    if a.out.code != b.out.code {
        return Err(format!("status {} and {what} {}", a.out.code, b.out.code));
    }
    if a.after != b.after {
        return Err(format!("differs from {what}:\n{}", diff(&b.after, &a.after)));
    }
    if a.out.stdout != b.out.stdout {
        return Err(format!("prints {:?} and {what} {:?}", a.out.plain(), b.out.plain()));
    }
    Ok(())
}

/// Words close to a listed value, and the values of other flags
pub fn near(values: &[&str]) -> Vec<String> {
    let mut v: BTreeSet<String> = BTreeSet::new();
    for x in values {
        let c: Vec<char> = x.chars().collect();
        v.insert(x.to_uppercase());
        v.insert(format!("{}{}", x[..1].to_uppercase(), &x[1..]));
        for i in 0..c.len() {
            v.insert(c[..i].iter().collect());
            v.insert(c[i..].iter().collect());
            v.insert([&c[..i], &c[i + 1..]].concat().iter().collect());
            v.insert([&c[..i], &[c[i]], &c[i..]].concat().iter().collect());
            let mut u = c.clone();
            u[i] = c[i].to_ascii_uppercase();
            v.insert(u.iter().collect());
            if i + 1 < c.len() {
                let mut s = c.clone();
                s.swap(i, i + 1);
                v.insert(s.iter().collect());
            }
            for r in 'a'..='z' {
                let mut s = c.clone();
                s[i] = r;
                v.insert(s.iter().collect());
            }
            v.remove(*x);
        }
        for (a, b) in [(" ", ""), ("", " "), ("\t", ""), ("", "\n"), ("", "s"), ("=", ""), ("\"", "\""), ("", ","), ("", "\u{301}")] {
            v.insert(format!("{a}{x}{b}"));
        }
        for y in values {
            v.insert(format!("{x}{y}"));
            v.insert(format!("{x},{y}"));
        }
    }
    for x in ["", "default", "none", "all", "0", "1", "2", "true", "pretty", "accessible", "ti", "min", "max", "smart", "byte", "longest", "shortest", "TI", "tokens", "display", "in.8xp", "é"] {
        v.insert(x.into());
    }
    v.into_iter().filter(|x| !values.contains(&x.as_str())).collect()
}

pub fn c23(ctx: &Ctx) {
    let base = sensitive(ctx);
    crate::cmdline::forms(ctx, &crate::cmdline::world(ctx));
    let disp = ["accessible", "pretty", "ti"];
    let encs = ["smart", "min", "max"];
    let saves: Vec<Vec<String>> = EXTS.iter().flat_map(|i| EXTS.iter().map(move |o| vec![p("convert"), format!("in.{i}"), p("-o"), format!("out.{o}")])).collect();
    let mut shows: Vec<Vec<String>> = vec![];
    for i in EXTS {
        for f in [&["-p"][..], &["-c"], &["-c", "-p"]] {
            shows.push([vec![p("convert"), format!("in.{i}")], strs(f)].concat());
        }
    }
    let with = |a: &[String], b: &[&str]| [a.to_vec(), strs(b)].concat();
    let case = |args: Vec<String>, stdin: &[u8]| Case { fs: base.clone(), args, stdin: stdin.to_vec(), ..Default::default() };
    let go = |c: &Case| -> Done {
        ctx.state(1);
        c.run(ctx, &[])
    };

    // --- the default of a flag is the value the help names
    let mut all = saves.clone();
    all.extend(shows.clone());
    par(ctx, &all, |a| {
        let plain = go(&case(a.clone(), b""));
        for extra in [&["-d", "accessible"][..], &["-e", "smart"], &["-d", "accessible", "-e", "smart"]] {
            let c = case(with(a, extra), b"");
            let d = go(&c);
            c.check(ctx, "a default value given explicitly", alike(&d, &plain, "without it"));
        }
        let binary = !a[1].ends_with("txt");
        // a text is only encoded when the input is a text
        for e in encs {
            let c = case(with(a, &["-e", e]), b"");
            let d = go(&c);
            let r = if binary { alike(&d, &plain, "without -e") } else { sane(&d.out) };
            c.check(ctx, "the encode mode of an input that is not encoded", r);
        }
        // the display mode is about texts: the bytes of a program do not depend on it
        if a.len() == 4 && ["8xp", "83p", "82p"].iter().any(|x| a[3].ends_with(x)) {
            for m in disp {
                let c = case(with(a, &["-d", m]), b"");
                let d = go(&c);
                let r = sane(&d.out).and_then(|_| if d.after == plain.after && d.out.code == 0 { Ok(()) } else { Err(format!("status {}, files differ from those without -d:\n{}", d.out.code, diff(&plain.after, &d.after))) });
                c.check(ctx, "the display mode and the bytes of a program", r);
            }
        }
        // all modes together: what is saved with and without -c and -p
        if a.len() == 4 {
            for m in disp {
                for e in encs {
                    let quiet = go(&case(with(a, &["-d", m, "-e", e]), b""));
                    let only = |f: &[&str]| go(&case([vec![a[0].clone(), a[1].clone()], strs(&["-d", m, "-e", e]), strs(f)].concat(), b""));
                    for f in [&["-c"][..], &["-p"], &["-c", "-p"]] {
                        let c = case([a.clone(), strs(&["-d", m, "-e", e]), strs(f)].concat(), b"");
                        let d = go(&c);
                        let o = only(f);
                        let r = (|| {
                            sane(&d.out)?;
                            if d.out.code != quiet.out.code {
                                return Err(format!("status {} and without {f:?} {}", d.out.code, quiet.out.code));
                            }
                            if d.after != quiet.after {
                                return Err(format!("saves something else than without {f:?}:\n{}", diff(&quiet.after, &d.after)));
                            }
                            if o.after != base {
                                return Err(format!("without -o, {f:?} changes files:\n{}", diff(&base, &o.after)));
                            }
                            if o.out.code != 0 {
                                return Err(format!("without -o, {f:?} ends with status {}", o.out.code));
                            }
                            let (all, shown, said) = (d.out.plain(), o.out.plain(), quiet.out.plain());
                            if !all.contains(shown.trim()) {
                                return Err(format!("shows {all:?} and without -o {shown:?}"));
                            }
                            if !all.contains(said.trim()) {
                                return Err(format!("prints {all:?} and without {f:?} {said:?}"));
                            }
                            Ok(())
                        })();
                        c.check(ctx, "displaying and saving at once", r);
                    }
                    let c = case([vec![a[0].clone(), a[1].clone()], strs(&["-d", m, "-e", e, "-c", "-p"])].concat(), b"");
                    let d = go(&c);
                    let (one, two) = (only(&["-c"]).out.plain(), only(&["-p"]).out.plain());
                    let t = d.out.plain();
                    let r = if t.contains(one.trim()) && t.contains(two.trim()) && !one.trim().is_empty() && !two.trim().is_empty() { Ok(()) } else { Err(format!("shows {t:?}, -c alone {one:?}, -p alone {two:?}")) };
                    c.check(ctx, "content and preview", r);
                }
            }
        }
    });
    // the explored modes are told apart by these inputs: otherwise the equalities above would be empty
    let outs: BTreeSet<_> = disp.iter().map(|m| go(&case(strs(&["convert", "in.8xp", "-o", "out.txt", "-d", m]), b"")).after.get("out.txt").cloned()).collect();
    let bins: BTreeSet<_> = encs.iter().map(|m| go(&case(strs(&["convert", "in.txt", "-o", "out.8xp", "-e", m]), b"")).after.get("out.8xp").cloned()).collect();
    if outs.len() != 3 || bins.len() != 3 {
        let c = case(strs(&["convert", "in.8xp", "-o", "out.txt", "-d", "pretty"]), b"");
        c.check(ctx, "every mode has its own result", Err(format!("{} different results of the 3 display modes, {} of the 3 encode modes", outs.len(), bins.len())));
    }

    // --- only the listed values are values
    let mut dirs = base.clone();
    dirs.insert("all".into(), Node::Dir);
    for e in EXTS {
        dirs.insert(format!("all/in.{e}"), base[&format!("in.{e}")].clone());
    }
    dirs.insert("res".into(), Node::Dir);
    let mut todo: Vec<(Vec<String>, bool)> = vec![];
    for (f, long, vals) in [("-d", "--display-mode", disp), ("-e", "--encode-mode", encs)] {
        let bad = near(&vals);
        ctx.note_add("values that are not listed", bad.len() as u64);
        for (k, v) in bad.iter().enumerate() {
            for (j, i) in EXTS.iter().enumerate() {
                // all values with one form of the command, the forms in turn; all of them in the thorough tier
                for (l, o) in EXTS.iter().enumerate() {
                    if ctx.thorough || (j + l + k) % 5 == 0 {
                        todo.push((vec![p("convert"), format!("in.{i}"), p("-o"), format!("out.{o}"), if k % 2 == 0 { p(f) } else { p(long) }, v.clone()], false));
                    }
                }
                if ctx.thorough || (k + j) % 3 == 0 {
                    todo.push((vec![p("convert"), format!("in.{i}"), p("-p"), p(f), v.clone()], false));
                    todo.push((vec![p("convert"), format!("in.{i}"), p("-c"), p(f), v.clone()], false));
                }
            }
            todo.push((vec![p("convert"), p("all"), p("-m"), p("-o"), p("res"), p(f), v.clone()], false));
            todo.push((vec![p("convert"), p("all"), p("-m"), p("-p"), p(f), v.clone()], false));
        }
        for v in vals {
            for i in EXTS {
                for o in EXTS {
                    todo.push((vec![p("convert"), format!("in.{i}"), p("-o"), format!("out.{o}"), p(f), p(v)], true));
                    todo.push((vec![p("convert"), format!("in.{i}"), p("-o"), format!("out.{o}"), p(long), p(v)], true));
                }
            }
            todo.push((vec![p("convert"), p("all"), p("-m"), p("-o"), p("res"), p(f), p(v)], true));
        }
    }
    let types = ["accessible", "pretty", "byte"];
    for (k, v) in near(&types).into_iter().enumerate() {
        for t in ["Disp ", "0xDE", "→", "DE"] {
            todo.push((vec![p("search"), p(t), if k % 2 == 0 { p("-t") } else { p("--type") }, v.clone()], false));
        }
    }
    for (t, v) in [("Disp ", "accessible"), ("Disp ", "pretty"), ("0xDE", "byte"), ("->", "accessible"), ("→", "pretty")] {
        todo.push((strs(&["search", t, "-t", v]), true));
        todo.push((strs(&["search", t, "--type", v]), true));
    }
    par(ctx, &todo, |(a, good)| {
        let c = Case { fs: dirs.clone(), args: a.clone(), stdin: b"y\ny\ny\ny\ny\ny\ny\n".to_vec(), ..Default::default() };
        let d = go(&c);
        let r = sane(&d.out).and_then(|_| {
            if *good {
                return if d.out.code == 0 { Ok(()) } else { Err(format!("a listed value is refused with status {}: {}", d.out.code, d.out.plain())) };
            }
            untouched(&c.fs, &d)?;
            if d.out.code == 0 {
                return Err(format!("not a listed value, but status 0: {:?}", d.out.plain()));
            }
            if d.out.stdout.is_empty() && d.out.stderr.is_empty() {
                return Err("refused without a message".into());
            }
            Ok(())
        });
        c.check(ctx, if *good { "a listed value" } else { "not a listed value" }, r);
    });

    // --- search without -t is search -t accessible
    let rows = Table::new("latest");
    let mut words: Vec<String> = rows.tokens.values().flat_map(|t| if ctx.thorough { vec![t[ACCESSIBLE].clone(), t[PRETTY].clone(), t[TI].clone()] } else { vec![t[ACCESSIBLE].clone()] }).filter(|w| !w.starts_with('-') || w.len() > 2).collect();
    words.extend(["nothing such", "0xDE", "DE", "byte", " ", "DispDisp", "Dis"].iter().map(|x| x.to_string()));
    words.sort();
    words.dedup();
    words.retain(|w| w != "--help");
    let none = Fs::new();
    par(ctx, &words, |w| {
        let a = go(&Case::new(&none, &["search", w], b""));
        let c = Case::new(&none, &["search", w, "-t", "accessible"], b"");
        let b = go(&c);
        c.check(ctx, "search without a type", alike(&b, &a, "without -t"));
    });

    // --- what a command needs
    let mut todo: Vec<Vec<String>> = vec![];
    for i in ["in.8xp", "in.82p"] {
        for extra in [&[][..], &["-f", "new.8xp"], &["-f", "new.txt", "-d"], &["-d"]] {
            todo.push(with(&strs(&["rename", i]), extra));
            todo.push(with(&strs(&["comment", i]), extra));
        }
        for e in 0..6 {
            todo.push(with(&strs(&six(e).args(i)), &["-d"]));
            todo.push(with(&strs(&six(e).args(i)), &["--delete-old"]));
        }
    }
    for c in ["convert", "rename", "comment", "lock", "unlock", "archive", "unarchive", "details", "search"] {
        todo.push(strs(&[c]));
    }
    let mut refused = vec![];
    for i in EXTS {
        let f = format!("in.{i}");
        todo.push(strs(&["convert", &f]));
        for m in disp {
            todo.push(strs(&["convert", &f, "-d", m]));
        }
        refused.push(strs(&["convert", &f, "-m", "-o", "res"]));
        refused.push(strs(&["convert", &f, "-m", "-o", "new"]));
        refused.push(strs(&["convert", &f, "-m", "-p"]));
        refused.push(strs(&["convert", &f, "--mass", "-o", "out.txt"]));
    }
    for f in ["-p", "-c"] {
        refused.push(strs(&["convert", "all", f]));
    }
    for o in ["out.txt", "out.8xp", "res", "new"] {
        refused.push(strs(&["convert", "all", "-o", o]));
    }
    refused.push(strs(&["convert", "missing", "-m", "-o", "new"]));
    refused.push(strs(&["convert", "missing.8xp", "-o", "new.txt"]));
    todo.push(strs(&["convert", "all", "-m"]));
    for (list, strict) in [(&todo, false), (&refused, true)] {
        par(ctx, list, |a| {
            let c = Case { fs: dirs.clone(), args: a.clone(), stdin: b"y\ny\ny\n".to_vec(), ..Default::default() };
            let d = go(&c);
            let r = sane(&d.out).and_then(|_| untouched(&c.fs, &d)).and_then(|_| {
                if d.out.stdout.is_empty() && d.out.stderr.is_empty() {
                    return Err(p("refused without a message"));
                }
                if strict && d.out.code == 0 {
                    return Err(format!("not refused: {:?}", d.out.plain()));
                }
                Ok(())
            });
            c.check(ctx, "something a command needs is missing", r);
        });
    }
    help(ctx, &dirs);
}

/// The commands and their flags
const CLI: [(&str, usize, &[(&str, &str)]); 13] = [
    ("help", 1, &[]),
    ("version", 0, &[]),
    ("convert", 1, &[("-o", "--output"), ("-d", "--display-mode"), ("-e", "--encode-mode"), ("-c", "--content"), ("-p", "--preview"), ("-m", "--mass")]),
    ("search", 1, &[("-t", "--type")]),
    ("rename", 1, &[("-n", "--name"), ("-f", "--new-file"), ("-d", "--delete-old")]),
    ("comment", 1, &[("-c", "--comment"), ("-f", "--new-file"), ("-d", "--delete-old")]),
    ("lock", 1, &[("-f", "--new-file"), ("-d", "--delete-old")]),
    ("unlock", 1, &[("-f", "--new-file"), ("-d", "--delete-old")]),
    ("archive", 1, &[("-f", "--new-file"), ("-d", "--delete-old")]),
    ("unarchive", 1, &[("-f", "--new-file"), ("-d", "--delete-old")]),
    ("details", 1, &[]),
    ("models", 0, &[]),
    ("", 0, &[]),
];

/// Help: complete, the same however it is asked for, and nothing else happens
fn help(ctx: &Ctx, fs: &Fs) {
    let run = |a: &[String]| {
        ctx.state(1);
        let c = Case { fs: fs.clone(), args: a.to_vec(), stdin: b"y\ny\ny\n".to_vec(), ..Default::default() };
        let d = c.run(ctx, &[]);
        (c, d)
    };
    let (_, full) = run(&strs(&["help"]));
    let words = |s: &str| -> Vec<String> { s.split_whitespace().map(|x| x.to_string()).collect() };
    let full_text = full.out.plain();
    let (c, d) = run(&[]);
    c.check(ctx, "no command", alike(&d, &full, "help"));
    let (c, ver) = run(&strs(&["version"]));
    let v = ver.out.plain();
    let r = if ver.out.code == 0 && v.lines().count() == 1 && v.starts_with("ti-tools ") && full_text.lines().next() == v.lines().next() { Ok(()) } else { Err(format!("{v:?}, and help starts with {:?}", full_text.lines().next())) };
    c.check(ctx, "version", r);
    // the tool signs programs made from texts with its name and version
    let (c, d) = run(&strs(&["convert", "in.txt", "-o", "out.8xp"]));
    let sign = d.read("out.8xp").map(|b| String::from_utf8_lossy(&b[11..53]).trim_end_matches('\0').to_string());
    let want = format!("Created by TI-Tools {}", v.trim().rsplit(' ').next().unwrap_or(""));
    c.check(ctx, "the version in the comment", if sign.as_deref().is_some_and(|s| s.replace("Tools v", "Tools ") == want) { Ok(()) } else { Err(format!("{sign:?} instead of {want:?}")) });
    for (cmd, _, flags) in CLI.iter().filter(|x| !x.0.is_empty()) {
        let (c, one) = run(&strs(&["help", cmd]));
        let text = one.out.plain();
        let r = (|| {
            sane(&one.out)?;
            untouched(fs, &one)?;
            if one.out.code != 0 {
                return Err(format!("status {}", one.out.code));
            }
            if !text.lines().next().is_some_and(|l| words(l).first().map(|w| w.as_str()) == Some(*cmd)) {
                return Err(format!("does not begin with the command: {text:?}"));
            }
            let listed: BTreeSet<(String, String)> = text.lines().map(words).filter(|w| w.len() > 1 && w[0].starts_with('-') && w[0].len() == 2).map(|w| (w[0].clone(), w[1].clone())).collect();
            let want: BTreeSet<(String, String)> = flags.iter().map(|f| (p(f.0), p(f.1))).collect();
            if listed != want {
                return Err(format!("lists the flags {listed:?} instead of {want:?}"));
            }
            // everything in it is in the full help
            for l in text.lines().filter(|l| !l.trim().is_empty()) {
                if !full_text.lines().any(|m| words(m) == words(l)) {
                    return Err(format!("the full help does not have the line {l:?}"));
                }
            }
            Ok(())
        })();
        c.check(ctx, "help of a command", r);
        // -h and --help anywhere after the command: the help and nothing else
        let inputs: &[&str] = if *cmd == "search" { &["Disp ", "nothing"] } else { &["in.8xp", "in.txt", "all", "missing.8xp"] };
        let mut lines: Vec<Vec<String>> = vec![strs(&[cmd])];
        for i in inputs {
            lines.push(strs(&[cmd, i]));
            for (s, l) in flags.iter() {
                for f in [s, l] {
                    lines.push(strs(&[cmd, i, f]));
                    for v in ["out.txt", "out.8xp", "pretty", "min", "ABC", "wrong"] {
                        lines.push(strs(&[cmd, i, f, v]));
                        lines.push(strs(&[cmd, i, f, v, "-d"]));
                        lines.push(strs(&[cmd, i, f, v, "-f", "new.8xp"]));
                    }
                }
            }
        }
        let todo: Vec<Vec<String>> = lines
            .iter()
            .flat_map(|l| {
                (1..=l.len()).flat_map(move |k| {
                    ["-h", "--help"].into_iter().map(move |h| {
                        let mut x = l.clone();
                        x.insert(k, p(h));
                        x
                    })
                })
            })
            .collect();
        par(ctx, &todo, |a| {
            let (c, d) = run(a);
            c.check(ctx, "asking for help", untouched(fs, &d).and_then(|_| alike(&d, &one, "help of the command")));
        });
    }
    // the full help has every command
    let (c, d) = run(&strs(&["help"]));
    let mut missing: Vec<&str> = vec![];
    for (cmd, _, _) in CLI.iter().filter(|x| !x.0.is_empty()) {
        if !full_text.lines().any(|l| words(l).first().map(|w| w.as_str()) == Some(*cmd) && l.contains(" - ")) {
            missing.push(cmd)
        }
    }
    c.check(ctx, "full help", if missing.is_empty() && d.out.code == 0 { Ok(()) } else { Err(format!("commands not listed: {missing:?}")) });
    for w in ["nothing", "Convert", "conver", "", "-o"] {
        let (c, d) = run(&strs(&["help", w]));
        c.check(ctx, "help of something else", untouched(fs, &d).and_then(|_| alike(&d, &full, "help")));
    }
}

// ------------------------------------------------------------------------------------------------- C24
/// A path and the file it leads to, in a tree where every directory on the way exists
struct Spelling {
    path: String,
    at: String,
    dirs: Vec<(String, Node)>,
}

const REAL: &str = "real";

fn spell(prefix: &str, comps: &[&str], name: &str) -> Option<Spelling> {
    let mut at: Vec<String> = vec![];
    let mut dirs: Vec<(String, Node)> = vec![];
    let mut path = prefix.to_string();
    for c in comps {
        path += c;
        path.push('/');
        match *c {
            "" | "." => {}
            ".." => {
                at.pop()?;
            }
            "link" => {
                // a link in the current directory that leads to a directory in the root
                let up = "../".repeat(at.len());
                dirs.push((REAL.into(), Node::Dir));
                dirs.push(([at.clone(), vec![p("link")]].concat().join("/"), Node::Link(format!("{up}{REAL}"))));
                at = vec![REAL.into()];
            }
            c => {
                at.push(c.into());
                dirs.push((at.join("/"), Node::Dir));
            }
        }
    }
    if path.starts_with('/') || name.starts_with('-') && path.is_empty() {
        return None;
    }
    path += name;
    Some(Spelling { path, at: [at, vec![name.into()]].concat().join("/"), dirs })
}

pub fn c24(ctx: &Ctx) {
    let comps = [".", "..", "", "sub", "d.8xp", "d.txt", "link", "a b", "ünï→", ".hidden", "-x", "[b]", "it's", "~", "$HOME", "*"];
    let mut lists: Vec<Vec<&str>> = vec![vec![]];
    let mut level: Vec<Vec<&str>> = vec![vec![]];
    for n in 1..=if ctx.thorough { 3 } else { 2 } {
        let use_: &[&str] = if n < 3 { &comps } else { &comps[..9] };
        level = level.iter().filter(|l| n < 3 || l.iter().all(|c| use_.contains(c))).flat_map(|l| use_.iter().map(move |c| [l.clone(), vec![*c]].concat())).collect();
        lists.extend(level.clone());
    }
    // deep
    lists.push(vec!["sub"; 30]);
    lists.push(["sub", ".."].repeat(20));
    lists.push(vec!["a b"; 12]);
    lists.push(vec!["."; 50]);
    // directories whose names look like something else
    for x in ["file:", "http:", "C:", "%2e%2e", "%41", "a\\b", "@", "=", "nul", "\"q\"", "new\nline"] {
        lists.extend([vec![x], vec![x, ""], vec![x, "", "sub"], vec![x, "", ""], vec!["sub", x]]);
    }
    let stems = ["in", "a b", "ünï→", ".in", "a.b", "in.8xp", "in.txt", "-x", "[b]", "~", "x:y", "*", "\u{1F600}", "..in",
        // what shells, addresses and other systems read as something else
        "a%20b", "%41", "%2e%2e", "$HOME", "${HOME}", "$(id)", "~nobody", "~+", "a\\ b", "\\x41", "\\u0041", "file:", "'a'", "\"a\"", "`a`", "a*", "a?", "{a,b}", "a  b", " a", "a ", "IN", "In", "%HOME%", "&amp;", "@a", "CON", "NUL", "a\u{0301}", "\u{E1}", "\u{FF41}", "a\u{A0}b", "a\u{200B}b", "stdin", "null", "default",
    ];
    let long: Vec<String> = [60, 120, 200, 230].iter().map(|n| "n".repeat(*n)).collect();

    let progs = sensitive(ctx);
    let content = |e: &str| progs[&format!("in.{e}")].clone();
    // commands: arguments with IN and OUT, extensions of both
    let mut cmds: Vec<(Vec<&str>, &str, Option<&str>)> = vec![
        (vec!["convert", "IN", "-o", "OUT"], "8xp", Some("txt")),
        (vec!["convert", "IN", "-o", "OUT"], "txt", Some("8xp")),
        (vec!["convert", "IN", "-o", "OUT"], "82p", Some("json")),
        (vec!["convert", "IN", "-o", "OUT"], "json", Some("83p")),
        (vec!["convert", "IN", "-p", "-c"], "8xp", None),
        (vec!["details", "IN"], "8xp", None),
        (vec!["rename", "IN", "-n", "NEW", "-f", "OUT", "-d"], "8xp", Some("8xp")),
        (vec!["lock", "IN", "-f", "OUT"], "83p", Some("82p")),
        (vec!["comment", "IN", "-c", "new"], "8xp", None),
        (vec!["archive", "IN"], "8xp", None),
    ];
    if ctx.thorough {
        cmds.extend([
            (vec!["convert", "IN", "-o", "OUT"], "8xp", Some("8xp")),
            (vec!["convert", "IN", "-o", "OUT"], "txt", Some("txt")),
            (vec!["convert", "IN", "-o", "OUT"], "json", Some("json")),
            (vec!["comment", "IN", "-c", "new", "-f", "OUT"], "82p", Some("txt")),
            (vec!["unlock", "IN", "-f", "OUT", "-d"], "8xp", Some("json")),
            (vec!["convert", "IN", "-p", "-c"], "txt", None),
            (vec!["details", "IN"], "83p", None),
            (vec!["rename", "IN", "-n", "NEW"], "82p", None),
        ]);
    }
    // what each command does with plain paths
    struct Plain {
        code: i32,
        text: String,
        err: String,
        input: Option<Node>,
        output: Option<Node>,
    }
    const IN: &str = "plain-input";
    const OUT: &str = "plain-output";
    let plain: Vec<Plain> = cmds
        .iter()
        .map(|(a, i, o)| {
            let (inp, out) = (format!("{IN}.{i}"), o.map(|o| format!("{OUT}.{o}")));
            let mut fs = Fs::new();
            fs.insert(inp.clone(), content(i));
            let args: Vec<String> = a.iter().map(|x| match *x { "IN" => inp.clone(), "OUT" => out.clone().unwrap(), x => p(x) }).collect();
            let c = Case { fs, args, stdin: b"y\n".to_vec(), ..Default::default() };
            let d = c.run(ctx, &[]);
            let hide = |s: String| out.iter().fold(s, |s, o| s.replace(o.as_str(), "<OUT>")).replace(inp.as_str(), "<IN>");
            if d.out.code != 0 {
                c.check(ctx, "plain paths", Err(format!("status {}: {}", d.out.code, d.out.plain())));
            }
            Plain { code: d.out.code, text: hide(d.out.plain()), err: hide(d.out.se()), input: d.after.get(&inp).cloned(), output: out.and_then(|o| d.after.get(&o).cloned()) }
        })
        .collect();

    // (command, spelling of the input, spelling of the output)
    let mut todo: Vec<(usize, Spelling, Option<Spelling>)> = vec![];
    let prefixes = ["", "@ROOT@/"];
    for (k, (_, ie, oe)) in cmds.iter().enumerate() {
        let name = |s: &str, e: &str| format!("{s}.{e}");
        let simple_in = || spell("", &[], &name(IN, ie)).unwrap();
        let simple_out = || oe.map(|o| spell("", &[], &name(OUT, o)).unwrap());
        for pre in prefixes {
            for l in &lists {
                if let Some(s) = spell(pre, l, &name("in", ie)) {
                    todo.push((k, s, simple_out()));
                }
                if let (Some(o), Some(s)) = (oe, spell(pre, l, &name("out", oe.unwrap_or("")))) {
                    let _ = o;
                    todo.push((k, simple_in(), Some(s)));
                }
                // both in the same place
                if let (Some(o), Some(i)) = (oe, spell(pre, l, &name("in", ie))) {
                    if l.len() < 2 || ctx.thorough {
                        todo.push((k, i, spell(pre, l, &name("out", o))));
                    }
                }
            }
            let signs = (1..128u8).filter(|c| !c.is_ascii_alphanumeric() && *c != b'/').flat_map(|c| [format!("{}a", c as char), format!("a{}b", c as char)]);
            for (st, sign) in stems.iter().map(|s| s.to_string()).chain(long.clone()).map(|s| (s, false)).chain(signs.map(|s| (s, true))) {
                for l in [vec![], vec!["."], vec!["sub"], vec!["link"], vec!["d.txt"]] {
                    if sign && (!ctx.thorough && (k % 3 != 0 || !pre.is_empty()) || !l.is_empty() && l[0] != "sub") {
                        continue;
                    }
                    if let Some(s) = spell(pre, &l, &name(&st, ie)) {
                        todo.push((k, s, simple_out()));
                    }
                    if let Some(o) = oe {
                        if let Some(s) = spell(pre, &l, &name(&st, o)) {
                            todo.push((k, simple_in(), Some(s)));
                        }
                        if let (Some(i), Some(s)) = (spell(pre, &l, &name(&st, ie)), spell(pre, &l, &name(&st, o))) {
                            if i.at != s.at {
                                todo.push((k, i, Some(s)));
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.note("spellings", todo.len() as u64);
    par(ctx, &todo, |(k, i, o)| {
        let (a, ie, _) = &cmds[*k];
        let want = &plain[*k];
        ctx.state(1);
        let mut fs = Fs::new();
        for s in [Some(i), o.as_ref()].into_iter().flatten() {
            for (d, n) in &s.dirs {
                fs.insert(d.clone(), n.clone());
            }
        }
        fs.insert(i.at.clone(), content(ie));
        let outp = o.as_ref().map(|s| s.path.clone()).unwrap_or_default();
        let args: Vec<String> = a.iter().map(|x| match *x { "IN" => i.path.clone(), "OUT" => outp.clone(), x => p(x) }).collect();
        let c = Case { fs: fs.clone(), args, stdin: b"y\n".to_vec(), ..Default::default() };
        let d = c.run(ctx, &[]);
        let r = (|| {
            sane(&d.out)?;
            if d.out.code != want.code {
                return Err(format!("status {} instead of {}: {}{}", d.out.code, want.code, d.out.plain(), d.out.se()));
            }
            let mut files = fs.clone();
            match &want.input {
                Some(n) => files.insert(i.at.clone(), n.clone()),
                None => files.remove(&i.at),
            };
            if let (Some(s), Some(n)) = (o, &want.output) {
                files.insert(s.at.clone(), n.clone());
            }
            if files != d.after {
                return Err(format!("not the files that plain paths give:\n{}", diff(&files, &d.after)));
            }
            // the absolute path is shown as it was given
            let show = |t: String| {
                let lines: Vec<String> = t.lines().map(|l| l.to_string()).collect();
                lines.join("\n")
            };
            let root = |t: &str| -> String {
                // the scratch directory in front of a path
                let mut s = t.to_string();
                let base = ctx.scratch.to_string_lossy().to_string();
                while let Some(x) = s.find(&base) {
                    let rest = &s[x + base.len()..];
                    let skip = rest[1..].find('/').map_or(rest.len(), |n| n + 1);
                    s = format!("{}@ROOT@{}", &s[..x], &rest[skip..]);
                }
                s
            };
            let (text, err) = (root(&d.out.plain()), root(&d.out.se()));
            let fill = |t: &str| t.replace("<IN>", &i.path).replace("<OUT>", &outp);
            if show(text.clone()) != show(fill(&want.text)) {
                return Err(format!("prints {text:?} instead of {:?}", fill(&want.text)));
            }
            if show(err.clone()) != show(fill(&want.err)) {
                return Err(format!("prints {err:?} instead of {:?}", fill(&want.err)));
            }
            Ok(())
        })();
        c.check(ctx, "spelling of a path", r);
    });
    // --- directories of a mass conversion
    let mut todo: Vec<(Spelling, Option<Spelling>)> = vec![];
    // every spelling of a directory: ways to it, names, ways to go on from it and back
    let dir = |pre: &str, l: &[&str], name: &str, end: &str| -> Option<Spelling> {
        let mut s = spell(pre, l, name)?;
        s.path += end;
        if name.is_empty() {
            s.at.pop();
        }
        if end.contains("inner") {
            s.dirs.push((clean(&format!("{}/inner", s.at)), Node::Dir));
        }
        Some(s)
    };
    let ends = ["", "/", "//", "/.", "/./", "/inner/..", "/inner/../", "/./inner//.././"];
    let plain_dir = |n: &str| spell("", &[], n).unwrap();
    for pre in prefixes {
        for (n, l) in lists.iter().enumerate() {
            for (k, end) in ends.iter().enumerate() {
                if !ctx.thorough && l.len() > 1 && (n + k) % 2 == 1 && l.len() < 10 {
                    continue;
                }
                if let Some(s) = dir(pre, l, "from", end) {
                    todo.push((s, Some(plain_dir("to"))));
                }
                if let Some(s) = dir(pre, l, "to", end) {
                    todo.push((plain_dir("from"), Some(s)));
                }
                if let Some(s) = dir(pre, l, "both", end) {
                    todo.push((s, None));
                }
            }
            // the directory that the way itself leads to
            if !l.is_empty() {
                for cut in [0, 1] {
                    let whole = |s: Spelling| Spelling { path: s.path[..s.path.len() - cut].to_string(), ..s };
                    if let Some(s) = dir(pre, l, "", "").map(whole) {
                        if !s.path.is_empty() {
                            let o = spell("", &["elsewhere"], "to").unwrap();
                            // a directory with the extension of a program is reported as an entry that can not be converted
                            if l.iter().all(|c| !c.starts_with("d.")) {
                                todo.push((Spelling { path: s.path.clone(), at: s.at.clone(), dirs: s.dirs.clone() }, Some(o)));
                            }
                            let i = spell("", &["elsewhere"], "from").unwrap();
                            todo.push((i, Some(s)));
                        }
                    }
                }
            }
        }
        for name in stems.iter().map(|x| x.to_string()).chain(long.clone()).chain(["to.", "to..", "to ", " to", "...", "in.json", "in.82p", "IN.8XP", ".8xp", ".txt", "a..b", "to.d"].map(|x| x.to_string())) {
            for end in ends {
                for l in [vec![], vec!["sub"], vec!["link"]] {
                    if let Some(s) = dir(pre, &l, &name, end) {
                        todo.push((s, Some(plain_dir("to"))));
                    }
                    if let Some(s) = dir(pre, &l, &name, end) {
                        todo.push((plain_dir("from"), Some(s)));
                    }
                    if let Some(s) = dir(pre, &l, &name, end) {
                        todo.push((s, None));
                    }
                }
            }
        }
    }
    ctx.note("spellings of directories", todo.len() as u64);
    par(ctx, &todo, |(i, o)| {
        ctx.state(1);
        let mut fs = Fs::new();
        for s in [Some(i), o.as_ref()].into_iter().flatten() {
            for (d, n) in &s.dirs {
                fs.insert(d.clone(), n.clone());
            }
            if !s.at.is_empty() {
                fs.insert(s.at.clone(), Node::Dir);
            }
        }
        let a = Prog::new("AAA", &[0xDE, 0x41]);
        let b = Prog::new("BBB", &[0x42]);
        fs.insert(clean(&format!("{}/one.8xp", i.at)), file(a.bytes(false)));
        fs.insert(clean(&format!("{}/two.txt", i.at)), file(txt_of(&b, ACCESSIBLE)));
        let out = o.as_ref().unwrap_or(i);
        let args = strs(&["convert", &i.path, "-m", "-o", &out.path]);
        let c = Case { fs: fs.clone(), args, stdin: b"".to_vec(), ..Default::default() };
        let d = c.run(ctx, &[]);
        let r = (|| {
            sane(&d.out)?;
            let mut want = fs.clone();
            want.insert(clean(&format!("{}/AAA.txt", out.at)), file(txt_of(&a, ACCESSIBLE)));
            let key = clean(&format!("{}/BBB.8xp", out.at));
            let got = d.after.get(&key).cloned();
            if let Some(Node::File(x)) = &got {
                let q = parse(x, "8xp")?;
                if q.name != b.name || q.body != b.body {
                    return Err(format!("{key} is {q:?}"));
                }
                want.insert(key.clone(), got.unwrap());
            }
            if want != d.after || !d.after.contains_key(&key) || d.out.code != 0 {
                return Err(format!("status {}, files:\n{}\n{}", d.out.code, diff(&want, &d.after), d.out.plain()));
            }
            Ok(())
        })();
        c.check(ctx, "spelling of a directory", r);
    });
}

// ------------------------------------------------------------------------------------------------- C25
/// A file in the abstract: its format, the program, and the display mode that txt and json files have
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Abs {
    ext: &'static str,
    prog: Prog,
    mode: usize,
}

fn binary(ext: &str) -> bool {
    ["8xp", "83p", "82p"].contains(&ext)
}

/// What a conversion keeps: 82p and 83p files have no destination and no version, txt files have no version and lead to
/// programs with the comment of the tool
fn converted(s: &Abs, to: &'static str, mode: usize, sign: &[u8]) -> Abs {
    let mut n = s.clone();
    n.ext = to;
    n.mode = if binary(to) { ACCESSIBLE } else if binary(s.ext) { mode } else { s.mode };
    if s.ext == "txt" {
        n.prog.comment = sign.to_vec();
        n.prog.version = 0;
    }
    if to == "82p" || to == "83p" {
        n.prog.dest = 0;
        n.prog.version = 0;
    }
    n
}

pub fn c25(ctx: &Ctx) {
    let sign: Vec<u8> = {
        let d = ctx.dir();
        d.write("x.txt", Txt::new("A", ACCESSIBLE, "latest", "A").text());
        let o = ctx.run(&["convert", "x.txt", "-o", "x.8xp"], b"", &d.0);
        let b = d.read("x.8xp").unwrap_or_else(|| panic!("machinery: {}", o.se()));
        b[11..53].iter().copied().take_while(|x| *x != 0).collect()
    };
    let mut starts: Vec<(Prog, bool)> = vec![];
    let body_all = |t: &Table| -> Vec<u8> { t.tokens.keys().filter(|k| k[..] != [0x3F] && k[..] != [0x2A]).flat_map(|k| [k.to_vec(), vec![0x3F]]).flatten().collect() };
    for (i, m) in FILE_MODELS.iter().enumerate() {
        let t = table_of(m.0, m.1);
        for (j, b) in [vec![0x41, 0x3F, 0x31], vec![], vec![0x3F, 0x3F], vec![0x2A, 0x41, 0x2A], body_all(t)].into_iter().enumerate() {
            if t.split(&b).is_none() {
                continue;
            }
            let mut q = Prog::new(["PROG", "a", "", "aBcDeFgH", "X"][(i + j) % 5], &b);
            q.sig = m.0.into();
            q.product = m.1;
            q.ftype = TYPES[(i + j) % 4];
            q.dest = DESTS[(i + j / 2) % 2];
            q.version = [0, 0x1B, 0xFF][(i + 2 * j) % 3];
            q.comment = comments()[[0, 1, 2, 3, 4][(i * 2 + j) % 5]].clone();
            starts.push((q, false));
        }
    }
    // with edits between the conversions
    for (ft, dest, m) in [(5, 0, 0), (6, 0x80, 4), (0x17, 0, 8)] {
        let m = FILE_MODELS[m.min(FILE_MODELS.len() - 1)];
        let mut q = Prog::new("PROG", &[0x41, 0x3F, 0x31]);
        q.sig = m.0.into();
        q.product = m.1;
        q.ftype = ft;
        q.dest = dest;
        q.version = 2;
        starts.push((q, true));
    }
    let tries: BTreeMap<(&str, usize), Trie> = FILE_MODELS.iter().flat_map(|m| (0..3).map(move |k| ((m.2, k), Trie::new(table_of(m.0, m.1), k)))).collect();
    // modes in which the body is the encoding of its text: the other modes change it, by C01 to C05
    let modes_of = |q: &Prog| -> Vec<usize> {
        let t = table_of(&q.sig, q.product);
        (0..3)
            .filter(|m| {
                let tr = &tries[&(t.model, *m)];
                let text = t.decode(&q.body, *m).unwrap();
                let ok = |r: Result<Vec<Seg>, String>| r.is_ok_and(|x| bytes_of(&x) == q.body);
                ok(encode_smart(tr, &text)) && ok(encode_smart_recorded(tr, &text))
            })
            .collect()
    };
    // one content for each abstract file, found by the first way that leads to it
    let contents: Mutex<HashMap<Abs, Vec<u8>>> = Mutex::new(HashMap::new());
    let edits = [Edit::Name("new"), Edit::Comment("other".into()), Edit::Lock, Edit::Unlock, Edit::Archive, Edit::Unarchive];
    for (q, with_edits) in &starts {
        if ctx.stopped() {
            break;
        }
        // a body that no mode keeps is followed through the formats that keep the bytes
        let modes = modes_of(q);
        let start = Abs { ext: "8xp", prog: q.clone(), mode: ACCESSIBLE };
        contents.lock().unwrap().insert(start.clone(), q.bytes(false));
        let succ = |s: &Abs| -> Vec<Abs> {
            let bytes = contents.lock().unwrap()[s].clone();
            let inp = format!("in.{}", s.ext);
            let mut next = vec![];
            let mut step = |args: Vec<String>, out: String, n: Abs| {
                let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
                let label = format!("a {} file of {} {}", s.ext, s.prog.model(), brief(&s.prog.name));
                trial(ctx, &label, &[(&inp, bytes.clone())], &[(a.clone(), b"y\n")], |d| {
                    let got = must(ctx, d, &a, b"y\n", &out)?;
                    let want = if binary(n.ext) {
                        n.prog.file(n.ext)
                    } else if n.ext == "txt" {
                        txt_of(&n.prog, n.mode).into_bytes()
                    } else {
                        contents.lock().unwrap().entry(n.clone()).or_insert_with(|| got.clone()).clone()
                    };
                    if out != inp && d.read(&inp).as_ref() != Some(&bytes) {
                        return Err(format!("`{}` changed its input", a.join(" ")));
                    }
                    if got != want {
                        let i = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
                        let cut = |v: &[u8]| brief(&v[i.saturating_sub(30).min(v.len())..(i + 60).min(v.len())]);
                        return Err(format!("`{}`: {} instead of {} (at byte {i})", a.join(" "), cut(&got), cut(&want)));
                    }
                    contents.lock().unwrap().entry(n.clone()).or_insert(got);
                    next.push(n);
                    Ok(())
                });
            };
            for to in EXTS {
                for m in 0..3 {
                    if to == "txt" && binary(s.ext) && !modes.contains(&m) || !binary(s.ext) && m > 0 {
                        continue;
                    }
                    if to == "txt" && s.ext == "json" && !modes.contains(&s.mode) {
                        continue;
                    }
                    if binary(to) && m > 0 {
                        continue;
                    }
                    let out = format!("out.{to}");
                    let mut a = strs(&["convert", &inp, "-o", &out]);
                    if binary(s.ext) && !binary(to) {
                        a.extend(strs(&["-d", MODES[m]]));
                    }
                    step(a, out, converted(s, to, m, &sign));
                }
            }
            if *with_edits && binary(s.ext) {
                for (k, e) in edits.iter().enumerate() {
                    let mut n = s.clone();
                    match e {
                        Edit::Name(x) => n.prog.name = x.to_uppercase().into_bytes(),
                        Edit::Comment(x) => n.prog.comment = x.clone().into_bytes(),
                        Edit::Lock => n.prog.ftype = 6,
                        Edit::Unlock => n.prog.ftype = 5,
                        Edit::Archive => n.prog.dest = 0x80,
                        Edit::Unarchive => n.prog.dest = 0,
                    }
                    let a = strs(&e.args(&inp));
                    // in place, and to a file of another format
                    step(a.clone(), inp.clone(), converted(&n, s.ext, ACCESSIBLE, &sign));
                    let to = EXTS[(k + s.ext.len()) % 5];
                    // the display mode of an edited program is accessible
                    if to == "txt" && !modes.contains(&ACCESSIBLE) {
                        continue;
                    }
                    let out = format!("new.{to}");
                    step([a, strs(&["-f", &out])].concat(), out, converted(&n, to, ACCESSIBLE, &sign));
                }
            }
            next
        };
        let depth = if ctx.thorough || !*with_edits { 100 } else { 4 };
        let r = bfs(ctx, vec![start], depth, usize::MAX, succ);
        ctx.note_add("reachable files", r.0 as u64);
        ctx.note_add(if r.2 { "start programs explored to closure" } else { "start programs explored to the depth bound" }, 1);
    }
}

// ------------------------------------------------------------------------------------------------- C26
/// Extensions close to the known ones, all short ones over their characters, and names that have none
fn extensions(thorough: bool) -> Vec<String> {
    let mut v: BTreeSet<String> = BTreeSet::new();
    let mut level = vec![String::new()];
    for _ in 0..if thorough { 4 } else { 3 } {
        level = level.iter().flat_map(|s| ['8', '2', '3', 'x', 'p', 't', 'X', 'P'].iter().map(move |c| format!("{s}{c}"))).collect();
        v.extend(level.clone());
    }
    for e in EXTS {
        v.extend(near(&[e]).into_iter().filter(|x| !x.contains('/')));
        let c: Vec<char> = e.chars().collect();
        for i in 0..=c.len() {
            for x in [' ', '.', '_', '0', '\u{301}', '\u{200b}', '~', '\u{a0}', 'é'] {
                v.insert([&c[..i], &[x], &c[i..]].concat().iter().collect());
            }
        }
        for y in ["bak", "tmp", "zip", "old", "part", "swp"] {
            v.insert(format!("{e}.{y}"));
        }
    }
    v.extend(["8xv", "8xg", "8xk", "8xl", "8ek", "73p", "84p", "85p", "86p", "89p", "8cp", "8xpp", "jsonc", "text", "md", "log", "bin", "dat", "exe", "8XP", "TXT", "Json"].map(|x| x.to_string()));
    // the part behind the last dot is the extension
    v.retain(|x| !EXTS.contains(&x.rsplit('.').next().unwrap()) && !x.contains('\0'));
    v.into_iter().collect()
}

pub fn c26(ctx: &Ctx) {
    let base = sensitive(ctx);
    let exts = extensions(ctx.thorough);
    ctx.note("extensions that are not known", exts.len() as u64);
    let content = |e: &str| match &base[&format!("in.{e}")] {
        Node::File(b) => b.clone(),
        _ => unreachable!(),
    };
    // --- anything else is refused, as input and as output, and changes nothing
    let name = |e: &str| if e.is_empty() { "other".to_string() } else { format!("other.{e}") };
    let mut names: Vec<String> = exts.iter().map(|e| name(e)).collect();
    names.extend(["other", "other.", "8xp", "txt", "json", "83p", "other8xp", "othertxt", "a b", "..."].map(|x| x.to_string()));
    names.sort();
    names.dedup();
    let mut todo: Vec<(String, usize, usize)> = vec![];
    for n in &names {
        for k in 0..5 {
            for how in 0..14 {
                todo.push((n.clone(), k, how));
            }
        }
    }
    par(ctx, &todo, |(n, k, how)| {
        let e = EXTS[*k];
        let inp = format!("in.{e}");
        let mut fs = base.clone();
        let mut strict = true;
        let args = match how {
            0 | 1 | 2 => {
                fs.insert(n.clone(), file(content(e)));
                match how {
                    0 => strs(&["convert", n, "-o", "new.8xp"]),
                    1 => strs(&["convert", n, "-o", "new.txt"]),
                    _ => strs(&["convert", n, "-p", "-c"]),
                }
            }
            3 => strs(&["convert", &inp, "-o", n]),
            4 => {
                fs.insert(n.clone(), file("existing"));
                strs(&["convert", &inp, "-o", n])
            }
            // a directory of this name, empty or with such a file, alone or through a link
            9..=11 => {
                let dir = if *how == 11 { p("real") } else { n.clone() };
                fs.insert(dir.clone(), Node::Dir);
                if *how == 10 {
                    fs.insert(format!("{dir}/{inp}"), file("existing"));
                }
                if *how == 11 {
                    fs.insert(n.clone(), Node::Link(dir));
                }
                strs(&["convert", &inp, "-o", &if k % 2 == 0 { n.clone() } else { format!("{n}/") }])
            }
            _ if !binary(e) => return,
            12 | 13 => {
                fs.insert(n.clone(), Node::Dir);
                if *how == 13 {
                    fs.insert(format!("{n}/{inp}"), file("existing"));
                }
                strs(&["unlock", &inp, "-f", n, "-d"])
            }
            5 => {
                // whatever the command makes of the content, there is no format to write
                fs.insert(n.clone(), file(content(e)));
                strict = false;
                strs(&["lock", n])
            }
            6 => strs(&["rename", &inp, "-n", "NEW", "-f", n]),
            7 => strs(&["comment", &inp, "-c", "new", "-f", n, "-d"]),
            _ => {
                fs.insert(n.clone(), file("existing"));
                strs(&["archive", &inp, "-f", n, "-d"])
            }
        };
        ctx.state(1);
        let c = Case { fs: fs.clone(), args, stdin: b"y\ny\n".to_vec(), ..Default::default() };
        let d = c.run(ctx, &[]);
        let r = sane(&d.out).and_then(|_| untouched(&fs, &d)).and_then(|_| {
            if strict && d.out.code == 0 || d.out.plain().contains("Successfully") {
                return Err(format!("not refused (status {}): {:?}", d.out.code, d.out.plain()));
            }
            if d.out.stdout.is_empty() && d.out.stderr.is_empty() {
                return Err(p("refused without a message"));
            }
            Ok(())
        });
        c.check(ctx, "not the extension of a format", r);
    });
    // --- a directory full of them: only the known ones are entries of a mass conversion
    let valid = |k: usize| content(EXTS[k % 5]);
    let mut todo: Vec<(Vec<String>, usize)> = names.iter().flat_map(|n| (0..5).map(move |k| (vec![n.clone()], k))).collect();
    todo.extend(names.chunks(40).map(|c| (c.to_vec(), 0)));
    todo.push((names.clone(), 0));
    par(ctx, &todo, |(ns, k)| {
        let mut fs = Fs::new();
        fs.insert("d".into(), Node::Dir);
        fs.insert("o".into(), Node::Dir);
        for (i, n) in ns.iter().enumerate() {
            fs.insert(format!("d/{n}"), file(valid(i + k)));
        }
        let a = Prog::new("ONE", &[0x41]);
        fs.insert("d/one.8xp".into(), file(a.bytes(false)));
        let mut want = fs.clone();
        want.insert("o/ONE.txt".into(), file(txt_of(&a, ACCESSIBLE)));
        ctx.state(1);
        let c = Case::new(&fs, &["convert", "d", "-m", "-o", "o"], b"");
        let d = c.run(ctx, &[]);
        let r = sane(&d.out).and_then(|_| if d.after == want && d.out.code == 0 { Ok(()) } else { Err(format!("status {}, files:\n{}", d.out.code, diff(&want, &d.after))) });
        c.check(ctx, "other files in a directory", r);
    });
    // --- the extension alone says what is written, and how a file is read: not its content and not the rest of its name
    let mut stems: Vec<String> = vec![];
    for e in EXTS {
        stems.extend([format!("a.{e}"), format!("{e}.b"), e.to_string(), format!("{e} "), format!(".{e}"), format!("a{e}"), format!("{}.X", e.to_uppercase()), format!("a.{e}.{e}")]);
    }
    stems.extend(["a", "a.", "a..", "..a", "a.b.c", ".", "tmp", "a.tmp", "~a"].map(|x| x.to_string()));
    let plain: BTreeMap<(usize, usize), Option<Node>> = (0..5)
        .flat_map(|i| (0..5).map(move |o| (i, o)))
        .map(|(i, o)| {
            let out = format!("plain.{}", EXTS[o]);
            let d = Case::new(&base, &["convert", &format!("in.{}", EXTS[i]), "-o", &out], b"").run(ctx, &[]);
            ((i, o), d.after.get(&out).cloned())
        })
        .collect();
    let mut todo: Vec<(usize, usize, String, String)> = vec![];
    for i in 0..5 {
        for o in 0..5 {
            for s in &stems {
                todo.push((i, o, s.clone(), p("plain-out")));
                todo.push((i, o, p("plain-in"), s.clone()));
                if ctx.thorough {
                    for t in &stems {
                        todo.push((i, o, s.clone(), t.clone()));
                    }
                }
            }
        }
    }
    par(ctx, &todo, |(i, o, s, t)| {
        let (inp, out) = (format!("{s}.{}", EXTS[*i]), format!("{t}.{}", EXTS[*o]));
        if inp == out {
            return;
        }
        let mut fs = Fs::new();
        fs.insert(inp.clone(), file(content(EXTS[*i])));
        let mut want = fs.clone();
        if let Some(n) = &plain[&(*i, *o)] {
            want.insert(out.clone(), n.clone());
        }
        ctx.state(1);
        let c = Case::new(&fs, &["convert", &inp, "-o", &out], b"");
        let d = c.run(ctx, &[]);
        let r = sane(&d.out).and_then(|_| if d.after == want && d.out.code == 0 { Ok(()) } else { Err(format!("status {}, files:\n{}\n{}", d.out.code, diff(&want, &d.after), d.out.plain())) });
        c.check(ctx, "names with several dots", r);
    });
    // what is in a file does not change how it is read
    let all: Vec<(usize, usize, usize)> = (0..5).flat_map(|a| (0..5).flat_map(move |b| (0..5).map(move |c| (a, b, c)))).collect();
    par(ctx, &all, |(i, as_, o)| {
        if i == as_ || binary(EXTS[*i]) && binary(EXTS[*as_]) {
            return;
        }
        let inp = format!("other.{}", EXTS[*as_]);
        let mut fs = Fs::new();
        fs.insert(inp.clone(), file(content(EXTS[*i])));
        ctx.state(1);
        let c = Case::new(&fs, &["convert", &inp, "-o", &format!("new.{}", EXTS[*o])], b"");
        let d = c.run(ctx, &[]);
        let r = sane(&d.out).and_then(|_| untouched(&fs, &d)).and_then(|_| if d.out.code != 0 { Ok(()) } else { Err(p("accepted")) });
        c.check(ctx, &format!("the content of a {} file", EXTS[*i]), r);
    });
}
