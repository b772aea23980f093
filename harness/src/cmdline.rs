//! C20: argument sequences, flag orders, truthful and verbatim messages.
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::process::Command;
use std::time::Duration;
use crate::effects::*;
use crate::files::*;
use crate::fmt::*;
use crate::spec::*;
use crate::util::*;

const COMMANDS: [&str; 12] = ["convert", "rename", "comment", "lock", "unlock", "archive", "unarchive", "details", "search", "help", "version", "models"];
const FLAGS: [&str; 20] = ["-o", "-d", "-e", "-c", "-p", "-m", "-n", "-f", "-t", "-h", "--output", "--display-mode", "--encode-mode", "--content", "--preview", "--mass", "--new-file", "--delete-old", "--name", "--help"];

pub fn world(ctx: &Ctx) -> Fs {
    let mut p = Prog::new("PROG", &[0x41, 0x3F, 0x42]);
    p.comment = b"x [y] ]".to_vec();
    let mut fs = Fs::new();
    fs.insert("in.8xp".into(), file(p.bytes(false)));
    fs.insert("in.txt".into(), file(txt_of(&p, ACCESSIBLE)));
    fs.insert("dir".into(), Node::Dir);
    fs.insert("dir/a.8xp".into(), file(p.bytes(false)));
    let _ = ctx;
    fs
}

/// The value that a flag has on a command line: the argument after its first occurrence
fn value<'a>(args: &'a [String], short: &str, long: &str) -> Option<&'a String> {
    args.iter().position(|a| a == short || a == long).and_then(|i| args.get(i + 1))
}

/// Messages that claim something must be true
fn truthful(c: &Case, d: &Done) -> Result<(), String> {
    let before = c.before();
    let args = &c.args;
    let flags = args.iter().filter(|a| a.starts_with('-')).count();
    let clear = args.iter().enumerate().all(|(i, a)| !a.starts_with('-') || i >= 2);
    for l in d.out.plain().lines() {
        if let Some(rest) = l.strip_prefix("Successfully saved ") {
            let path = rest.rsplit(" to ").next().unwrap_or("");
            let got = d.read(path).ok_or(format!("{l:?} but there is no such file"))?;
            let ext = path.rsplit('.').next().unwrap_or("");
            if ["8xp", "83p", "82p"].contains(&ext) {
                let f = faults(got, ext);
                if !f.is_empty() {
                    return Err(format!("{l:?} but the file is malformed: {}", f.join(", ")));
                }
            }
            if let (Some(o), true) = (value(args, "-o", "--output"), !args.iter().any(|a| a == "-m" || a == "--mass")) {
                if o != path {
                    return Err(format!("{l:?} but the output is {o}"));
                }
            }
        } else if l.starts_with("Successfully set") {
            let target = value(args, "-f", "--new-file").unwrap_or(&args[2 - 1]);
            let got = d.read(target).ok_or(format!("{l:?} but {target} is no file"))?;
            let ext = target.rsplit('.').next().unwrap_or("");
            if ["8xp", "83p", "82p"].contains(&ext) && clear {
                let p = parse(got, ext).map_err(|e| format!("{l:?} but the file is malformed: {e}"))?;
                let ok = match args[0].as_str() {
                    "rename" => value(args, "-n", "--name").is_some_and(|n| n.to_uppercase().as_bytes() == p.name),
                    "comment" => value(args, "-c", "--comment").is_some_and(|n| n.as_bytes() == p.comment),
                    "lock" => p.ftype == 6,
                    "unlock" => p.ftype == 5,
                    "archive" => ext != "8xp" || p.dest == 0x80,
                    "unarchive" => p.dest == 0,
                    _ => false,
                };
                if !ok {
                    return Err(format!("{l:?} but the file has {p:?}"));
                }
            }
        } else if l.contains("Deleted old file") && before.contains_key(&args[1]) && d.after.contains_key(&args[1]) {
            return Err(format!("{l:?} but {} is there", args[1]));
        }
    }
    let _ = flags;
    Ok(())
}

fn judge_any(c: &Case, d: &Done) -> Result<(), String> {
    if d.out.crashed() {
        return Err(format!("crash or hang (status {}): {}", d.out.code, d.out.se().trim()));
    }
    let before = c.before();
    let changed = before != d.after;
    if d.out.stdout.is_empty() && d.out.stderr.is_empty() && !changed {
        // an empty input directory is converted without a word
        return Err("does nothing and prints nothing".into());
    }
    let cmd = c.args.first().map(|x| x.as_str()).unwrap_or("");
    if changed && !["convert", "rename", "comment", "lock", "unlock", "archive", "unarchive"].contains(&cmd) {
        return Err(format!("changes files:\n{}", diff(&before, &d.after)));
    }
    truthful(c, d)
}

/// The order of flags and their long or short form do not matter
pub fn forms(ctx: &Ctx, fs: &Fs) {
    let o = |s, l, v| vec![(s, l, Some(v))];
    let groups: Vec<(Vec<&str>, Vec<(&str, &str, Option<&str>)>)> = vec![
        (vec!["convert", "in.8xp"], vec![("-o", "--output", Some("out.txt")), ("-d", "--display-mode", Some("pretty")), ("-c", "--content", None), ("-p", "--preview", None)]),
        (vec!["convert", "in.8xp"], vec![("-o", "--output", Some("out.json")), ("-d", "--display-mode", Some("ti")), ("-e", "--encode-mode", Some("max"))]),
        (vec!["convert", "in.txt"], vec![("-o", "--output", Some("out.8xp")), ("-e", "--encode-mode", Some("min")), ("-c", "--content", None), ("-p", "--preview", None)]),
        (vec!["convert", "in.txt"], vec![("-e", "--encode-mode", Some("wrong")), ("-d", "--display-mode", Some("wrong")), ("-o", "--output", Some("out.8xp"))]),
        (vec!["convert", "dir"], vec![("-m", "--mass", None), ("-o", "--output", Some("new")), ("-d", "--display-mode", Some("pretty")), ("-p", "--preview", None)]),
        (vec!["convert", "dir"], vec![("-m", "--mass", None), ("-p", "--preview", None), ("-c", "--content", None)]),
        (vec!["convert", "in.8xp"], vec![("-m", "--mass", None), ("-o", "--output", Some("new"))]),
        (vec!["rename", "in.8xp"], vec![("-n", "--name", Some("abc")), ("-f", "--new-file", Some("new.8xp")), ("-d", "--delete-old", None)]),
        (vec!["comment", "in.8xp"], vec![("-c", "--comment", Some("text")), ("-f", "--new-file", Some("new.txt")), ("-d", "--delete-old", None)]),
        (vec!["lock", "in.8xp"], vec![("-f", "--new-file", Some("new.8xp")), ("-d", "--delete-old", None)]),
        (vec!["unlock", "in.8xp"], vec![("-f", "--new-file", Some("new.json")), ("-d", "--delete-old", None)]),
        (vec!["archive", "in.8xp"], vec![("-f", "--new-file", Some("new.8xp")), ("-d", "--delete-old", None)]),
        (vec!["unarchive", "in.8xp"], vec![("-f", "--new-file", Some("in.8xp")), ("-d", "--delete-old", None)]),
        (vec!["search", "0xDE"], o("-t", "--type", "byte")),
        (vec!["search", "Disp "], o("-t", "--type", "pretty")),
    ];
    let _ = &o;
    par(ctx, &groups, |(head, flags)| {
        let mut first: Option<(Vec<String>, i32, Vec<u8>, Fs)> = None;
        let n = flags.len();
        let mut orders: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..n {
            orders = orders.iter().flat_map(|p| (0..n).filter(|i| !p.contains(i)).map(|i| [p.clone(), vec![i]].concat()).collect::<Vec<_>>()).collect();
        }
        for p in &orders {
            for form in 0..1 << n {
                let mut a = strs(head);
                for i in p {
                    let f = flags[*i];
                    a.push(if form >> i & 1 == 0 { f.0 } else { f.1 }.to_string());
                    if let Some(v) = f.2 {
                        a.push(v.into())
                    }
                }
                let c = Case { fs: fs.clone(), args: a.clone(), stdin: b"y\ny\n".to_vec(), ..Default::default() };
                ctx.state(1);
                let d = c.run(ctx, &[]);
                let r = judge_any(&c, &d).and_then(|_| match &first {
                    None => Ok(()),
                    Some((b, code, so, after)) => {
                        if d.out.code != *code || d.out.stdout != *so || d.after != *after {
                            Err(format!("differs from `{}`: status {} and {code}, {:?} and {:?}\n{}", b.join(" "), d.out.code, d.out.plain(), strip_ansi(&String::from_utf8_lossy(so)), diff(after, &d.after)))
                        } else {
                            Ok(())
                        }
                    }
                });
                if first.is_none() {
                    first = Some((a, d.out.code, d.out.stdout.clone(), d.after.clone()));
                }
                c.check(ctx, "order and form of flags", r);
            }
        }
    });
}

pub fn c20(ctx: &Ctx) {
    let fs = world(ctx);
    // --- all sequences of words
    let words: Vec<&str> = vec![
        "convert", "rename", "comment", "lock", "archive", "details", "search", "help", "version", "models", "in.8xp", "in.txt", "dir", "new.8xp", "new.txt", "new", "-o", "-f", "-n", "-d", "-c", "-p", "-m", "-t", "--help", "--output", "--delete-old", "", "--", "-", "[", "byte", "0xDE", "ti", "é",
    ];
    let mut todo: Vec<Vec<&str>> = vec![vec![]];
    let mut level: Vec<Vec<&str>> = vec![vec![]];
    for n in 1..=if ctx.thorough { 4 } else { 3 } {
        let next = |s: &Vec<&'static str>| -> Vec<Vec<&'static str>> {
            words
                .iter()
                .filter(|w| n < 4 || !["", "--", "-", "new", "help", "version", "models", "unlock", "--output"].contains(w))
                .map(|w| [s.clone(), vec![*w]].concat())
                .collect()
        };
        level = level
            .iter()
            // longer sequences only of commands that read arguments
            .filter(|s| n < 3 || COMMANDS.contains(&s[0]) && (n < 4 || !["help", "version", "models", "details", "search"].contains(&s[0])))
            .flat_map(next)
            .collect();
        todo.extend(level.clone());
    }
    ctx.note("argument sequences", todo.len() as u64);
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |a| {
        // a sequence that can save is run with and without consent
        let saves = a.len() > 2 && ["convert", "rename", "comment", "lock", "archive"].contains(&a[0]);
        let inputs: Vec<&[u8]> = if saves { vec![b"", b"y\ny\ny\n"] } else { vec![b""] };
        for stdin in inputs {
            let c = Case::new(&fs, a, stdin);
            let d = c.run(ctx, &[]);
            c.check(ctx, "argument sequence", judge_any(&c, &d));
        }
    });
    // --- every flag of every command in every position, with a missing and with every kind of value
    let values = ["", "x", "-", "--", "-o", "[", "[color:red]", "é", "\u{1F600}", "pretty", "min", "smart", "accessible", "byte", "in.8xp", "dir", "a/b/c", "\n", "new.8xp", "0x", "0xZZ", "%s", "..", "/"];
    let mut todo: Vec<Vec<String>> = vec![];
    for c in COMMANDS {
        for f in FLAGS {
            for input in ["in.8xp", "in.txt", "dir", ""] {
                todo.push(strs(&[c, input, f]));
                todo.push(strs(&[c, f, input]));
                for v in values {
                    if v == "/" && c != "search" && c != "convert" {
                        continue;
                    }
                    todo.push(strs(&[c, input, f, v]));
                    if ctx.thorough {
                        for g in ["-p", "-f", "-n", "-d", "-c"] {
                            todo.push(strs(&[c, input, f, v, g]));
                            todo.push(strs(&[c, input, g, "new.txt", f, v]));
                        }
                    }
                }
            }
        }
        for v in values {
            todo.push(strs(&[c, v]));
            todo.push(strs(&[v, c]));
        }
    }
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |a| {
        let c = Case { fs: fs.clone(), args: a.clone(), stdin: b"y\ny\n".to_vec(), ..Default::default() };
        let d = c.run(ctx, &[]);
        c.check(ctx, "flags and values", judge_any(&c, &d));
    });
    forms(ctx, &fs);
    not_text(ctx, &fs);
    claims(ctx);
    failing(ctx);
    consent_mass(ctx);
    // --- messages show what they are about, whatever characters it has
    let alpha = ["[", "]", ":", "a", " ", "é", "color", "\\", "{}", "%s", "→"];
    let mut texts: Vec<String> = vec![];
    let mut level: Vec<String> = vec![String::new()];
    for n in 1..=if ctx.thorough { 4 } else { 3 } {
        level = level.iter().flat_map(|s| alpha.iter().map(move |c| format!("{s}{c}"))).collect();
        if n < 4 {
            texts.extend(level.clone());
        } else {
            texts.extend(level.iter().filter(|s| s.contains('[')).cloned());
        }
    }
    texts.extend(["[style", "[bg", "[x:y]", "[color", "[color]", "[style:", "a[b]c[d]e", "]]]][[[[", "[[[]]]", "[1]→[2]", "[a][b", "[:]", "[::]", "[color:", "]color:red["].iter().map(|x| x.to_string()));
    // long texts, with characters of every length at every position of the first bytes
    for c in ["a", "\u{e9}", "\u{2192}", "\u{1F600}", "[", "a]", "[x"] {
        for k in 0..4 {
            for n in [30, 60, 120, 200, 240] {
                let mut t = "x".repeat(k);
                while t.len() + c.len() <= n {
                    t += c;
                }
                texts.push(t);
            }
        }
    }
    // text that is a style directive is shown as style
    texts.retain(|t| !["[color:", "[bg:", "[style:"].iter().any(|d| t.contains(d)));
    texts.sort();
    texts.dedup();
    ctx.state(texts.len() as u64);
    par(ctx, &texts, |t| {
        let shown = |c: &Case, d: &Done, want: String, err: bool| -> Result<(), String> {
            judge_any(c, d)?;
            let out = if err { format!("{}\n{}", d.out.plain(), strip_ansi(&d.out.se())) } else { d.out.plain() };
            if !out.lines().any(|l| l == want) {
                return Err(format!("expected the line {want:?}, shown {out:?}"));
            }
            Ok(())
        };
        // comments
        if t.is_ascii() && t.len() <= 42 {
            let c = Case::new(&fs, &["comment", "in.8xp", "-c", t, "-f", "o.8xp"], b"");
            let d = c.run(ctx, &[]);
            c.check(ctx, "comment", shown(&c, &d, format!("Successfully set comment to {t}"), false));
        }
        // paths
        let path = format!("{t}.txt");
        let c = Case::new(&fs, &["convert", "in.8xp", "-o", &path], b"");
        let d = c.run(ctx, &[]);
        c.check(ctx, "path", shown(&c, &d, format!("Successfully saved PROG to {path}"), false));
        let path = format!("{t}.8xp");
        let c = Case::new(&fs, &["details", &path], b"");
        let d = c.run(ctx, &[]);
        c.check(ctx, "missing path", shown(&c, &d, format!("Failed to find file: {path}"), true));
        // longer than a name of a file can be
        if t.len() > 200 {
            let path = format!("{}.8xp", t.repeat(20));
            let c = Case::new(&fs, &["details", &path], b"");
            let d = c.run(ctx, &[]);
            c.check(ctx, "overlong path", shown(&c, &d, format!("Failed to find file: {path}"), true));
            let c = Case::new(&fs, &["convert", "in.8xp", "-o", &path], b"");
            let d = c.run(ctx, &[]);
            let r = judge_any(&c, &d).and_then(|_| if d.out.code == 0 { Err("status 0".to_string()) } else { untouched(&c.fs, &d) });
            c.check(ctx, "overlong path", r);
        }
        // names
        if t.chars().count() <= 8 && t.is_ascii() && !t.contains('\\') {
            let mut f = fs.clone();
            f.insert("n.8xp".into(), file(Prog::new(t, &[0x41]).bytes(false)));
            let c = Case::new(&f, &["convert", "n.8xp", "-o", "n.txt"], b"");
            let d = c.run(ctx, &[]);
            c.check(ctx, "name", shown(&c, &d, format!("Successfully saved {t} to n.txt"), false));
            let mut f = Fs::new();
            f.insert("dir".into(), Node::Dir);
            f.insert("dir/n.8xp".into(), file(Prog::new(t, &[0x41]).bytes(false)));
            f.insert("o".into(), Node::Dir);
            let c = Case::new(&f, &["convert", "dir", "-m", "-o", "o"], b"");
            let d = c.run(ctx, &[]);
            let safe = t.replace([':', '/'], "_");
            c.check(ctx, "name in a mass conversion", shown(&c, &d, format!("Successfully saved {t} to o/{safe}.txt"), false));
        }
    });
}

/// Every command that saves x every call that fails: no claim that is not true
/// Arguments that are bytes, but no text: as the command, an input, a value, a flag, too many, before and behind a flag; with and
/// without a file of this name. And the name that the program itself is called by
fn not_text(ctx: &Ctx, fs: &Fs) {
    let lines: Vec<Vec<&str>> = vec![
        vec![], vec!["@"], vec!["@", "in.8xp"], vec!["help", "@"], vec!["version", "@"], vec!["models", "@"], vec!["details", "@"], vec!["details", "in.8xp", "@"], vec!["search", "@"], vec!["search", "If", "-t", "@"], vec!["search", "@", "-t", "byte"], vec!["convert", "@"],
        vec!["convert", "@", "-o", "new.txt"], vec!["convert", "@", "-p"], vec!["convert", "in.8xp", "-o", "@"], vec!["convert", "in.8xp", "--output", "@", "-c"], vec!["convert", "in.8xp", "-o", "new.txt", "-d", "@"], vec!["convert", "in.txt", "-e", "@", "-o", "new.8xp"],
        vec!["convert", "in.8xp", "-p", "@"], vec!["convert", "in.8xp", "@", "-p"], vec!["convert", "@", "-m", "-o", "dir"], vec!["convert", "dir", "-m", "-o", "@"], vec!["convert", "in.8xp", "-o", "new.txt", "@"], vec!["convert", "in.8xp", "-h", "@"], vec!["@", "-h"],
        vec!["rename", "in.8xp", "-n", "@"], vec!["rename", "@", "-n", "X"], vec!["rename", "in.8xp", "-n", "X", "-f", "@"], vec!["rename", "in.8xp", "-n", "X", "-f", "@", "-d"], vec!["comment", "in.8xp", "-c", "@"], vec!["comment", "@", "-c", "c", "-f", "new.8xp"],
        vec!["lock", "@"], vec!["unlock", "in.8xp", "-f", "@"], vec!["archive", "in.8xp", "@"], vec!["unarchive", "@", "-f", "new.8xp", "-d"], vec!["@", "@", "@"],
    ];
    let words: [&[u8]; 9] = [b"\xFF", b"\xFF.8xp", b"a\xFF.txt", b"new\xC3.8xp", b"\xED\xA0\x80.json", b"-\xFF", b"--output\xFF", b"dir/\x80.8xp", b"\xF0\x9F\x98"];
    let todo: Vec<_> = lines.iter().flat_map(|l| words.iter().flat_map(move |w| [false, true].into_iter().flat_map(move |there| [&b"y\ny\n"[..], b""].map(|a| (l, *w, there, a))))).collect();
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |(line, word, there, answer)| {
        let d = ctx.dir();
        materialize(&d.0, fs);
        if *there {
            let from = if line.get(1) == Some(&"@") && line.contains(&"-m") { None } else { fs.get("in.8xp") };
            let p = d.0.join(OsStr::from_bytes(word));
            match from {
                Some(Node::File(b)) => std::fs::write(&p, b).unwrap(),
                _ => std::fs::create_dir_all(&p).unwrap(),
            }
        }
        let before = snapshot(&d.0);
        let args: Vec<&OsStr> = line.iter().map(|a| if *a == "@" { OsStr::from_bytes(word) } else { OsStr::new(*a) }).collect();
        let mut c = Command::new(&ctx.bin);
        c.args(&args).current_dir(&d.0).env_clear();
        let own = line.is_empty();
        if own {
            c.arg0(OsStr::from_bytes(word)).arg("models");
        }
        let o = run_command(c, answer, Duration::from_secs(40));
        let after = snapshot(&d.0);
        ctx.transition(1);
        ctx.trace(1);
        let judge = || -> Result<(), String> {
            sane(&o)?;
            if o.stdout.is_empty() && o.stderr.is_empty() && before == after {
                return Err("neither done nor a message".into());
            }
            if own && (o.code != 0 || !o.plain().contains("TI-84+CE")) {
                return Err(format!("the models are not listed (status {}): {:?}", o.code, o.plain()));
            }
            for (k, v) in &before {
                // with -d an edit may be asked to delete the old file
                let asked_to = line.last() == Some(&"-d");
                if answer.is_empty() && !asked_to && after.get(k) != Some(v) {
                    return Err(format!("{k} changed without consent:\n{}", diff(&before, &after)));
                }
            }
            if before == after && (o.plain().contains("Successfully") || o.plain().contains("Deleted old")) {
                return Err(format!("nothing is saved, but {:?}", o.plain()));
            }
            Ok(())
        };
        if let Err(e) = judge() {
            let quoted: Vec<String> = args.iter().map(|a| format!("\"$(printf '{}')\"", a.as_bytes().iter().map(|b| format!("\\{b:03o}")).collect::<String>())).collect();
            let w = format!("`ti-tools {}`{}: {e}", args.iter().map(|a| a.as_bytes().escape_ascii().to_string()).collect::<Vec<_>>().join(" "), if own { format!(" called {}", word.escape_ascii()) } else { String::new() });
            let r = Replay::new(&w).fs(fs).raw(&format!("printf '{}' | \"$B\" {}; echo \"exit status $?\"", String::from_utf8_lossy(answer).replace('\n', "\\n"), quoted.join(" ")));
            ctx.violation(w, r.end());
        }
    });
}

fn failing(ctx: &Ctx) {
    let shim = ctx.shim.to_string_lossy().to_string();
    let base = inputs(ctx);
    let mut todo: Vec<(Vec<String>, String)> = vec![];
    for i in ["8xp", "83p", "txt", "json"] {
        for o in ["8xp", "txt", "json", "83p"] {
            todo.push((strs(&["convert", &format!("in.{i}"), "-o", &format!("new.{o}")]), format!("new.{o}")));
            todo.push((strs(&["convert", &format!("in.{i}"), "-o", &format!("old.{o}")]), format!("old.{o}")));
        }
    }
    for k in 0..6 {
        for f in ["in.8xp", "in.82p"] {
            let a = strs(&six(k).args(f));
            todo.push((a.clone(), f.into()));
            for t in ["new.8xp", "old.8xp", "new.txt"] {
                todo.push(([a.clone(), strs(&["-f", t])].concat(), t.into()));
                todo.push(([a.clone(), strs(&["-f", t, "-d"])].concat(), t.into()));
            }
        }
    }
    par(ctx, &todo, |(args, t)| {
        let mut c = Case { fs: base.clone(), args: args.clone(), stdin: b"y\n".to_vec(), ..Default::default() };
        for e in ["8xp", "txt", "json", "83p"] {
            c.fs.insert(format!("old.{e}"), file("old content"));
        }
        let alone = c.run(ctx, &[]);
        // every call until one is not made any more, with every error
        let mut n = 1;
        loop {
            let mut reached = false;
            for e in ["e5", "e13", "e28"] {
                let f = format!("{n}:{e}");
                ctx.state(1);
                let log = ctx.scratch.join(format!("log-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
                let _ = std::fs::remove_file(&log);
                let l = log.to_string_lossy().to_string();
                let env = [("LD_PRELOAD", shim.as_str()), ("TV_FAULT", &f), ("TV_LOG", &l)];
                let d = c.run(ctx, &env);
                reached |= std::fs::read_to_string(&log).unwrap_or_default().lines().count() >= n;
                let _ = std::fs::remove_file(&log);
                let plain = d.out.plain();
                let saved = d.after.get(t) == alone.after.get(t) && d.after.get(t).is_some();
                let gone = !d.after.contains_key(&args[1]);
                let deletes = args.iter().any(|a| a == "-d");
                let judge = || -> Result<(), String> {
                    sane(&d.out)?;
                    // the input is the same before and after for edits that change nothing
                    if plain.contains("Successfully") && !saved {
                        return Err(format!("{t} was not saved but the output is {plain:?}"));
                    }
                    if plain.contains("Deleted") && !gone {
                        return Err(format!("{} was not deleted but the output is {plain:?}", args[1]));
                    }
                    if d.out.code == 0 && (!saved || deletes && !gone) {
                        return Err(format!("status 0 but not everything was done: {plain:?}"));
                    }
                    if d.out.code != 0 && d.out.stderr.is_empty() && !plain.contains("Error") {
                        return Err(format!("status {} without a message", d.out.code));
                    }
                    Ok(())
                };
                ctx.trace(1);
                if let Err(e) = judge() {
                    let w = format!("call {n} fails ({f}): {}: {e}", c.label());
                    ctx.violation(w.clone(), c.replay(&w, &[("TV_FAULT", &f)]));
                }
            }
            if !reached || n > 40 || ctx.stopped() {
                break;
            }
            n += 1;
        }
    });
}

/// Every command that saves x every kind of target x every answer: success is reported when the target was saved, and only then
fn claims(ctx: &Ctx) {
    let base = inputs(ctx);
    let mut cmds: Vec<Vec<String>> = vec![];
    for i in ["8xp", "83p", "txt", "json"] {
        cmds.push(strs(&["convert", &format!("in.{i}"), "-o", "@"]));
    }
    for k in 0..6 {
        for f in ["in.8xp", "in.82p"] {
            let e = six(k);
            let a = strs(&e.args(f));
            cmds.push(a.clone());
            cmds.push([a.clone(), strs(&["-f", "@"])].concat());
            cmds.push([a.clone(), strs(&["-f", "@", "-d"])].concat());
        }
    }
    for (c, f, v) in [("rename", "-n", "toolongname"), ("rename", "-n", "A1"), ("comment", "-c", "a comment that is longer than the forty-two characters of the field")] {
        let a = strs(&[c, "in.8xp", f, v]);
        cmds.push(a.clone());
        cmds.push([a.clone(), strs(&["-f", "@", "-d"])].concat());
    }
    let targets = ["new.8xp", "new.txt", "new.json", "new.83p", "old.8xp", "old.txt", "old.json", "dir.8xp", "dir.txt", "missing/new.8xp", "missing/new.txt", "other.8xp/new.8xp", "new.foo", "new", "", ".8xp", "in.8xp", "./in.8xp", "link.8xp", "broken.8xp", "loop.txt"];
    let todo: Vec<(Vec<String>, &str)> = cmds
        .iter()
        .flat_map(|c| {
            let n = if c.contains(&"@".to_string()) { targets.len() } else { 1 };
            targets[..n].iter().map(move |t| (c.iter().map(|a| if a == "@" { t.to_string() } else { a.clone() }).collect(), *t))
        })
        .collect();
    par(ctx, &todo, |(args, t)| {
        let place = !args.iter().any(|a| a == "-o" || a == "-f");
        let t = if place { args[1].as_str() } else { t };
        for answer in [&b"y\n"[..], b"n\n", b""] {
            let mut c = Case { fs: base.clone(), args: args.clone(), stdin: answer.to_vec(), ..Default::default() };
            for e in ["8xp", "txt", "json"] {
                c.fs.insert(format!("old.{e}"), file("old content"));
                c.fs.insert(format!("dir.{e}"), Node::Dir);
            }
            c.fs.insert("link.8xp".into(), Node::Link("other.8xp".into()));
            c.fs.insert("broken.8xp".into(), Node::Link("nothing.8xp".into()));
            c.fs.insert("loop.txt".into(), Node::Link("loop.txt".into()));
            ctx.state(1);
            let before = c.before();
            let d = c.run(ctx, &[]);
            let mut same = d.after.clone();
            if before.get(&args[1]).is_some() && same.get(&args[1]).is_none() {
                same.insert(args[1].clone(), before[&args[1]].clone());
            }
            // nothing but the input's deletion: not saved. Saving the same content again also counts as saved
            let unchanged = same == before;
            // saving the same content again
            let idle = args[0] == "unlock" || args[0] == "unarchive" || args[0] == "convert" && clean(t) == args[1];
            let plain = d.out.plain();
            let claimed = plain.contains("Successfully");
            let judge = || -> Result<(), String> {
                sane(&d.out)?;
                // links that lead nowhere can be replaced without asking
                let refused = before.contains_key(&clean(t)) && !["broken.8xp", "loop.txt"].contains(&t) && answer != b"y\n";
                let stored = args[0] != "archive" || !["82p", "83p"].contains(&t.rsplit('.').next().unwrap_or(""));
                if claimed && !stored && d.out.code == 0 && !refused && unchanged {
                    let w = format!("{}: {plain:?}", c.label());
                    ctx.known_or_violation("K3", w.clone(), || c.replay(&w, &[]));
                    return Ok(());
                }
                if claimed && (d.out.code != 0 || refused || unchanged && !idle) {
                    return Err(format!("nothing was saved (status {}) but the output is {plain:?}", d.out.code));
                }
                if !unchanged && !claimed {
                    return Err(format!("something was saved but the output is {plain:?}:\n{}", diff(&before, &d.after)));
                }
                if d.out.code != 0 && !unchanged {
                    return Err(format!("status {} but something was saved:\n{}", d.out.code, diff(&before, &d.after)));
                }
                let gone = before.contains_key(&args[1]) && !d.after.contains_key(&args[1]);
                if gone != plain.contains("Deleted") {
                    return Err(format!("{} was {}deleted but the output is {plain:?}", args[1], if gone { "" } else { "not " }));
                }
                Ok(())
            };
            c.check(ctx, "what is reported", judge());
        }
    });
}
