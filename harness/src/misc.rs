//! C06 determinism, C11 token availability and identification, C19 search.
use crate::files::*;
use crate::fmt::*;
use crate::spec::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;
use std::sync::Mutex;
use std::time::Duration;

/// Runs the library observer; None if it could not be built for this tree
fn lib(ctx: &Ctx, what: &str, input: &str) -> Option<String> {
    let p = std::env::var("TV_LIB").ok().filter(|p| std::path::Path::new(p).exists())?;
    let mut c = Command::new(p);
    c.arg(what).env_clear();
    // all input is read before anything is written
    let o = run_command(c, input.as_bytes(), Duration::from_secs(300));
    if o.code == 0 {
        return Some(String::from_utf8_lossy(&o.stdout).to_string());
    }
    ctx.violation(format!("the library crashes (status {}) in `{what}`: {}", o.code, o.se().trim()), format!("#!/bin/sh\n# printf %s {} | libcheck {what}\n", shq(&input[..input.len().min(3000)])));
    None
}

fn lib_replay(what: &str, cmd: &str, input: &str) -> String {
    let mut s = String::from("#!/bin/sh\n# needs the library observer: cargo build --release --manifest-path /verif/libcheck/Cargo.toml --target-dir /verif/.build/lib\n");
    for l in what.lines().take(30) {
        s += &format!("# {l}\n")
    }
    s + &format!("printf '%b' {} | /verif/.build/lib/release/libcheck {cmd}\n", shq(&input.replace('\t', "\\t").replace('\n', "\\n")))
}

/// All versions of the token sheet, their neighbours and the special ones
fn versions() -> Vec<String> {
    let mut v: BTreeSet<String> = BTreeSet::new();
    for r in rows() {
        for x in [Some(&r.since.1), r.until.as_ref().map(|u| &u.1)].into_iter().flatten() {
            v.insert(x.clone());
            if let Some((a, b)) = x.rsplit_once('.') {
                if let Ok(n) = b.parse::<u32>() {
                    let w = b.len();
                    v.insert(format!("{a}.{:0w$}", n + 1));
                    if n > 0 {
                        v.insert(format!("{a}.{:0w$}", n - 1));
                    }
                    v.insert(format!("{a}.{b}.1"));
                    v.insert(format!("{a}.{n}0"));
                }
                if let Ok(n) = a.parse::<u32>() {
                    v.insert(format!("{}.{b}", n + 1));
                    v.insert(format!("{}.0", n + 10));
                }
            }
        }
    }
    for x in ["", "latest", "0.1", "1.9", "1.10", "2.0", "9.99", "10.0"] {
        v.insert(x.into());
    }
    v.into_iter().collect()
}

/// Versions that only differ in trailing zero components are not ordered by the property
fn unclear(a: &str, b: &str) -> bool {
    let t = |s: &str| {
        let mut v: Vec<u32> = s.split('.').map(|x| x.parse().unwrap_or(0)).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    };
    a != b && a != "latest" && b != "latest" && !a.is_empty() && !b.is_empty() && t(a) == t(b) && ver(a) != ver(b)
}

pub fn c11(ctx: &Ctx) {
    let rs = rows();
    let vs = versions();
    ctx.sample("each library trace: load_tokens(model, version) -> the set of keys and texts must be the sheet's rows of that version; each CLI trace: product id -> details");
    // --- the tables of every model and version
    let mut pairs: Vec<(&str, String)> = vec![];
    for m in MODELS {
        for v in &vs {
            pairs.push((m.0, v.clone()));
        }
    }
    let chunks: Vec<&[(&str, String)]> = pairs.chunks(40).collect();
    let have = std::env::var("TV_LIB").is_ok_and(|p| std::path::Path::new(&p).exists());
    ctx.note("library observer", have);
    par(ctx, &chunks, |ch| {
        let input: String = ch.iter().map(|(m, v)| format!("{m}\t{v}\n")).collect();
        let out = match lib(ctx, "tokens", &input) {
            Some(o) => o,
            None => return,
        };
        let mut got: Vec<BTreeMap<String, [String; 3]>> = vec![];
        for l in out.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f[0] == "T" {
                got.push(BTreeMap::new());
            } else if f.len() == 4 {
                got.last_mut().unwrap().insert(f[0].into(), [unesc(f[1]), unesc(f[2]), unesc(f[3])]);
            }
        }
        for ((m, v), g) in ch.iter().zip(&got) {
            ctx.state(1);
            ctx.trace(1);
            // an earlier version that the sheet's boundaries can not be compared with decides nothing
            if rs.iter().any(|r| unclear(&r.since.1, v) && order(&r.since.0) == order(m) || r.until.as_ref().is_some_and(|u| unclear(&u.1, v) && order(&u.0) == order(m))) {
                continue;
            }
            let want: BTreeMap<String, [String; 3]> = tokens_of(&rs, &os(m, v)).into_iter().map(|(k, t)| (key_string(&k), t)).collect();
            ctx.transition(rs.len() as u64);
            if *g != want {
                let mut w = vec![];
                for (k, t) in &want {
                    match g.get(k) {
                        None => w.push(format!("{k} {:?} is missing", t[1])),
                        Some(x) if x != t => w.push(format!("{k} has the texts {x:?} instead of {t:?}")),
                        _ => {}
                    }
                }
                for (k, t) in g {
                    if !want.contains_key(k) {
                        w.push(format!("{k} {:?} does not exist there", t[1]));
                    }
                }
                let what = format!("tokens of {m} version {v:?}: {} ({} differences)", w[..w.len().min(3)].join("; "), w.len());
                ctx.violation(what.clone(), lib_replay(&what, "tokens", &format!("{m}\t{v}\n")));
            }
        }
    });
    // --- the order of versions, all pairs (equal to the specification's total order, so transitive)
    let mut l: Vec<(&str, String)> = vec![];
    for g in ["TI-82", "TI-83", "TI-82ST", "TI-76.fr", "TI-83+", "TI-84+", "TI-84+SE", "TI-82A", "TI-84+T", "TI-84+CSE", "TI-84+CE", "TI-82AEP", "latest"] {
        for v in &vs {
            l.push((g, v.clone()));
        }
    }
    let input: String = l.iter().map(|(m, v)| format!("{m}\t{v}\n")).collect();
    if let Some(out) = lib(ctx, "order", &input) {
        for (i, row) in out.lines().enumerate() {
            let row: Vec<char> = row.chars().collect();
            for (j, b) in l.iter().enumerate() {
                let a = &l[i];
                let (c, consistent) = (row[2 * j], row[2 * j + 1]);
                ctx.transition(1);
                if unclear(&a.1, &b.1) && order(a.0) == order(b.0) {
                    continue;
                }
                let want = match os(a.0, &a.1).cmp(&os(b.0, &b.1)) {
                    std::cmp::Ordering::Less => '<',
                    std::cmp::Ordering::Equal => '=',
                    std::cmp::Ordering::Greater => '>',
                };
                if c != want || consistent != '.' {
                    let what = format!("{} {:?} {c} {} {:?}, expected {want}{}", a.0, a.1, b.0, b.1, if consistent == '.' { "" } else { " (<= and >= disagree)" });
                    ctx.violation(what.clone(), lib_replay(&what, "order", &format!("{}\t{}\n{}\t{}\n", a.0, a.1, b.0, b.1)));
                }
            }
        }
        ctx.note("ordered pairs of os versions", (l.len() * l.len()) as u64);
    }
    // --- identification: every product id with every signature
    let ids: Vec<(&str, u8)> = ["**TI83F*", "**TI83**", "**TI82**"].iter().flat_map(|s| (0..=255u8).map(move |i| (*s, i))).collect();
    ctx.state(ids.len() as u64);
    par(ctx, &ids, |(sig, id)| {
        let known = FILE_MODELS.iter().find(|m| m.1 == *id && (m.0 == *sig || *id != 0));
        let mut p = Prog::new("PROG", &[]);
        p.sig = sig.to_string();
        p.product = *id;
        for ext in ["8xp", "83p"] {
            let inp = format!("x.{ext}");
            let f = p.file(ext);
            let a = vec!["details", &inp];
            let b = vec!["convert", &inp, "-o", "y.txt"];
            trial(ctx, &format!("{sig} product id {id:02X} {ext}"), &[(&inp, f)], &[(a.clone(), b""), (b.clone(), b"")], |d| match known {
                None => {
                    refused(ctx, d, &a, b"")?;
                    refused(ctx, d, &b, b"")
                }
                Some(m) if m.0 == *sig => {
                    let o = ctx.run(&a, b"", &d.0);
                    let lang = model(m.2).4;
                    if o.code != 0 || !o.plain().lines().any(|l| l == format!("model: {}", m.2)) || !o.plain().lines().any(|l| l == format!("language: {lang}")) {
                        return Err(format!("details (status {}) does not show model {} and language {lang}: {}", o.code, m.2, o.plain()));
                    }
                    let t = Txt::parse(&must(ctx, d, &b, b"", "y.txt")?)?;
                    if t.model != m.2 {
                        return Err(format!("model {} in the txt file", t.model));
                    }
                    Ok(())
                }
                _ => Ok(()),
            });
        }
    });
    // --- every model name in a txt file, with every token on the boundary of its table
    let mut todo: Vec<(&str, Vec<u8>, [String; 3], bool)> = vec![];
    for m in MODELS {
        let own = tokens_of(&rs, &os(m.0, "latest"));
        let latest = tokens_of(&rs, &os("latest", "latest"));
        let texts: BTreeSet<&String> = own.values().map(|t| &t[ACCESSIBLE]).collect();
        let g = Table { model: "x", tokens: own.clone() };
        let tr = Trie::new(&g, ACCESSIBLE);
        // tokens that exist, alone: encoded as themselves
        for (k, t) in &latest {
            if t[ACCESSIBLE].contains('\n') || !ctx.thorough && m.0 != "latest" && rs.iter().any(|r| r.key == *k && order(&r.since.0) < 40 && order(m.0) >= 50 && r.until.is_none()) {
                continue;
            }
            let exists = own.contains_key(k);
            // a longer token that the text starts with can hide an existing one: C01 covers that
            if !exists && texts.contains(&t[ACCESSIBLE]) || exists != encode_greedy(&tr, &t[ACCESSIBLE], true).is_ok() {
                continue;
            }
            todo.push((m.0, k.clone(), t.clone(), exists));
        }
        ctx.note(&format!("tokens of {}", m.0), own.len() as u64);
    }
    // existing tokens of a model in one program, missing ones alone
    let mut by: BTreeMap<&str, Vec<&(&str, Vec<u8>, [String; 3], bool)>> = BTreeMap::new();
    for t in &todo {
        if t.3 {
            by.entry(t.0).or_default().push(t)
        }
    }
    for (m, ts) in &by {
        let body: String = ts.iter().map(|t| t.2[ACCESSIBLE].as_str()).collect::<Vec<_>>().join("\n");
        let x = Txt::new("T", ACCESSIBLE, m, &body);
        let a = vec!["convert", "x.txt", "-e", "max", "-o", "y.8xp"];
        trial(ctx, &format!("all tokens of {m}"), &[("x.txt", x.text().into_bytes())], &[(a.clone(), b"")], |d| {
            let p = parse(&must(ctx, d, &a, b"", "y.8xp")?, "8xp")?;
            let t = Table { model: "x", tokens: tokens_of(&rs, &os(m, "latest")) };
            match t.decode(&p.body, ACCESSIBLE) {
                Some(s) if s == body => Ok(()),
                s => Err(format!("encoded as {:?}", s.map(|s| crate::tok::difference(&body, &s)))),
            }
        });
    }
    let missing: Vec<_> = todo.iter().filter(|t| !t.3).collect();
    par(ctx, &missing, |(m, k, t, _)| {
        let x = Txt::new("T", ACCESSIBLE, m, &t[ACCESSIBLE]);
        let a = vec!["convert", "x.txt", "-e", "max", "-o", "y.8xp"];
        trial(ctx, &format!("token {} {:?} is not available on {m}", hex(k), t[ACCESSIBLE]), &[("x.txt", x.text().into_bytes())], &[(a.clone(), b"")], |d| refused(ctx, d, &a, b""));
    });
}

// ------------------------------------------------------------------------------------------------- C06
pub fn c06(ctx: &Ctx) {
    // --- in the library: every iteration order of every group of tokens with the same text
    let n = if ctx.thorough { 20_000 } else { 3000 };
    par(ctx, &GENERATIONS, |g| {
        let input = format!("{g}\t{n}\n");
        let out = match lib(ctx, "ties", &input) {
            Some(o) => o,
            None => return,
        };
        for l in out.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "M" => {
                    ctx.note(&format!("tables loaded [{g}]"), f[2].parse::<u64>().unwrap());
                    ctx.trace(f[2].parse().unwrap());
                }
                "G" => {
                    let (k, o): (usize, u64) = (f[3].parse().unwrap(), f[4].parse().unwrap());
                    ctx.state(o);
                    ctx.transition(2 * o);
                    ctx.note_add("groups of tokens with the same text", 1);
                    ctx.note_add("iteration orders of the groups", (1..=k as u64).product());
                    ctx.note_add("iteration orders seen", o);
                    ctx.sample(format!("{g} {}: {k} tokens with the text {:?}, {o} iteration orders", MODES[f[1].parse::<usize>().unwrap()], f[2]));
                }
                "X" => {
                    let what = format!("[{g} {}] the {} match of {:?} depends on the iteration order: {}", MODES[f[1].parse::<usize>().unwrap()], f[3], f[2], f[4]);
                    ctx.violation(what.clone(), lib_replay(&what, "ties", &input));
                }
                _ => {}
            }
        }
    });
    // --- the commands, under different hash seeds, directories, environments and in repeated runs
    let seeds = if ctx.thorough { 64 } else { 14 };
    let mut cases: Vec<Pure> = vec![];
    let s = |a: &[&str]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    for g in GENERATIONS {
        let t = Table::new(g);
        for mode in 0..3 {
            let mut count: BTreeMap<&str, usize> = BTreeMap::new();
            for x in t.tokens.values() {
                *count.entry(&x[mode]).or_default() += 1;
            }
            let tied: Vec<&str> = count.iter().filter(|c| *c.1 > 1 && !c.0.contains('\n')).map(|c| *c.0).collect();
            let tr = Trie::new(&t, mode);
            for e in [Enc::Smart, Enc::Max, Enc::Min] {
                let mut ls: Vec<String> = tied.iter().map(|x| x.to_string()).collect();
                ls.push(tied.concat());
                ls.extend(t.tokens.values().map(|x| x[mode].clone()).filter(|x| !x.contains('\n')));
                ls.extend(t.tokens.values().map(|x| format!("\"{}", x[mode])).filter(|x| mode != TI && !x.contains('\n')));
                ls.retain(|l| encode_ref(&tr, l, e).is_ok() && encode_smart(&tr, l).is_ok());
                cases.push(Pure { files: vec![("x.txt".into(), Txt::new("T", mode, g, &ls.join("\n")).text().into_bytes())], args: s(&["convert", "x.txt", "-e", e.arg(), "-o", ["y.8xp", "y.json", "y.83p"][mode]]) });
            }
            if g == "latest" && mode != TI {
                for x in &tied {
                    for (suffix, seed) in [("", ()), ("A", ())] {
                        let _ = seed;
                        cases.push(Pure { files: vec![], args: s(&["search", &format!("{x}{suffix}"), "-t", MODES[mode]]) });
                    }
                }
            }
        }
    }
    for m in FILE_MODELS {
        let t = table_of(m.0, m.1);
        let mut p = Prog::new("ALL", &t.tokens.keys().flat_map(|k| k.to_vec()).collect::<Vec<u8>>());
        p.sig = m.0.into();
        p.product = m.1;
        let f = vec![("x.8xp".to_string(), p.bytes(false))];
        for mode in MODES {
            cases.push(Pure { files: f.clone(), args: s(&["convert", "x.8xp", "-d", mode, "-o", "y.txt"]) });
        }
        cases.push(Pure { files: f.clone(), args: s(&["convert", "x.8xp", "-o", "y.json", "-p", "-c"]) });
        cases.push(Pure { files: f.clone(), args: s(&["details", "x.8xp"]) });
        cases.push(Pure { files: f.clone(), args: s(&["rename", "x.8xp", "-n", "A", "-f", "z.8xp"]) });
    }
    let q = Prog::new("P", &[0x41]);
    cases.push(Pure { files: vec![("a.8xp".into(), q.bytes(false)), ("b.txt".into(), Txt::new("Q", 1, "latest", "df()").text().into_bytes())], args: s(&["convert", ".", "-m", "-o", "."]) });
    cases.push(Pure { files: vec![], args: s(&["models"]) });
    cases.push(Pure { files: vec![], args: s(&["help"]) });
    ctx.state(cases.len() as u64);
    par(ctx, &cases, |c| {
        let args: Vec<&str> = c.args.iter().map(|x| &x[..]).collect();
        let shim = ctx.shim.to_string_lossy().to_string();
        let mut first: Option<(i32, Vec<u8>, Vec<u8>, Fs)> = None;
        let small = args[0] == "search";
        for i in 0..if small { 6 } else { seeds } {
            let d = ctx.dir();
            for (n, b) in &c.files {
                d.write(n, b)
            }
            let seed = (i * 7919).to_string();
            let mut env: Vec<(&str, &str)> = vec![("LD_PRELOAD", &shim), ("TV_RANDOM", &seed), ("TV_PERM", "0")];
            if i % 3 == 1 {
                env.extend([("LANG", "tr_TR.UTF-8"), ("LC_ALL", "de_DE.UTF-8"), ("TZ", "Asia/Tokyo"), ("HOME", "/nonexistent"), ("TERM", "dumb"), ("NO_COLOR", "1"), ("COLUMNS", "20")]);
            }
            let o = ctx.run_env(&args, b"y\ny\n", &d.0, &env);
            ctx.transition(1);
            ctx.trace(1);
            let now = (o.code, o.stdout.clone(), o.stderr.clone(), snapshot(&d.0));
            match &first {
                None => first = Some(now),
                Some(f) if *f == now => {}
                Some(f) => {
                    let what = format!(
                        "`{}` run {i} differs from run 0: status {} / {}; output {}; files:\n{}",
                        args.join(" "), f.0, now.0, if f.1 == now.1 { "same" } else { "different" }, diff(&f.3, &now.3)
                    );
                    let mut r = Replay::new(&what);
                    for (n, b) in &c.files {
                        r = r.file(n, b)
                    }
                    let cmd = args.iter().map(|x| shq(x)).collect::<Vec<_>>().join(" ");
                    r = r.raw(&format!("for i in 1 2 3 4 5 6 7 8 9 10 11 12; do mkdir r$i; for f in *.*; do [ -f \"$f\" ] && cp \"$f\" r$i; done; (cd r$i; printf 'y\\ny\\n' | \"$B\" {cmd} > out 2>&1; cat * | cksum); done"));
                    return ctx.violation(what, r.end());
                }
            }
        }
    });
    environment(ctx, &cases);
}

/// A command that depends on its arguments and on the named files only
struct Pure {
    files: Vec<(String, Vec<u8>)>,
    args: Vec<String>,
}

/// What a run must not depend on: one list of other values per factor
#[derive(Clone, Default)]
struct World {
    env: Vec<(&'static str, &'static str)>,
    time: Option<i64>,
    mode: Option<u32>,
    umask: Option<u32>,
    stdin: Vec<u8>,
    closed: bool,
    extra: Vec<(&'static str, &'static [u8])>,
    cwd: &'static str,
    arg0: Option<&'static str>,
    to_file: bool,
    again: bool,
}

extern "C" {
    fn umask(mask: u32) -> u32;
}

const FACTORS: usize = 13;
fn factor(f: usize, n: usize, w: &mut World) -> bool {
    let data: [(&str, &[u8]); 5] = [("8X.json", b"{}"), ("token_definitions.json", b"[]"), ("ti-tools.toml", b"mode = \"min\""), (".env", b"MODE=min\n"), ("other.tmp", b"x")];
    match f {
        // every variable that is asked for has this value
        0 => match ["1", "0", "", "/nonexistent", "tr_TR.UTF-8", "debug", "min"].get(n) {
            Some(v) => w.env.push(("TV_GETENV", v)),
            // variables that are really set, for whoever lists them
            None if (7..10).contains(&n) => {
                let names = ["HOME", "USER", "LOGNAME", "LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE", "TZ", "TERM", "COLUMNS", "LINES", "PWD", "OLDPWD", "TMPDIR", "SHELL", "EDITOR", "CI", "DEBUG", "VERBOSE", "NO_COLOR", "COLOR", "COLORTERM", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "RUST_LOG", "RUST_BACKTRACE", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "XDG_DATA_HOME", "HOSTNAME", "PAGER", "SOURCE_DATE_EPOCH", "TI_TOOLS", "TI_TOOLS_MODE", "TI_TOOLS_MODEL", "TI_MODEL"];
                w.env.extend(names.map(|k| (k, ["1", "/nonexistent", "tr_TR.UTF-8"][n - 7])))
            }
            None => return false,
        },
        1 => match ["0", "951782400", "2147483648", "4102444799", "253402300800"].get(n) {
            Some(v) => w.env.push(("TV_TIME", v)),
            None if n == 5 => w.env.push(("TV_TICK", "100000")),
            None => return false,
        },
        // time stamps of the input
        2 => match [0i64, 946684799, 4102444800].get(n) {
            Some(t) => w.time = Some(*t),
            None => return false,
        },
        3 => match [0o400, 0o777, 0o1644].get(n) {
            Some(m) => w.mode = Some(*m),
            None => return false,
        },
        4 => match [0, 0o077, 0o177].get(n) {
            Some(m) => w.umask = Some(*m),
            None => return false,
        },
        5 => match [&b""[..], b"n\n", b"n\nn\nn\n", b"y", b"\xFF\0"].get(n) {
            Some(b) => w.stdin = b.to_vec(),
            None if n == 5 => w.closed = true,
            None => return false,
        },
        6 => match n {
            0 => w.extra = data.to_vec(),
            1 => w.extra = vec![("src/calculator/tokens/standard_tokens/8X.json", b"{}"), ("src/calculator/tokens/token_definitions.json", b"[]")],
            _ => return false,
        },
        7 => match ["deep/er/and/deeper", "\u{e9} dir [x]", "d.8xp"].get(n) {
            Some(d) => w.cwd = d,
            None => return false,
        },
        8 => match ["x", "/usr/bin/TI-TOOLS", ""].get(n) {
            Some(a) => w.arg0 = Some(a),
            None => return false,
        },
        9 if n == 0 => w.to_file = true,
        10 if n == 0 => w.again = true,
        11 => match ["1", "2", "4194303"].get(n) {
            Some(v) => w.env.push(("TV_PID", v)),
            None => return false,
        },
        12 if n == 0 => w.env.push(("TV_TTY", "1")),
        _ => return false,
    }
    true
}

/// The same command in every world that differs from the usual one in one or two factors
fn environment(ctx: &Ctx, cases: &[Pure]) {
    use std::os::unix::fs::PermissionsExt;
    use std::os::unix::process::CommandExt;
    let single: Vec<Vec<(usize, usize)>> = (0..FACTORS).map(|f| (0..).take_while(|n| factor(f, *n, &mut World::default())).map(|n| (f, n)).collect()).collect();
    let singles: Vec<Vec<(usize, usize)>> = single.iter().flatten().map(|x| vec![*x]).collect();
    let mut pairs: Vec<Vec<(usize, usize)>> = vec![];
    for (i, a) in single.iter().enumerate() {
        for b in &single[i + 1..] {
            pairs.extend(a.iter().flat_map(|x| b.iter().map(move |y| vec![*x, *y])));
        }
    }
    ctx.note("worlds that differ in one factor", singles.len() as u64);
    ctx.note("worlds that differ in two factors", pairs.len() as u64);
    // one case of each kind gets the pairs as well in the quick tier
    let mut kinds = BTreeSet::new();
    let mut todo: Vec<(&Pure, Vec<(usize, usize)>)> = vec![];
    for c in cases {
        let kind = c.args.iter().filter(|a| !a.starts_with(char::is_alphanumeric) || a.contains('.') || a.len() > 5).cloned().collect::<Vec<_>>();
        let first = kinds.insert(if c.args[0] == "search" { vec![c.args[0].clone(), c.args[3].clone()] } else { kind });
        if c.args[0] != "search" || first || ctx.thorough {
            todo.extend(singles.iter().map(|w| (c, w.clone())));
        }
        if first || ctx.thorough && c.args[0] != "search" {
            todo.extend(pairs.iter().map(|w| (c, w.clone())));
        }
    }
    // json files in the directory are inputs of a mass conversion
    todo.retain(|(c, w)| !(w.contains(&(6, 0)) && c.args.contains(&"-m".to_string())));
    ctx.state(todo.len() as u64);
    let shim = ctx.shim.to_string_lossy().to_string();
    type Seen = (i32, Vec<u8>, Vec<u8>, Fs);
    let run = |c: &Pure, w: &World| -> Seen {
        let d = ctx.dir();
        let cwd = if w.cwd.is_empty() { d.0.clone() } else { d.p(w.cwd) };
        std::fs::create_dir_all(&cwd).unwrap();
        let out = ctx.dir();
        for (n, b) in &c.files {
            std::fs::write(cwd.join(n), b).unwrap();
            if let Some(t) = w.time {
                let f = std::fs::OpenOptions::new().write(true).open(cwd.join(n)).unwrap();
                let t = std::time::UNIX_EPOCH + Duration::from_secs(t as u64);
                f.set_times(std::fs::FileTimes::new().set_modified(t).set_accessed(t)).unwrap();
            }
            if let Some(m) = w.mode {
                std::fs::set_permissions(cwd.join(n), std::fs::Permissions::from_mode(m)).unwrap();
            }
        }
        for (n, b) in &w.extra {
            let p = cwd.join(n);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, b).unwrap();
        }
        let before = snapshot(&cwd);
        let mut seen = None;
        for _ in 0..1 + w.again as usize {
            if seen.is_some() {
                // what was written is removed, and the command runs again
                for p in snapshot(&cwd).keys().filter(|p| !before.contains_key(*p)) {
                    let _ = std::fs::remove_file(cwd.join(p));
                }
            }
            let mut cmd = Command::new(&ctx.bin);
            cmd.args(&c.args).current_dir(&cwd).env_clear().env("LD_PRELOAD", &shim).env("TV_RANDOM", "0").env("TV_PERM", "0");
            for (k, v) in &w.env {
                cmd.env(k, v);
            }
            if let Some(a) = w.arg0 {
                cmd.arg0(a);
            }
            let (mask, closed, to) = (w.umask, w.closed, w.to_file.then(|| std::fs::File::create(out.p("stdout")).unwrap()));
            unsafe {
                cmd.pre_exec(move || {
                    extern "C" {
                        fn close(fd: i32) -> i32;
                        fn dup2(a: i32, b: i32) -> i32;
                    }
                    use std::os::fd::AsRawFd;
                    if let Some(m) = mask {
                        umask(m);
                    }
                    if closed {
                        close(0);
                    }
                    if let Some(f) = &to {
                        dup2(f.as_raw_fd(), 1);
                    }
                    Ok(())
                });
            }
            let o = run_command(cmd, &w.stdin, Duration::from_secs(40));
            ctx.transition(1);
            let stdout = if w.to_file { out.read("stdout").unwrap() } else { o.stdout };
            let mut now = snapshot(&cwd);
            now.retain(|p, n| !(before.get(p) == Some(n) && !c.files.iter().any(|f| f.0 == *p)));
            seen = Some((o.code, stdout, o.stderr, now));
        }
        ctx.trace(1);
        seen.unwrap()
    };
    let usual: BTreeMap<Vec<String>, Mutex<Option<Seen>>> = todo.iter().map(|x| (key(x.0), Mutex::new(None))).collect();
    fn key(c: &Pure) -> Vec<String> {
        c.args.iter().cloned().chain(c.files.iter().map(|f| format!("{:x}", sum(&[&f.1])) + &f.1.len().to_string() + &hex(&f.1[..f.1.len().min(64)]))).collect()
    }
    par(ctx, &todo, |(c, fs)| {
        let mut w = World { stdin: b"y\ny\n".to_vec(), ..Default::default() };
        for (f, n) in fs {
            factor(*f, *n, &mut w);
        }
        let first = {
            let mut u = usual[&key(c)].lock().unwrap();
            u.get_or_insert_with(|| run(c, &World { stdin: b"y\ny\n".to_vec(), ..Default::default() })).clone()
        };
        let now = run(c, &w);
        if now != first {
            let factors = ["variables", "time of day", "time stamps of the input", "permissions of the input", "umask", "standard input", "other files in the directory", "name of the directory", "name of the program", "output to a file", "second run", "process id", "terminal"];
            let what = format!(
                "`{}` depends on the {}: status {} / {}; output {}; files:\n{}",
                c.args.join(" "),
                fs.iter().map(|(f, n)| format!("{} ({n})", factors[*f])).collect::<Vec<_>>().join(" and "),
                first.0, now.0, if first.1 == now.1 && first.2 == now.2 { "same" } else { "different" }, diff(&first.3, &now.3)
            );
            let mut r = Replay::new(&what);
            for (n, b) in &c.files {
                r = r.file(n, b)
            }
            let cmd = c.args.iter().map(|x| shq(x)).collect::<Vec<_>>().join(" ");
            let env = w.env.iter().map(|(k, v)| format!("{k}={}", shq(v))).collect::<Vec<_>>().join(" ");
            r = r.raw(&format!("mkdir a b; for f in *.*; do [ -f \"$f\" ] && cp \"$f\" a && cp \"$f\" b; done; (cd a; \"$B\" {cmd} < /dev/null > out 2>&1; cat * | cksum); (cd b; LD_PRELOAD=\"${{SHIM:-/verif/.build/shim.so}}\" {env} \"$B\" {cmd} < /dev/null > out 2>&1; cat * | cksum)"));
            ctx.violation(what, r.end());
        }
    });
}

// ------------------------------------------------------------------------------------------------- C19
pub fn c19(ctx: &Ctx) {
    let t = Table::new("latest");
    let defs = definitions();
    let def_key = |k: &[u8]| format!("0x{}", k.iter().map(|b| format!("{b:02X}")).collect::<String>());
    struct Case {
        kind: &'static str,
        text: String,
        keys: Vec<Vec<u8>>, // any of these tokens
    }
    let mut cases: Vec<Case> = vec![];
    for mode in [ACCESSIBLE, PRETTY] {
        let tr = Trie::new(&t, mode);
        let same = |s: &str| -> Vec<Vec<u8>> { t.tokens.iter().filter(|x| x.1[mode] == s).map(|x| x.0.clone()).collect() };
        let flag = |s: &str| s == "-h" || s == "--help" || s == "--" || s == "-t" || s == "--type";
        let mut texts: BTreeSet<String> = t.tokens.values().map(|x| x[mode].clone()).collect();
        // every text with every first character after it that could continue another token, and pairs that join
        let firsts: BTreeSet<char> = t.tokens.values().filter_map(|x| x[mode].chars().next()).collect();
        let base: Vec<String> = texts.iter().cloned().collect();
        for s in &base {
            for c in &firsts {
                let j = format!("{s}{c}");
                let l = tr.longest(j.as_bytes()).map(|x| x.1);
                if l != Some(s.len()) || tr.continues(s.as_bytes(), c.to_string().as_bytes()[0]) {
                    texts.insert(j);
                }
            }
            texts.insert(format!("{s} "));
            texts.insert(format!("{s}A"));
            if ctx.thorough {
                for u in &base {
                    let j = format!("{s}{u}");
                    if tr.longest(j.as_bytes()).map(|x| x.1) != Some(s.len()) {
                        texts.insert(j);
                    }
                }
            }
            // every beginning of a text
            let mut p = String::new();
            for c in s.chars() {
                p.push(c);
                texts.insert(p.clone());
            }
        }
        for s in ["", "\u{1F600}", "\u{1}", "\t", "ß", "\u{FEFF}A"] {
            texts.insert(s.into());
        }
        for s in texts {
            if flag(&s) || s.contains('\0') {
                continue;
            }
            let keys = match tr.longest(s.as_bytes()) {
                Some((_, n)) => same(&s[..n]),
                None => vec![],
            };
            cases.push(Case { kind: MODES[mode], text: s, keys });
        }
    }
    for a in 0..=255u8 {
        cases.push(Case { kind: "byte", text: format!("0x{a:02X}"), keys: vec![vec![a]] });
        let lead = t.tokens.keys().any(|k| k.len() == 2 && k[0] == a);
        for b in 0..=255u8 {
            if lead || b < 2 || ctx.thorough {
                cases.push(Case { kind: "byte", text: format!("0x{a:02X}{b:02X}"), keys: vec![vec![a, b]] });
            }
        }
    }
    for s in ["", "0x", "0xZZ", "41", "$41", "x41", "0x4", "0x414141", "A", "0x41 "] {
        cases.push(Case { kind: "byte", text: s.into(), keys: vec![] });
    }
    ctx.state(cases.len() as u64);
    par(ctx, &cases, |c| {
        let render = |k: &Vec<u8>| -> Option<Vec<String>> { defs.get(&def_key(k)).map(|d| d.iter().map(|(s, x)| format!("syntax: {s}\n{x}\n")).collect()) };
        let a = vec!["search", &c.text, "-t", c.kind];
        trial(ctx, &format!("search {} {:?}", c.kind, c.text), &[], &[(a.clone(), b"")], |d| {
            let o = ctx.run(&a, b"", &d.0);
            ctx.transition(1);
            if o.crashed() {
                return Err(format!("crash or hang (status {}): {}", o.code, o.se().trim()));
            }
            let out = o.plain();
            let known: Vec<Vec<String>> = c.keys.iter().filter_map(render).collect();
            let none = c.keys.iter().any(|k| render(k).is_none()) || c.keys.is_empty();
            // exactly the definitions of one of the tokens with this text
            let shown = out.matches("syntax: ").count();
            for k in &known {
                let n: usize = k.iter().map(|x| x.matches("syntax: ").count()).sum();
                if o.code == 0 && k.iter().all(|x| out.contains(x.as_str())) && shown == n {
                    ctx.note_add("definitions printed", 1);
                    return Ok(());
                }
            }
            if none && o.code != 0 && shown == 0 && !(o.stdout.is_empty() && o.stderr.is_empty()) {
                ctx.note_add("no definition", 1);
                return Ok(());
            }
            Err(format!("status {}, output {:?}, expected {}", o.code, out.trim(), match known.first() { Some(k) => format!("the definition {k:?}"), None => "an error".into() }))
        });
    });
}
