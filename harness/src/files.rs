//! File conversions and edits over the program file model: C03, C07, C08, C09, C10, C12, C13, C21.
use crate::fmt::*;
use crate::spec::*;
use crate::util::*;
use std::collections::BTreeMap;

/// All assignments that differ from all-zero in at most k factors
pub fn variations(dims: &[usize], k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(dims: &[usize], i: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if i == dims.len() {
            out.push(cur.clone());
            return;
        }
        for v in 0..dims[i] {
            if v > 0 && k == 0 {
                break;
            }
            cur.push(v);
            go(dims, i + 1, if v > 0 { k - 1 } else { k }, cur, out);
            cur.pop();
        }
    }
    go(dims, 0, k, &mut vec![], &mut out);
    out
}

pub fn names() -> Vec<Vec<u8>> {
    let s: Vec<&[u8]> = vec![b"PROG", b"", b"A", b"ABCDEFGH", b"[1", b"a[b]c", b"\xC1\x42", b"X\nY", b"Z[color", b"A B", b"abcXyz", b" A ", b"z", b"\x7F\t."];
    s.into_iter().map(|x| x.to_vec()).collect()
}
pub fn comments() -> Vec<Vec<u8>> {
    let s: Vec<&[u8]> = vec![
        b"test",
        b"",
        b"123456789012345678901234567890123456789012",
        b"a\"b\\c/d",
        b"]x[y][",
        b"\xE9\xFF\x80",
        b"one\ntwo",
        b"tab\there\r",
        b" lead and trail ",
    ];
    s.into_iter().map(|x| x.to_vec()).collect()
}
/// Bodies that are valid for a table
pub fn bodies(t: &Table) -> Vec<Vec<u8>> {
    let all: Vec<u8> = t.tokens.keys().flat_map(|k| k.to_vec()).collect();
    let mut v: Vec<Vec<u8>> = vec![
        vec![0xDE, 0x2A, 0x41, 0x42, 0x2A, 0x3F, 0x31, 0x04, 0x41],
        vec![],
        vec![0x3F],
        vec![0x3F, 0x41, 0x3F, 0x3F],
        all,
        vec![0x2A, 0x5D, 0x00, 0x3F, 0x5D, 0x05],
        (0..4000).map(|i| if i % 7 == 0 { 0x3F } else { 0x41 + (i % 26) as u8 }).collect(),
    ];
    v.retain(|b| t.split(b).is_some());
    v
}

pub fn table_of(sig: &str, product: u8) -> &'static Table {
    static T: std::sync::OnceLock<BTreeMap<&'static str, Table>> = std::sync::OnceLock::new();
    let m = T.get_or_init(|| FILE_MODELS.iter().map(|m| (m.2, Table::new(m.2))).collect());
    &m[FILE_MODELS.iter().find(|m| m.0 == sig && m.1 == product).unwrap().2]
}

pub struct Point {
    pub prog: Prog,
    pub mode: usize,
}

/// k factors around a base program, or the full product of the short factor lists
pub fn points(k: usize) -> Vec<Point> {
    let (ns, cs) = (names(), comments());
    let vers = [0u8, 0x1B, 0xFF];
    let dims = [ns.len(), cs.len(), TYPES.len(), DESTS.len(), vers.len(), FILE_MODELS.len(), 3, 7];
    let mut v = vec![];
    for a in variations(&dims, k) {
        let m = FILE_MODELS[a[5]];
        let bs = bodies(table_of(m.0, m.1));
        if a[7] >= bs.len() {
            continue;
        }
        v.push(Point {
            prog: Prog {
                sig: m.0.into(),
                product: m.1,
                comment: cs[a[1]].clone(),
                ftype: TYPES[a[2]],
                name: ns[a[0]].clone(),
                version: vers[a[4]],
                dest: DESTS[a[3]],
                body: bs[a[7]].clone(),
            },
            mode: a[6],
        });
    }
    // every byte in every kind of position of the name and of the comment
    if k > 1 {
        for b in 1..=255u8 {
            for at in [&[b][..], &[b, b'A'], &[b'A', b], &[b'A', b, b'B'], &[b, b, b, b, b, b, b, b]] {
                for field in 0..2 {
                    let mut p = Prog::new("PROG", &[0x41, 0x3F, 0x42]);
                    if field == 0 { p.name = at.to_vec() } else { p.comment = at.to_vec() }
                    v.push(Point { prog: p, mode: ACCESSIBLE });
                }
            }
        }
    }
    v
}

fn latin(b: &[u8]) -> String {
    b.iter().map(|x| *x as char).collect()
}
fn one_line(s: &str) -> String {
    s.replace(['\n', '\r'], " ")
}

/// The txt file of a program
pub fn txt_of(p: &Prog, mode: usize) -> String {
    let t = table_of(&p.sig, p.product);
    Txt {
        name: one_line(&latin(&p.name)),
        comment: one_line(&latin(&p.comment)),
        ftype: type_name(p.ftype).into(),
        dest: dest_name(p.dest).into(),
        mode: MODES[mode].into(),
        model: t.model.into(),
        body: t.decode(&p.body, mode).expect("machinery: body"),
    }
    .text()
}

/// Runs a command that must succeed and gives the file it must have written
pub fn must(ctx: &Ctx, d: &Scratch, args: &[&str], stdin: &[u8], out: &str) -> Result<Vec<u8>, String> {
    let o = ctx.run(args, stdin, &d.0);
    ctx.transition(1);
    if o.crashed() {
        return Err(format!("`{}`: crash or hang (status {}): {}", args.join(" "), o.code, o.se().trim()));
    }
    match d.read(out) {
        None => Err(format!("`{}`: no {out} (status {}): {}", args.join(" "), o.code, o.se().trim())),
        Some(_) if o.code != 0 => Err(format!("`{}`: status {}: {}", args.join(" "), o.code, o.se().trim())),
        Some(b) => Ok(b),
    }
}

/// Runs a command that must be refused: failure status, nothing changed
pub fn refused(ctx: &Ctx, d: &Scratch, args: &[&str], stdin: &[u8]) -> Result<(), String> {
    let before = snapshot(&d.0);
    let o = ctx.run(args, stdin, &d.0);
    ctx.transition(1);
    let a = args.join(" ");
    if o.crashed() {
        return Err(format!("`{a}`: crash or hang (status {}): {}", o.code, o.se().trim()));
    }
    let after = snapshot(&d.0);
    if after != before {
        return Err(format!("`{a}`: refused or failed with status {} but files changed:\n{}", o.code, diff(&before, &after)));
    }
    if o.code == 0 {
        return Err(format!("`{a}`: status 0: {}", o.plain().trim()));
    }
    if o.stdout.is_empty() && o.stderr.is_empty() {
        return Err(format!("`{a}`: no message"));
    }
    if o.so().contains("Successfully") {
        return Err(format!("`{a}`: claims success: {}", o.plain().trim()));
    }
    Ok(())
}

fn same(what: &str, want: &[u8], got: &[u8]) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    let cut = |v: &[u8]| brief(&v[i.saturating_sub(4).min(v.len())..(i + 40).min(v.len())]);
    Err(format!("{what}: {} instead of {} (at byte {i}; {} instead of {} bytes)", cut(got), cut(want), got.len(), want.len()))
}

/// Runs a judge in a scratch directory; on failure writes the commands that were run as replay
pub fn trial(ctx: &Ctx, label: &str, files: &[(&str, Vec<u8>)], cmds: &[(Vec<&str>, &[u8])], judge: impl FnOnce(&Scratch) -> Result<(), String>) {
    let d = ctx.dir();
    for (n, b) in files {
        d.write(n, b)
    }
    ctx.trace(1);
    ctx.sample(format!("{label}: {}", cmds.iter().map(|c| c.0.join(" ")).collect::<Vec<_>>().join("; ")));
    if let Err(w) = judge(&d) {
        let what = format!("{label}: {w}");
        let mut r = Replay::new(&what);
        for (n, b) in files {
            r = r.file(n, b)
        }
        for (a, i) in cmds {
            r = r.cmd(a, i)
        }
        ctx.violation(what, r.end())
    }
}

fn label(p: &Prog, mode: usize) -> String {
    format!(
        "name {} comment {} type {:02X} dest {:02X} version {:02X} {} {} body {}",
        brief(&p.name), brief(&p.comment), p.ftype, p.dest, p.version, p.model(), MODES[mode],
        if p.body.len() > 20 { format!("{} bytes", p.body.len()) } else { hex(&p.body) }
    )
}

// ------------------------------------------------------------------------------------------------- C03
pub fn c03(ctx: &Ctx) {
    // settings: the full product; bodies: all sequences of symbols up to a depth
    let mut todo: Vec<(Prog, usize, Enc)> = vec![];
    for name in ["PROG", "", "A", "ABCDEFGH", "lower", "xY"] {
        for ft in TYPES {
            for dest in DESTS {
                for m in FILE_MODELS {
                    for mode in 0..3 {
                        let t = table_of(m.0, m.1);
                        for body in [vec![0x41, 0x3F, 0x31], t.tokens.keys().filter(|k| k[..] != [0x3F]).flat_map(|k| [k.to_vec(), vec![0x3F]]).flatten().collect()] {
                            if body.len() > 3 && (name != "A" && name != "xY" || ft != 5 && dest == 0) && !ctx.thorough {
                                continue;
                            }
                            let mut p = Prog::new(name, &body);
                            p.sig = m.0.into();
                            p.product = m.1;
                            p.ftype = ft;
                            p.dest = dest;
                            todo.push((p, mode, Enc::Smart));
                        }
                    }
                }
            }
        }
    }
    // line break, A, quote, store, two-byte list L1, space
    let sym: [&[u8]; 6] = [&[0x3F], &[0x41], &[0x2A], &[0x5D, 0x00], &[0x04], &[0x29]];
    let depth = if ctx.thorough { 5 } else { 4 };
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    let mut all = level.clone();
    for _ in 0..depth {
        level = level.iter().flat_map(|b| sym.iter().map(move |s| [b, *s].concat())).collect();
        all.extend(level.clone());
    }
    // only line breaks and one other token, deeper
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for i in 0..8 {
        level = level.iter().flat_map(|b| [vec![0x3F], vec![0x41]].into_iter().map(move |s| [b.clone(), s].concat())).collect();
        if i >= depth {
            all.extend(level.clone());
        }
    }
    ctx.state(all.len() as u64);
    for b in all {
        for mode in 0..3 {
            for enc in [Enc::Smart, Enc::Max, Enc::Min] {
                if ctx.thorough || enc == Enc::Smart || b.len() < 4 {
                    todo.push((Prog::new("P", &b), mode, enc));
                }
            }
        }
    }
    let tries: BTreeMap<(&str, usize), Trie> = FILE_MODELS.iter().flat_map(|m| (0..3).map(move |k| ((m.2, k), Trie::new(table_of(m.0, m.1), k)))).collect();
    // every pair of tokens that is the encoding of its own text, one line per pair, one file per first token
    for m in FILE_MODELS {
        for mode in 0..3 {
            let t = table_of(m.0, m.1);
            if !ctx.thorough && (mode == TI || t.model != Prog::new("P", b"").model()) {
                continue;
            }
            let tr = &tries[&(m.2, mode)];
            let keys: Vec<&Vec<u8>> = t.tokens.keys().filter(|k| k[..] != [0x3F]).collect();
            let files = par_map(ctx, &keys, |a| {
                let mut body = vec![];
                for b in &keys {
                    let line = [&a[..], &b[..]].concat();
                    let text = t.decode(&line, mode).unwrap();
                    let own = |e: Result<Vec<Seg>, String>| e.is_ok_and(|x| bytes_of(&x) == line);
                    if !text.contains('\n') && own(encode_smart(tr, &text)) && own(encode_smart_recorded(tr, &text)) {
                        body.extend(line);
                        body.push(0x3F);
                    }
                }
                body
            });
            for body in files.into_iter().flatten() {
                ctx.state(body.iter().filter(|b| **b == 0x3F).count() as u64);
                let mut p = Prog::new("P", &body);
                p.sig = m.0.into();
                p.product = m.1;
                todo.push((p, mode, Enc::Smart));
            }
        }
    }
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |(p, mode, enc)| {
        let t = table_of(&p.sig, p.product);
        let tr = &tries[&(t.model, *mode)];
        let text = t.decode(&p.body, *mode).unwrap();
        // is this body the encoding of its text, whichever of several tokens with one text is chosen
        let doc: Option<Vec<Seg>> = match enc {
            Enc::Smart => {
                let a = encode_smart(tr, &text).ok();
                let b = encode_smart_recorded(tr, &text).ok();
                if a.as_ref().map(|x| texts_of(x)) == b.as_ref().map(|x| texts_of(x)) { a } else { None }
            }
            e => encode_ref(tr, &text, *e).ok(),
        };
        let encodable = match enc {
            Enc::Smart => encode_smart_recorded(tr, &text).is_ok(),
            e => encode_ref(tr, &text, *e).is_ok(),
        };
        if !encodable && doc.is_none() {
            return; // C01: rejected
        }
        let canonical = doc.as_ref().is_some_and(|x| bytes_of(x) == p.body) && *mode != TI
            || doc.as_ref().is_some_and(|x| bytes_of(x) == p.body);
        let files = [("x.8xp", p.bytes(false))];
        let c1 = vec!["convert", "x.8xp", "-d", MODES[*mode], "-o", "y.txt"];
        let c2 = vec!["convert", "y.txt", "-e", enc.arg(), "-o", "z.8xp"];
        let c3 = vec!["convert", "z.8xp", "-d", MODES[*mode], "-o", "w.txt"];
        trial(ctx, &label(p, *mode), &files, &[(c1.clone(), b""), (c2.clone(), b""), (c3.clone(), b"")], |d| {
            let y = must(ctx, d, &c1, b"", "y.txt")?;
            let z = must(ctx, d, &c2, b"", "z.8xp")?;
            let q = parse(&z, "8xp").map_err(|e| format!("z.8xp: {e}"))?;
            if q.name != p.name || q.ftype != p.ftype || q.dest != p.dest || q.sig != p.sig || q.product != p.product {
                return Err(format!("settings changed: {} instead of {}", label(&q, *mode), label(p, *mode)));
            }
            if canonical {
                same("body of z.8xp", &p.body, &q.body)?
            }
            let w = must(ctx, d, &c3, b"", "w.txt")?;
            let skip = |b: &[u8]| -> Vec<u8> {
                // all lines but the comment
                let mut it = b.splitn(3, |x| *x == b'\n');
                let (a, _, r) = (it.next().unwrap_or(b"").to_vec(), it.next(), it.next().unwrap_or(b"").to_vec());
                [a, r].concat()
            };
            same("second txt", &skip(&y), &skip(&w))
        })
    });
    // all models by name in a txt file: identification and one more round
    let all: Vec<_> = MODELS.iter().flat_map(|m| (0..3).map(move |k| (m, k))).collect();
    par(ctx, &all, |(m, mode)| {
        let body = ["A→B", "A->B", "41"][*mode];
        let x = Txt::new("N", *mode, m.0, body);
        let c1 = vec!["convert", "x.txt", "-o", "y.8xp"];
        let c2 = vec!["convert", "y.8xp", "-d", MODES[*mode], "-o", "z.txt"];
        trial(ctx, &format!("txt of model {} {}", m.0, MODES[*mode]), &[("x.txt", x.text().into_bytes())], &[(c1.clone(), b""), (c2.clone(), b"")], |d| {
            let y = must(ctx, d, &c1, b"", "y.8xp")?;
            let p = parse(&y, "8xp")?;
            if p.sig != m.2 || p.product != m.3 {
                return Err(format!("identified as {} {:02X}", p.sig, p.product));
            }
            let z = Txt::parse(&must(ctx, d, &c2, b"", "z.txt")?)?;
            let f = FILE_MODELS.iter().find(|f| f.0 == m.2 && f.1 == m.3).unwrap().2;
            if z.model != f || z.body != body || z.name != "N" || z.mode != MODES[*mode] {
                return Err(format!("comes back as {z:?}"));
            }
            Ok(())
        })
    });
}

// ------------------------------------------------------------------------------------------------- C09
pub fn c09(ctx: &Ctx) {
    let pts = points(if ctx.thorough { 4 } else { 3 });
    ctx.state(pts.len() as u64);
    par(ctx, &pts, |x| {
        let (p, mode) = (&x.prog, x.mode);
        let m = MODES[mode];
        // json -> json, txt, 8xp, 83p, from an 8xp, and from an 83p for half of the points
        for ext in ["8xp", "83p"] {
            if ext == "83p" && (p.version != 0 || p.dest != 0) {
                continue;
            }
            let src = format!("x.{ext}");
            let cmds: Vec<Vec<&str>> = vec![
                vec!["convert", &src, "-d", m, "-o", "j.json"],
                vec!["convert", "j.json", "-o", "a.8xp"],
                vec!["convert", "j.json", "-d", m, "-o", "a.txt"],
                vec!["convert", "j.json", "-o", "a.83p"],
                vec!["convert", "j.json", "-o", "k.json"],
            ];
            let c: Vec<(Vec<&str>, &[u8])> = cmds.iter().map(|c| (c.clone(), &b""[..])).collect();
            trial(ctx, &label(p, mode), &[(&src, p.file(ext))], &c, |d| {
                let j = must(ctx, d, &cmds[0], b"", "j.json")?;
                same("8xp from json", &p.bytes(false), &must(ctx, d, &cmds[1], b"", "a.8xp")?)?;
                same("txt from json", txt_of(p, mode).as_bytes(), &must(ctx, d, &cmds[2], b"", "a.txt")?)?;
                same("83p from json", &p.bytes(true), &must(ctx, d, &cmds[3], b"", "a.83p")?)?;
                same("json from json", &j, &must(ctx, d, &cmds[4], b"", "k.json")?)
            });
        }
    });
    // from txt, all models, modes and encode modes
    let mut todo = vec![];
    for m in MODELS {
        for mode in 0..3 {
            for e in [Enc::Smart, Enc::Max, Enc::Min] {
                for (i, b) in [["A→B\n\"A\"", "A->B\n\"A\"", "41\n42"][mode], "", "\n", ["⁻1", "~1", "3F"][mode]].iter().enumerate() {
                    if e == Enc::Smart || i == 0 {
                        todo.push((m, mode, e, b.to_string()))
                    }
                }
            }
        }
    }
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |(m, mode, e, b)| {
        let x = Txt::new("NAME", *mode, m.0, b).text().into_bytes();
        let cmds: Vec<Vec<&str>> = vec![
            vec!["convert", "x.txt", "-e", e.arg(), "-o", "j.json"],
            vec!["convert", "x.txt", "-e", e.arg(), "-o", "b.8xp"],
            vec!["convert", "x.txt", "-e", e.arg(), "-o", "b.txt"],
            vec!["convert", "j.json", "-o", "a.8xp"],
            vec!["convert", "j.json", "-o", "a.txt"],
        ];
        let c: Vec<(Vec<&str>, &[u8])> = cmds.iter().map(|c| (c.clone(), &b""[..])).collect();
        trial(ctx, &format!("txt {} {} {} {b:?}", m.0, MODES[*mode], e.arg()), &[("x.txt", x)], &c, |d| {
            must(ctx, d, &cmds[0], b"", "j.json")?;
            let b8 = must(ctx, d, &cmds[1], b"", "b.8xp")?;
            let bt = must(ctx, d, &cmds[2], b"", "b.txt")?;
            same("8xp from json", &b8, &must(ctx, d, &cmds[3], b"", "a.8xp")?)?;
            same("txt from json", &bt, &must(ctx, d, &cmds[4], b"", "a.txt")?)
        })
    });
}

// ------------------------------------------------------------------------------------------------- C10
pub fn c10(ctx: &Ctx) {
    let pts = points(if ctx.thorough { 4 } else { 3 });
    ctx.state(pts.len() as u64);
    par(ctx, &pts, |x| {
        let (p, mode) = (&x.prog, x.mode);
        let m = MODES[mode];
        let mut q = p.clone(); // 82p and 83p files have no version and destination
        q.version = 0;
        q.dest = 0;
        for (ext, other) in [("83p", "82p"), ("82p", "83p")] {
            let (s, o, r) = (format!("x.{ext}"), format!("o.{other}"), format!("r.{ext}"));
            let cmds: Vec<Vec<&str>> = vec![
                vec!["convert", &s, "-o", "a.8xp"],
                vec!["convert", &s, "-d", m, "-o", "a.txt"],
                vec!["convert", &s, "-o", &o],
                vec!["convert", "a.8xp", "-o", &r],
                vec!["convert", "y.8xp", "-o", "b.83p"],
                vec!["convert", "b.83p", "-o", "c.8xp"],
            ];
            let c: Vec<(Vec<&str>, &[u8])> = cmds.iter().map(|c| (c.clone(), &b""[..])).collect();
            trial(ctx, &format!("{ext} {}", label(p, mode)), &[(&s, p.file(ext)), ("y.8xp", p.bytes(false))], &c, |d| {
                if p.version == 0 && p.dest == 0 {
                    same(&format!("8xp from {ext}"), &q.bytes(false), &must(ctx, d, &cmds[0], b"", "a.8xp")?)?;
                    same(&format!("txt from {ext}"), txt_of(&q, mode).as_bytes(), &must(ctx, d, &cmds[1], b"", "a.txt")?)?;
                    same(&format!("{other} from {ext}"), &q.bytes(true), &must(ctx, d, &cmds[2], b"", &o)?)?;
                    same(&format!("{ext} -> 8xp -> {ext}"), &q.bytes(true), &must(ctx, d, &cmds[3], b"", &r)?)?;
                }
                if ext == "83p" {
                    same("83p from 8xp", &p.bytes(true), &must(ctx, d, &cmds[4], b"", "b.83p")?)?;
                    same("8xp -> 83p -> 8xp", &q.bytes(false), &must(ctx, d, &cmds[5], b"", "c.8xp")?)?;
                }
                Ok(())
            })
        }
    });
    // from txt with every model and mode
    let all: Vec<_> = MODELS.iter().flat_map(|m| (0..3).map(move |k| (m, k))).collect();
    par(ctx, &all, |(m, mode)| {
        let x = Txt::new("NAME", *mode, m.0, ["A→B\n\"A\"", "A->B\n\"A\"", "41\n42"][*mode]).text().into_bytes();
        let cmds: Vec<Vec<&str>> = vec![vec!["convert", "x.txt", "-o", "a.8xp"], vec!["convert", "x.txt", "-o", "a.83p"], vec!["convert", "x.txt", "-o", "a.82p"]];
        let c: Vec<(Vec<&str>, &[u8])> = cmds.iter().map(|c| (c.clone(), &b""[..])).collect();
        trial(ctx, &format!("txt of {} {}", m.0, MODES[*mode]), &[("x.txt", x)], &c, |d| {
            let p = parse(&must(ctx, d, &cmds[0], b"", "a.8xp")?, "8xp")?;
            same("83p from txt", &p.bytes(true), &must(ctx, d, &cmds[1], b"", "a.83p")?)?;
            same("82p from txt", &p.bytes(true), &must(ctx, d, &cmds[2], b"", "a.82p")?)
        })
    });
}

// ------------------------------------------------------------------------------------------------- edits
#[derive(Clone, Debug)]
pub enum Edit {
    Name(&'static str),
    Comment(String),
    Lock,
    Unlock,
    Archive,
    Unarchive,
}
impl Edit {
    pub fn args<'a>(&'a self, file: &'a str) -> Vec<&'a str> {
        match self {
            Edit::Name(n) => vec!["rename", file, "-n", n],
            Edit::Comment(c) => vec!["comment", file, "-c", c],
            Edit::Lock => vec!["lock", file],
            Edit::Unlock => vec!["unlock", file],
            Edit::Archive => vec!["archive", file],
            Edit::Unarchive => vec!["unarchive", file],
        }
    }
    /// The edited file: the named field is replaced, the checksum recomputed, nothing else changes
    pub fn apply(&self, b: &[u8], ext: &str) -> Vec<u8> {
        let mut v = b.to_vec();
        match self {
            Edit::Name(n) => {
                v[60..68].copy_from_slice(&pad(n.to_uppercase().as_bytes(), 8));
            }
            Edit::Comment(c) => {
                v[11..53].copy_from_slice(&pad(c.as_bytes(), 42));
            }
            Edit::Lock => v[59] = 6,
            Edit::Unlock => v[59] = 5,
            Edit::Archive if ext == "8xp" => v[69] = 0x80,
            Edit::Unarchive if ext == "8xp" => v[69] = 0,
            _ => {}
        }
        let n = v.len();
        let s = sum(&[&v[55..n - 2]]);
        v[n - 2..].copy_from_slice(&s.to_le_bytes());
        v
    }
}

pub fn edits() -> Vec<Edit> {
    let c42: String = "1234567890".repeat(5)[..42].to_string();
    vec![
        Edit::Name("abc"),
        Edit::Name("ABCDEFGH"),
        Edit::Name("Z"),
        Edit::Comment("".into()),
        Edit::Comment("x [y]".into()),
        Edit::Comment(c42),
        Edit::Lock,
        Edit::Unlock,
        Edit::Archive,
        Edit::Unarchive,
    ]
}

fn seeds(thorough: bool) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for (i, m) in FILE_MODELS.iter().enumerate() {
        let t = table_of(m.0, m.1);
        let bs = bodies(t);
        for (j, ft) in TYPES.iter().enumerate() {
            let mut p = Prog::new("ORIGINAL", &bs[(i + j) % bs.len()]);
            p.sig = m.0.into();
            p.product = m.1;
            p.ftype = *ft;
            p.dest = DESTS[(i + j / 2) % 2];
            p.version = [0, 0x1B, 0x80, 0xFF][(i + j) % 4];
            p.comment = comments()[(i * 2 + j) % comments().len()].clone();
            if i > 0 && j > 0 && !thorough {
                continue;
            }
            v.push(("8xp".into(), p.bytes(false)));
            let mut q = p.clone();
            q.dest = 0;
            q.version = 0;
            v.push((["83p", "82p"][j % 2].into(), q.bytes(true)));
        }
    }
    v
}

/// C07: the reachable set of real files under all commands that write binaries, every one of them validated
pub fn c07(ctx: &Ctx) {
    type S = (String, Vec<u8>);
    let es = edits();
    let init: Vec<S> = seeds(ctx.thorough);
    for s in &init {
        assert!(faults(&s.1, &s.0).is_empty(), "machinery: {:?}", faults(&s.1, &s.0));
    }
    let mut ops: Vec<(Vec<String>, String)> = vec![]; // command lines after which the named file is the new state
    for ext in ["8xp", "83p", "82p"] {
        ops.push((vec![format!("convert IN -o out.{ext}")], format!("out.{ext}")));
    }
    for m in MODES {
        ops.push((vec![format!("convert IN -d {m} -o out.json"), "convert out.json -o out.8xp".into()], "out.8xp".into()));
        ops.push((vec![format!("convert IN -d {m} -o out.json"), "convert out.json -o out.82p".into()], "out.82p".into()));
    }
    let depth = if ctx.thorough { 100 } else { 3 };
    let judge = |args: &Vec<&str>, d: &Scratch, stdin: &[u8], out: &str| -> Result<Vec<u8>, String> {
        let b = must(ctx, d, args, stdin, out)?;
        let ext = out.rsplit('.').next().unwrap();
        let f = faults(&b, ext);
        if !f.is_empty() {
            return Err(format!("`{}` writes a malformed file: {}", args.join(" "), f.join("; ")));
        }
        Ok(b)
    };
    let check = |s: &S, cmds: Vec<Vec<String>>, out: &str, stdin: &[u8], edit: Option<&Edit>| -> Option<S> {
        let want = edit.map_or(s.1.clone(), |e| e.apply(&s.1, &s.0));
        let inp = format!("in.{}", s.0);
        let cmds: Vec<Vec<&str>> = cmds.iter().map(|c| c.iter().map(|x| if x == "IN" { &inp[..] } else { &x[..] }).collect()).collect();
        let out = if out == "IN" { inp.clone() } else { out.to_string() };
        let mut res = None;
        let c: Vec<(Vec<&str>, &[u8])> = cmds.iter().map(|c| (c.clone(), stdin)).collect();
        trial(ctx, &format!("{} bytes {}", s.1.len(), s.0), &[(&inp, s.1.clone())], &c, |d| {
            for (i, a) in cmds.iter().enumerate() {
                if i + 1 < cmds.len() {
                    must(ctx, d, a, stdin, "out.json")?;
                } else {
                    let b = judge(a, d, stdin, &out)?;
                    // the fields have the text they should have, so their padding is seen
                    same("comment field", &want[11..53], &b[11..53])?;
                    same("name field", &want[60..68], &b[60..68])?;
                    res = Some((out.rsplit('.').next().unwrap().to_string(), b));
                }
            }
            Ok(())
        });
        res
    };
    let r = bfs(ctx, init, depth, usize::MAX, |s| {
        let mut succ = vec![];
        for (cmds, out) in &ops {
            let c: Vec<Vec<String>> = cmds.iter().map(|c| c.split(' ').map(|x| x.to_string()).collect()).collect();
            succ.extend(check(s, c, out, b"", None));
        }
        for (i, e) in es.iter().enumerate() {
            let a: Vec<String> = e.args("IN").iter().map(|x| x.to_string()).collect();
            if i % 2 == 0 {
                succ.extend(check(s, vec![a], "IN", b"y\n", Some(e)));
            } else {
                let ext = ["8xp", "83p", "82p"][i % 3];
                let o = format!("new.{ext}");
                let a: Vec<String> = a.into_iter().chain(["-f".to_string(), o.clone()]).collect();
                succ.extend(check(s, vec![a], &o, b"", Some(e)));
            }
        }
        succ
    });
    ctx.note("reachable files", r.0 as u64);
    ctx.note("depth", r.1 as u64);
    ctx.note("closed", r.2);
    // programs from txt: bodies of many lengths and checksums (carries), all models
    let mut todo = vec![];
    for m in MODELS {
        for (k, body) in ["", "A", "\n", "A→Z\nDisp \"HI\""].iter().enumerate() {
            todo.push((m.0, body.to_string(), TYPES[k % 4], DESTS[k % 2], "ABC"));
        }
    }
    for n in (0..1200).step_by(if ctx.thorough { 1 } else { 7 }) {
        todo.push(("latest", "A".repeat(n), 5, 0, "ABCDEFGH"))
    }
    for n in 0..=8 {
        todo.push(("latest", "A".into(), 5, 0, &"ZYXWVUTS"[..n]))
    }
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |(m, body, ft, dest, name)| {
        let mut x = Txt::new(name, PRETTY, m, body);
        x.ftype = type_name(*ft).into();
        x.dest = dest_name(*dest).into();
        for ext in ["8xp", "83p", "82p"] {
            let out = format!("y.{ext}");
            let a = vec!["convert", "x.txt", "-o", &out];
            trial(ctx, &format!("txt {m} body of {} characters", body.len()), &[("x.txt", x.text().into_bytes())], &[(a.clone(), b"")], |d| {
                let b = judge(&a, d, b"", &out)?;
                if !tool_comment(&b[11..53]) {
                    return Err(format!("comment field {}", brief(&b[11..53])));
                }
                same("name field", &pad(name.as_bytes(), 8), &b[60..68])
            });
        }
    });
}

/// C08: the reachable states of the field model under all edit sequences; every edge is compared with the real edit
pub fn c08(ctx: &Ctx) {
    type S = (String, Vec<u8>);
    let es = edits();
    let mut init = seeds(ctx.thorough);
    // unusual bytes in fields an edit does not name
    let mut p = Prog::new("AB", &[0x41]);
    p.comment = b"text\0more\0\xFF".to_vec();
    p.name = b"A\0B\0\x01".to_vec();
    p.version = 0xFE;
    let mut odd = p.bytes(false);
    odd[8] = 0x55;
    odd[56] = 0x77;
    let s = sum(&[&odd[55..odd.len() - 2]]);
    let n = odd.len();
    odd[n - 2..].copy_from_slice(&s.to_le_bytes());
    init.push(("8xp".into(), odd));
    let mut big = Prog::new("BIG", &vec![0x41; 65516]);
    big.product = 0x13;
    let big = big.bytes(false);
    let depth = if ctx.thorough { 100 } else { 3 };
    let edge = |s: &S, e: &Edit, way: usize| -> Option<S> {
        let want = e.apply(&s.1, &s.0);
        let inp = format!("in.{}", s.0);
        let new = format!("sub/new.{}", s.0);
        let mut a = e.args(&inp);
        let (out, stdin): (&str, &[u8]) = match way {
            0 => (&inp, b"y\n"),
            1 => (&inp, b"Y\n"),
            2 => {
                a.extend(["-f", &new]);
                (&new, b"")
            }
            3 => {
                a.extend(["--new-file", "other.8xp"]);
                ("other.8xp", b"y\n")
            }
            _ => {
                a.extend(["-d", "-f", &new]);
                (&new, b"")
            }
        };
        let other = Prog::new("OTHER", &[0x42]).bytes(false);
        let mut ok = false;
        if way == 3 && s.0 != "8xp" {
            return None;
        }
        trial(ctx, &format!("{e:?} on {} bytes {}", s.1.len(), s.0), &[(&inp, s.1.clone()), ("other.8xp", other.clone())], &[(a.clone(), stdin)], |d| {
            std::fs::create_dir(d.p("sub")).unwrap();
            let got = must(ctx, d, &a, stdin, out)?;
            same("the edited file", &want, &got)?;
            let mut expect = Fs::new();
            expect.insert("sub".into(), Node::Dir);
            if way < 4 {
                expect.insert(inp.clone(), Node::File(s.1.clone()));
            }
            expect.insert("other.8xp".into(), Node::File(other.clone()));
            expect.insert(out.to_string(), Node::File(want.clone()));
            let now = snapshot(&d.0);
            if now != expect {
                return Err(format!("files after the edit are not as expected:\n{}", diff(&expect, &now)));
            }
            ok = true;
            Ok(())
        });
        ok.then(|| (s.0.clone(), want))
    };
    let r = bfs(ctx, init, depth, usize::MAX, |s| {
        es.iter()
            .enumerate()
            .filter(|(_, e)| s.0 == "8xp" || !matches!(e, Edit::Archive | Edit::Unarchive))
            .filter_map(|(i, e)| edge(s, e, (i + s.1[59] as usize + s.1[60] as usize) % 5))
            .collect()
    });
    ctx.note("states of the field model", r.0 as u64);
    ctx.note("depth", r.1 as u64);
    ctx.note("closed", r.2);
    // every edit in every way of saving, from a few states
    let few: Vec<(S, usize, usize)> = seeds(false)
        .into_iter()
        .chain([("8xp".to_string(), big)])
        .flat_map(|s| (0..es.len()).flat_map(move |e| { let s = s.clone(); (0..5).map(move |w| (s.clone(), e, w)) }))
        .filter(|(s, e, _)| s.0 == "8xp" || !matches!(es[*e], Edit::Archive | Edit::Unarchive))
        .collect();
    par(ctx, &few, |(s, e, w)| {
        edge(s, &es[*e], *w);
    });
    // saved in another format the edit is the same
    let cross: Vec<(S, usize)> = seeds(ctx.thorough).into_iter().flat_map(|s| (0..es.len()).map(move |e| (s.clone(), e))).collect();
    ctx.state(cross.len() as u64);
    par(ctx, &cross, |(s, e)| {
        let e = &es[*e];
        let inp = format!("in.{}", s.0);
        // a program of an 82p or 83p file becomes an 8xp program before it is edited
        let want = parse(&e.apply(&parse(&s.1, &s.0).unwrap().bytes(false), "8xp"), "8xp").unwrap();
        for ext in ["8xp", "83p", "82p", "txt", "json"] {
            let out = format!("out.{ext}");
            let mut a = e.args(&inp);
            a.extend(["-f", &out]);
            let mut cmds = vec![(a.clone(), &b""[..])];
            if ext == "json" {
                cmds.push((vec!["convert", "out.json", "-o", "j.txt"], b""));
                cmds.push((vec!["convert", "out.json", "-o", "j.8xp"], b""));
            }
            trial(ctx, &format!("{e:?} on {} bytes {} saved as {ext}", s.1.len(), s.0), &[(&inp, s.1.clone())], &cmds, |d| {
                let got = must(ctx, d, &a, b"", &out)?;
                match ext {
                    "txt" => same("the edited file", txt_of(&want, ACCESSIBLE).as_bytes(), &got),
                    "json" => {
                        same("txt from the edited json", txt_of(&want, ACCESSIBLE).as_bytes(), &must(ctx, d, &cmds[1].0, b"", "j.txt")?)?;
                        same("8xp from the edited json", &want.bytes(false), &must(ctx, d, &cmds[2].0, b"", "j.8xp")?)
                    }
                    _ => same("the edited file", &want.file(ext), &got),
                }
            });
        }
    });
    // all names of length 0 to 2 over a small alphabet, all lengths up to 10; all comment lengths up to 44
    let mut ns: Vec<String> = vec![];
    for a in ["A", "z", "1", "θ", " ", "é", "_", "[", "\n", "."] {
        ns.push(a.into());
        for b in ["A", "z", "1", "θ", " ", "É", "ß", "/", "\0"] {
            if !b.contains('\0') {
                ns.push(format!("{a}{b}"))
            }
        }
    }
    for n in 1..=12 {
        ns.push("ABCDEFGHIJKLMNOP"[..n].into());
        ns.push("mNoPqRsTuVwXyZaB"[..n].into());
        ns.push(format!("{}1", &"ABCDEFGHIJKLMNOP"[..n]));
    }
    ns.push("ééééé".into());
    ns.push("Ω".into());
    ns.push("ABCDEFGé".into());
    ctx.state(ns.len() as u64);
    let base = Prog::new("OLDNAME", &[0x41, 0x3F]).bytes(false);
    par(ctx, &ns, |n| {
        let ok = n.len() <= 8 && n.chars().all(|c| c.is_ascii_alphabetic());
        let leak: &'static str = Box::leak(n.clone().into_boxed_str());
        let e = Edit::Name(leak);
        for ext in ["8xp", "83p"] {
            let inp = format!("in.{ext}");
            let src = if ext == "8xp" { base.clone() } else { Prog::new("OLDNAME", &[0x41, 0x3F]).bytes(true) };
            for f in [false, true] {
                let mut a = e.args(&inp);
                let new = format!("new.{ext}");
                if f {
                    a.extend(["-f", &new, "-d"]);
                }
                trial(ctx, &format!("rename to {n:?}"), &[(&inp, src.clone())], &[(a.clone(), b"y\n")], |d| {
                    if ok {
                        let got = must(ctx, d, &a, b"y\n", if f { &new } else { &inp })?;
                        same("the renamed file", &e.apply(&src, ext), &got)
                    } else {
                        refused(ctx, d, &a, b"y\n")
                    }
                });
            }
        }
    });
    let cs: Vec<String> = (0..=50).map(|n| "comment [x] 123 ".repeat(4)[..n].to_string()).chain(["é".repeat(22), "A".repeat(300), "[color:red".into(), "]".into(), "\"'\\".into()])
        .chain((1..128u8).flat_map(|c| { let c = c as char; [format!("{c}ab"), format!("a{c}b"), format!("ab{c}"), format!("{c}"), format!("{}{c}", "x".repeat(41))] }))
        .collect();
    ctx.state(cs.len() as u64);
    par(ctx, &cs, |c| {
        let ok = c.len() <= 42;
        let e = Edit::Comment(c.clone());
        for f in [false, true] {
            let mut a = e.args("in.8xp");
            if f {
                a.extend(["-f", "new.8xp", "-d"]);
            }
            trial(ctx, &format!("comment {c:?}"), &[("in.8xp", base.clone())], &[(a.clone(), b"y\n")], |d| {
                if ok {
                    let got = must(ctx, d, &a, b"y\n", if f { "new.8xp" } else { "in.8xp" })?;
                    same("the commented file", &e.apply(&base, "8xp"), &got)
                } else {
                    refused(ctx, d, &a, b"y\n")
                }
            });
        }
    });
    wide_comments(ctx, &base);
}

/// Comments outside ASCII: which bytes they become is open, that they are refused or stay inside their field is not
fn wide_comments(ctx: &Ctx, base: &[u8]) {
    let cs: Vec<String> = ["é", "€", "😀", "aé"].iter().flat_map(|c| (1..=44).map(move |n| c.repeat(n))).chain((1..=42).map(|n| format!("{}é", "x".repeat(n)))).collect();
    ctx.state(cs.len() as u64);
    par(ctx, &cs, |c| {
        let a = ["comment", "in.8xp", "-c", c, "-f", "new.8xp"];
        trial(ctx, &format!("comment {c:?}"), &[("in.8xp", base.to_vec())], &[(a.to_vec(), b"")], |d| {
            let o = ctx.run(&a, b"", &d.0);
            ctx.transition(1);
            if o.crashed() {
                return Err(format!("crash or hang (status {}): {}", o.code, o.se().trim()));
            }
            match d.read("new.8xp") {
                None if o.code == 0 => Err("status 0, but no file".into()),
                None => Ok(()),
                Some(_) if o.code != 0 => Err(format!("status {}, but a file was written", o.code)),
                Some(b) if c.chars().count() > 42 => Err(format!("a comment of {} characters was accepted: {} bytes", c.chars().count(), b.len())),
                Some(b) => {
                    if b.len() != base.len() || b[..11] != base[..11] || b[53..] != base[53..] {
                        return Err(format!("bytes outside the comment changed: {} bytes instead of {}", b.len(), base.len()));
                    }
                    Ok(())
                }
            }
        });
    });
}

// ------------------------------------------------------------------------------------------------- C12
#[derive(PartialEq, Debug)]
enum Verdict {
    Reject(&'static str),
    Accept(Box<Prog>),
    Either,
}

fn verdict(b: &[u8], ext: &str) -> Verdict {
    let ml = if ext == "8xp" { 19 } else { 17 };
    if b.len() < 55 + ml + 2 {
        return Verdict::Reject("too short");
    }
    let sig = String::from_utf8_lossy(&b[..8]).to_string();
    let known_sig = ["**TI83F*", "**TI83**", "**TI82**"].contains(&&sig[..]);
    if !FILE_MODELS.iter().any(|m| m.1 == b[10]) {
        return Verdict::Reject("product id");
    }
    if !TYPES.contains(&b[59]) {
        return Verdict::Reject("file type");
    }
    if ext == "8xp" && !DESTS.contains(&b[69]) {
        return Verdict::Reject("destination");
    }
    let body = &b[55 + ml..b.len() - 2];
    if body.len() + 19 > 65535 {
        return Verdict::Reject("too long");
    }
    // the model is known for known signatures; product ids other than 0 only exist with one signature
    let m = FILE_MODELS.iter().find(|m| m.1 == b[10] && (m.0 == sig || b[10] != 0));
    match m {
        Some(m) if table_of(m.0, m.1).split(body).is_none() => Verdict::Reject("body"),
        Some(m) if known_sig && m.0 == sig => match parse(b, ext) {
            Ok(p) => Verdict::Accept(Box::new(p)),
            Err(_) => Verdict::Either,
        },
        _ => Verdict::Either,
    }
}

pub fn c12(ctx: &Ctx) {
    let mut cases: Vec<(&str, Vec<u8>)> = vec![];
    for (ext, m) in [("8xp", FILE_MODELS[0]), ("83p", FILE_MODELS[8]), ("82p", FILE_MODELS[7]), ("8xp", FILE_MODELS[2])] {
        let mut p = Prog::new("PROG", &[0x41, 0x5D, 0x00, 0x3F, 0x41]);
        p.sig = m.0.into();
        p.product = m.1;
        let f = p.file(ext);
        let ml = if ext == "8xp" { 19 } else { 17 };
        let thin = m.1 == 0x0A && !ctx.thorough;
        // all truncations and extensions
        for n in 0..f.len() {
            cases.push((ext, f[..n].to_vec()));
        }
        for n in [1, 2, 3, 17, 19, 74, 76] {
            for x in [0u8, 0x41, 0xFF, 0xBB] {
                let mut g = f.clone();
                g.extend(vec![x; n]);
                cases.push((ext, g));
                cases.push((ext, vec![x; n]));
            }
        }
        // all single byte changes
        for i in 0..f.len() {
            let all = ctx.thorough || [0, 7, 8, 10, 11, 53, 54, 57, 58, 59, 60, 55 + ml].contains(&i) || (68..74).contains(&i) || i >= 55 + ml && !thin;
            for v in 0..=255u8 {
                if v != f[i] && (all && !(thin && v % 8 > 2 && i != 10 && i != 59 && i != 69) || [0, 1, 0x1A, 0x41, 0x7F, 0x80, 0xFE, 0xFF].contains(&v)) {
                    let mut g = f.clone();
                    g[i] = v;
                    cases.push((ext, g));
                }
            }
        }
        // pairs of structural bytes
        let pos: Vec<usize> = [0usize, 5, 7, 10, 53, 54, 57, 59, 60, 69, 70, 71, 72, 73].into_iter().filter(|i| *i < f.len()).collect();
        for (n, i) in pos.iter().enumerate() {
            for j in &pos[n + 1..] {
                for v in [0u8, 5, 0x0A, 0x80, 0xFF] {
                    for w in [0u8, 0x06, 0x13, 0x80, 0xFF] {
                        let mut g = f.clone();
                        g[*i] = v;
                        g[*j] = w;
                        cases.push((ext, g));
                    }
                }
            }
        }
    }
    for n in [65516usize, 65517, 65518, 65535, 65536, 70000, 200_000] {
        for x in [0u8, 0x41, 0xFF] {
            cases.push(("8xp", vec![x; n]));
        }
    }
    ctx.state(cases.len() as u64);
    let keep = Prog::new("KEEP", &[0x41]).bytes(false);
    let idx: Vec<usize> = (0..cases.len()).collect();
    par(ctx, &idx, |&i| {
        let (ext, f) = &cases[i];
        let v = verdict(f, ext);
        let inp = format!("x.{ext}");
        let all: [(Vec<&str>, &[u8], &str); 8] = [
            (vec!["convert", &inp, "-o", "new.txt"], b"", "new.txt"),
            (vec!["convert", &inp, "-o", "new.json"], b"", "new.json"),
            (vec!["details", &inp], b"", ""),
            (vec!["rename", &inp, "-n", "NEW"], b"y\n", &inp),
            (vec!["convert", &inp, "-o", "keep.8xp"], b"y\n", "keep.8xp"),
            (vec!["lock", &inp, "-f", "new.8xp", "-d"], b"y\n", "new.8xp"),
            (vec!["comment", &inp, "-c", "hello", "-f", "keep.8xp", "-d"], b"y\n", "keep.8xp"),
            (vec!["convert", &inp, "-p", "-c"], b"", ""),
        ];
        ctx.note_add(match &v { Verdict::Reject(w) => w, Verdict::Accept(_) => "well-formed", Verdict::Either => "not decided by the property" }, 1);
        for (k, (a, stdin, out)) in all.iter().enumerate() {
            // every command on rejected files (two of them in the quick tier), the first on all files
            if k > 0 && !ctx.thorough && k != 1 + i % 7 {
                continue;
            }
            trial(ctx, &format!("{} bytes {ext}, {v:?}", f.len()), &[(&inp, f.clone()), ("keep.8xp", keep.clone())], &[(a.clone(), stdin)], |d| {
                match &v {
                    Verdict::Reject(_) => refused(ctx, d, a, stdin),
                    Verdict::Accept(p) if k == 0 => {
                        let t = must(ctx, d, a, stdin, out)?;
                        same("txt", txt_of(p, ACCESSIBLE).as_bytes(), &t)
                    }
                    _ => {
                        let before = snapshot(&d.0);
                        let o = ctx.run(a, stdin, &d.0);
                        ctx.transition(1);
                        if o.crashed() {
                            return Err(format!("`{}`: crash or hang (status {}): {}", a.join(" "), o.code, o.se().trim()));
                        }
                        let after = snapshot(&d.0);
                        if o.code != 0 && after != before {
                            return Err(format!("`{}`: status {} but files changed:\n{}", a.join(" "), o.code, diff(&before, &after)));
                        }
                        Ok(())
                    }
                }
            });
        }
    });
    // other kinds of inputs
    let d = ctx.dir();
    std::fs::create_dir(d.p("dir.8xp")).unwrap();
    d.write("empty.8xp", b"");
    d.write("noext", &keep);
    d.write("x.TXT", b"A\n");
    d.write("y.exe", &keep);
    d.write(".8xp", &keep);
    std::os::unix::fs::symlink("loop.8xp", d.p("loop.8xp")).unwrap();
    std::os::unix::fs::symlink("gone.8xp", d.p("dangling.8xp")).unwrap();
    d.write("secret.8xp", &keep);
    let mut perm = std::fs::metadata(d.p("secret.8xp")).unwrap().permissions();
    use std::os::unix::fs::PermissionsExt;
    perm.set_mode(0);
    std::fs::set_permissions(d.p("secret.8xp"), perm).unwrap();
    let readable = std::fs::read(d.p("secret.8xp")).is_ok(); // running as root
    for f in ["dir.8xp", "empty.8xp", "noext", "x.TXT", "y.exe", ".8xp", "loop.8xp", "dangling.8xp", "missing.8xp", "secret.8xp", "", ".", "..", "/", "é.8xp", "dir.8xp/x.8xp"] {
        for a in [vec!["convert", f, "-o", "new.txt"], vec!["details", f], vec!["lock", f], vec!["rename", f, "-n", "A", "-f", "n.8xp", "-d"], vec!["convert", f, "-p"]] {
            if readable && f == "secret.8xp" {
                continue;
            }
            ctx.trace(1);
            if let Err(w) = refused(ctx, &d, &a, b"y\n") {
                let what = format!("input {f:?}: {w}");
                ctx.violation(what.clone(), Replay::new(&what).raw("mkdir dir.8xp; : > empty.8xp; : > noext; : > x.TXT; : > y.exe; : > .8xp; ln -s loop.8xp loop.8xp; ln -s gone.8xp dangling.8xp").cmd(&a, b"y\n").end());
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------- C13
/// The lines of a txt file: a line break, also one with a carriage return, ends a line
fn lines(s: &str) -> Vec<&str> {
    s.lines().collect()
}

fn txt_verdict(b: &[u8]) -> Result<(), &'static str> {
    let s = std::str::from_utf8(b).map_err(|_| "not UTF-8")?;
    let l = lines(s);
    let get = |i: usize| l.get(i).copied();
    let name = get(0).ok_or("no name")?;
    if get(2).is_none() {
        return Err("no file type");
    }
    if !["Program", "Locked Program", "Group", "Flash Application"].contains(&get(2).unwrap()) {
        return Err("file type");
    }
    if !["RAM", "Archive"].contains(&get(3).ok_or("no destination")?) {
        return Err("destination");
    }
    let mode = get(4).ok_or("no display mode")?;
    let mode = MODES.iter().position(|m| *m == mode).ok_or("display mode")?;
    let model = get(5).ok_or("no model")?;
    if name.len() > 8 {
        return Err("name length");
    }
    if !name.chars().all(|c| c.is_ascii_alphabetic()) {
        return Err("name characters");
    }
    let body = l[6.min(l.len())..].join("\n");
    let model = MODELS.iter().find(|m| m.0 == model).map_or("latest", |m| m.0);
    // one table per generation
    let g = GENERATIONS.iter().find(|g| order(g) == order(model)).unwrap();
    static T: std::sync::OnceLock<BTreeMap<(&'static str, usize), Trie>> = std::sync::OnceLock::new();
    let tr = T.get_or_init(|| GENERATIONS.iter().flat_map(|g| { let t = Table::new(g); (0..3).map(move |m| ((*g, m), Trie::new(&t, m))) }).collect());
    let tr = &tr[&(*g, mode)];
    let (a, b) = (encode_smart(tr, &body).is_ok(), encode_smart_recorded(tr, &body).is_ok());
    match (a, b) {
        (true, true) => Ok(()),
        (false, false) => Err("body"),
        _ => Err("?"),
    }
}

fn json_verdict(b: &[u8]) -> Result<(), &'static str> {
    use serde_json::Value as V;
    let s = std::str::from_utf8(b).map_err(|_| "not UTF-8")?;
    let v: V = serde_json::from_str(s).map_err(|_| "not json")?;
    let o = v.as_object().ok_or("no object")?;
    let obj = |o: &serde_json::Map<String, V>, k: &str| -> Result<serde_json::Map<String, V>, &'static str> { o.get(k).and_then(|x| x.as_object()).cloned().ok_or("no object") };
    let bytes = |o: &serde_json::Map<String, V>, k: &str| -> Result<usize, &'static str> {
        let a = o.get(k).and_then(|x| x.as_array()).ok_or("no bytes")?;
        if a.iter().all(|x| x.as_u64().is_some_and(|x| x < 256)) { Ok(a.len()) } else { Err("bytes") }
    };
    let num = |o: &serde_json::Map<String, V>, k: &str, max: u64| -> Result<(), &'static str> { o.get(k).and_then(|x| x.as_u64()).filter(|x| *x <= max).map(|_| ()).ok_or("number") };
    let text = |o: &serde_json::Map<String, V>, k: &str| -> Result<String, &'static str> { o.get(k).and_then(|x| x.as_str()).map(|x| x.to_string()).ok_or("string") };
    let h = obj(o, "header")?;
    if bytes(&h, "bytes")? != 55 {
        return Err("header length");
    }
    text(&h, "signature")?;
    bytes(&h, "signature_extra")?;
    num(&h, "product_id", 255)?;
    text(&h, "comment")?;
    num(&h, "metadata_and_body_length", 65535)?;
    let m = obj(o, "metadata")?;
    if bytes(&m, "bytes")? != 19 {
        return Err("metadata length");
    }
    num(&m, "flag", 255)?;
    num(&m, "unknown_byte", 255)?;
    num(&m, "body_and_checksum_length", 65535)?;
    if !["Program", "LockedProgram", "Group", "FlashApplication"].contains(&&text(&m, "file_type")?[..]) {
        return Err("file type");
    }
    text(&m, "name")?;
    num(&m, "version", 255)?;
    if !["RAM", "Archive"].contains(&&text(&m, "destination")?[..]) {
        return Err("destination");
    }
    num(&m, "body_and_checksum_length_copy", 65535)?;
    num(&m, "body_length", 65535)?;
    let b = obj(o, "body")?;
    if bytes(&b, "bytes")? + 19 > 65535 {
        return Err("body length");
    }
    text(&b, "translation")?;
    let c = obj(o, "checksum")?;
    if bytes(&c, "bytes")? != 2 {
        return Err("checksum length");
    }
    num(&c, "value", 65535)?;
    if !["Pretty", "Accessible", "TiAscii"].contains(&&text(o, "display_mode")?[..]) {
        return Err("display mode");
    }
    let m = obj(o, "model")?;
    text(&m, "model")?;
    text(&m, "signature")?;
    num(&m, "product_id", 255)?;
    text(&m, "language")?;
    Ok(())
}

fn run_either(ctx: &Ctx, d: &Scratch, a: &[&str], stdin: &[u8]) -> Result<(), String> {
    let before = snapshot(&d.0);
    let o = ctx.run(a, stdin, &d.0);
    ctx.transition(1);
    if o.crashed() {
        return Err(format!("`{}`: crash or hang (status {}): {}", a.join(" "), o.code, o.se().trim()));
    }
    let after = snapshot(&d.0);
    if o.code != 0 && after != before {
        return Err(format!("`{}`: status {} but files changed:\n{}", a.join(" "), o.code, diff(&before, &after)));
    }
    Ok(())
}

pub fn c13(ctx: &Ctx) {
    let keep = Prog::new("KEEP", &[0x41]).bytes(false);
    let mut cases: Vec<(&str, Vec<u8>)> = vec![];
    // ---- txt
    let long = ["ABCDEFGH".repeat(32), "ABCDEFGH".repeat(33)];
    let header: [Vec<&str>; 6] = [
        vec!["PROG", "", "A", "ABCDEFGH", "ABCDEFGHI", "prog", "PROG1", "PR OG", "θ", "PRÖG", "PROG ", " PROG", "\tA", "PRO\u{0}G", "AAAAéé", "\u{FEFF}AB", "ABCDEFGH ", "ABCDEFG1", "ABCDEFGH1", "ABCDEFG ", "ABCDEFGHIJKLMNOP", &long[0], &long[1], "abcdefgh"],
        vec!["comment", "", "a very long comment that is longer than forty-two characters, much longer", "é[x]"],
        vec!["Program", "Locked Program", "Group", "Flash Application", "program", "PROGRAM", "Locked", "LockedProgram", "", "Program ", " Program", "5", "Programs", "Locked  Program"],
        vec!["RAM", "Archive", "ram", "archive", "", "ROM", "RAM ", "ARCHIVE", "Archived"],
        vec!["accessible", "pretty", "ti", "Pretty", "", "max", "accessible ", "TiAscii", "ti-ascii", "display"],
        vec!["latest", "TI-84+", "TI-82", "TI-99", "", "ti-84+"],
    ];
    let body = ["A\nDisp \"HI\"", "A\nDisp \"HI\"", "41\n42"];
    for a in variations(&header.iter().map(|h| h.len()).collect::<Vec<_>>(), 2) {
        let h: Vec<&str> = a.iter().enumerate().map(|(i, j)| header[i][*j]).collect();
        for eol in ["\n", "\r\n"] {
            if eol != "\n" && a.iter().filter(|x| **x > 0).count() > 1 && !ctx.thorough {
                continue;
            }
            let b = body[MODES.iter().position(|m| *m == h[4]).unwrap_or(0)];
            cases.push(("txt", format!("{}{eol}{b}", h.join(eol)).into_bytes()));
        }
    }
    let valid = format!("PROG\nc\nProgram\nRAM\naccessible\nlatest\nA\nDisp \"HI\"\n");
    let vb = valid.as_bytes();
    for n in 0..=vb.len() {
        cases.push(("txt", vb[..n].to_vec()));
    }
    for i in 0..vb.len() {
        let mut g = vb.to_vec();
        g.remove(i);
        cases.push(("txt", g));
        for x in [b'\n', b'\r', 0, b'A', b'1', b' ', 0x80, 0xC3, 0xFF, b'[', 0x7F] {
            let mut g = vb.to_vec();
            g[i] = x;
            cases.push(("txt", g));
            let mut g = vb.to_vec();
            g.insert(i, x);
            cases.push(("txt", g));
        }
    }
    // header lines in every order of two swapped lines, lines removed and doubled
    let l: Vec<&str> = valid.lines().collect();
    for i in 0..l.len() {
        for j in 0..l.len() {
            let mut m = l.clone();
            m.swap(i, j);
            cases.push(("txt", m.join("\n").into_bytes()));
            let mut m = l.clone();
            m.remove(i);
            if j < m.len() {
                m.remove(j);
            }
            cases.push(("txt", m.join("\n").into_bytes()));
            let mut m = l.clone();
            m.insert(i, l[j]);
            cases.push(("txt", m.join("\n").into_bytes()));
        }
    }
    // bodies of one character: every character of the first planes that is special, all of the first 0x3000
    for c in 0..if ctx.thorough { 0x3000u32 } else { 0x400 } {
        if let Some(c) = char::from_u32(c) {
            for m in ["accessible", "pretty"] {
                cases.push(("txt", format!("P\n\nProgram\nRAM\n{m}\nlatest\nA{c}").into_bytes()));
            }
        }
    }
    for s in ["", "\n", "\n\n\n\n\n\n", "\r\n\r\n\r\n\r\n\r\n\r\n\r\n", "\u{FEFF}P\nc\nProgram\nRAM\npretty\nlatest\nA", "{}", "P\rc\rProgram\rRAM\rpretty\rlatest\rA"] {
        cases.push(("txt", s.as_bytes().to_vec()));
    }
    // ---- json, from a program the tool wrote itself
    let d = ctx.dir();
    d.write("s.8xp", Prog::new("PROG", &[0x41, 0x5D, 0x00]).bytes(false));
    let j = match must(ctx, &d, &["convert", "s.8xp", "-o", "s.json"], b"", "s.json") {
        Ok(j) => j,
        Err(w) => return ctx.violation(format!("a well-formed program is not converted to json: {w}"), Replay::new("").file("s.8xp", &d.read("s.8xp").unwrap()).cmd(&["convert", "s.8xp", "-o", "s.json"], b"").end()),
    };
    if let Err(e) = json_verdict(&j) {
        // the layout of the json file is not the one the mutations know
        ctx.note("json layout", format!("not as expected: {e}"));
    }
    let known = json_verdict(&j).is_ok();
    // compact, so that every byte counts
    let v: serde_json::Value = serde_json::from_slice(&j).unwrap_or_default();
    let jc = serde_json::to_vec(&v).unwrap();
    cases.push(("json", jc.clone()));
    for n in 0..jc.len() {
        cases.push(("json", jc[..n].to_vec()));
        let xs: &[u8] = if ctx.thorough { b"x\"{}[],:0-9\\\n\xFF\0" } else { b"x\"}\xFF9" };
        for x in xs {
            let mut g = jc.clone();
            g[n] = *x;
            cases.push(("json", g));
        }
        let mut g = jc.clone();
        g.remove(n);
        cases.push(("json", g));
    }
    // every value replaced by every kind of value, every member and element removed, every array grown
    fn paths(v: &serde_json::Value, at: String, out: &mut Vec<String>) {
        out.push(at.clone());
        match v {
            serde_json::Value::Object(m) => m.iter().for_each(|(k, x)| paths(x, format!("{at}/{k}"), out)),
            serde_json::Value::Array(a) => a.iter().enumerate().filter(|(i, _)| *i < 2 || i + 1 == a.len()).for_each(|(i, x)| paths(x, format!("{at}/{i}"), out)),
            _ => {}
        }
    }
    let mut ps = vec![];
    paths(&v, String::new(), &mut ps);
    let values = ["null", "true", "0", "-1", "255", "256", "65535", "65536", "1e99", "1.5", "\"\"", "\"x\"", "\"Program\"", "\"RAM\"", "[]", "[1]", "[256]", "[\"a\"]", "{}", "\"TI-82\""];
    for p in &ps {
        for x in values {
            let mut w = v.clone();
            *w.pointer_mut(p).unwrap() = serde_json::from_str(x).unwrap_or(serde_json::Value::Null);
            cases.push(("json", w.to_string().into_bytes()));
        }
        if let Some((parent, key)) = p.rsplit_once('/') {
            let mut w = v.clone();
            match w.pointer_mut(parent) {
                Some(serde_json::Value::Object(m)) => {
                    m.remove(key);
                }
                Some(serde_json::Value::Array(a)) => {
                    a.remove(key.parse().unwrap());
                }
                _ => {}
            }
            cases.push(("json", w.to_string().into_bytes()));
        }
        if let Some(serde_json::Value::Array(a)) = v.pointer(p) {
            for n in [1usize, 2, 19, 55, 65500, 65516, 65517, 65600] {
                let mut w = v.clone();
                let mut b = a.clone();
                b.resize(b.len() + n, 65.into());
                *w.pointer_mut(p).unwrap() = b.into();
                cases.push(("json", w.to_string().into_bytes()));
                let mut w = v.clone();
                *w.pointer_mut(p).unwrap() = vec![serde_json::Value::from(65); n].into();
                cases.push(("json", w.to_string().into_bytes()));
            }
        }
    }
    for s in ["", " ", "null", "[]", "{}", "\"x\"", "0", "{\"header\":", "\u{FEFF}{}", "nul"] {
        cases.push(("json", s.as_bytes().to_vec()));
    }
    cases.push(("json", vec![b'['; 100_000]));
    cases.push(("json", "{\"header\":".repeat(50_000).into_bytes()));
    // something after a complete program
    for x in [&jc[..], b" ", b"\n", b"\r\n\t ", b"x", b"}", b"]", b",", b"{}", b"[]", b"null", b"0", b"\"\"", b"\n{}", b"\n\n\n//", b"/* */", b"#", b"\0", b"\x1a", b"\xC2\xA0", b"\xEF\xBB\xBF", b"\xFF"] {
        for f in [[&jc[..], x].concat(), [x, &jc[..]].concat()] {
            for i in 0..5 {
                // (five times the same with other spaces, so that quick runs see all five commands)
                cases.push(("json", [&f[..], &b" ".repeat(i)].concat()));
            }
        }
    }
    cases.sort();
    cases.dedup();
    ctx.state(cases.len() as u64);
    let idx: Vec<usize> = (0..cases.len()).collect();
    par(ctx, &idx, |&i| {
        let (ext, f) = &cases[i];
        let v = if *ext == "txt" { txt_verdict(f) } else if known { json_verdict(f) } else { Err("?") };
        let inp = format!("x.{ext}");
        let all: [(Vec<&str>, &[u8]); 5] = [
            (vec!["convert", &inp, "-o", "new.8xp"], b""),
            (vec!["convert", &inp, "-o", "keep.8xp"], b"y\n"),
            (vec!["convert", &inp, "-o", "new.txt"], b""),
            (vec!["convert", &inp, "-o", "new.83p"], b""),
            (vec!["convert", &inp, "-p", "-c"], b""),
        ];
        ctx.note_add(&format!("{ext} {}", match v { Ok(()) => "complete", Err("?") => "not decided", Err(w) => w }), 1);
        for (k, (a, stdin)) in all.iter().enumerate() {
            let bad_json = *ext == "json" && v.is_err();
            if !ctx.thorough && if bad_json { k != i % 5 } else { k != 0 && k != 1 + i % 4 } {
                continue;
            }
            let show = if f.len() < 400 { brief(f) } else { format!("{} bytes", f.len()) };
            trial(ctx, &format!("{ext} {show} ({v:?})"), &[(&inp, f.clone()), ("keep.8xp", keep.clone())], &[(a.clone(), stdin)], |d| match v {
                Err("?") => run_either(ctx, d, a, stdin),
                Err(_) => refused(ctx, d, a, stdin),
                Ok(()) if *ext == "txt" && k == 0 => {
                    let p = parse(&must(ctx, d, a, stdin, "new.8xp")?, "8xp")?;
                    let s = std::str::from_utf8(f).unwrap();
                    let l = lines(s);
                    let m = MODELS.iter().find(|m| m.0 == l[5]).unwrap_or(&MODELS[24]);
                    if latin(&p.name) != l[0] || type_name(p.ftype) != l[2] || dest_name(p.dest) != l[3] || p.sig != m.2 || p.product != m.3 {
                        return Err(format!("converted to {}", label(&p, 0)));
                    }
                    Ok(())
                }
                Ok(()) => run_either(ctx, d, a, stdin),
            });
        }
    });
}

// ------------------------------------------------------------------------------------------------- C21
pub fn c21(ctx: &Ctx) {
    let mut sizes: Vec<usize> = vec![0, 1, 2, 255, 256, 257, 32767, 32768, 65000];
    let (a, b) = if ctx.thorough { (65480, 65560) } else { (65510, 65522) };
    sizes.extend(a..=b);
    for k in 2..16 {
        for d in [0, 2, 19, 74, 76] {
            sizes.extend([(1usize << k).wrapping_sub(d), (1usize << k).wrapping_sub(d + 1), (1usize << k) + 1].iter().filter(|x| **x < 65536));
        }
    }
    sizes.sort();
    sizes.dedup();
    sizes.extend([65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65555, 65556, 65600, 70000, 131_051, 131_052, 131_053, 131_072, 200_000]);
    let mut todo: Vec<(usize, &str, usize)> = vec![];
    for n in &sizes {
        for kind in ["8xp", "8xp high", "8xp odd", "83p", "82p", "json", "txt one", "txt two", "txt lines", "txt other", "txt high", "txt one line"] {
            for m in [0usize, 2] {
                // encoding long texts takes most of the time
                if kind.starts_with("txt") && *n > 4000 && *n < 65000 && ![32767, 32768].contains(n) && !ctx.thorough {
                    continue;
                }
                if ["txt lines", "txt other", "txt high", "txt one line"].contains(&kind) && *n > 4000 && ![65515, 65516, 65517, 65536, 131_072].contains(n) && !ctx.thorough {
                    continue;
                }
                todo.push((*n, kind, m));
            }
        }
    }
    ctx.state(todo.len() as u64);
    // per model the one- and two-byte tokens with the largest sum of bytes that can be repeated in a text
    let high: Vec<[Vec<u8>; 2]> = [0usize, 2]
        .iter()
        .map(|mi| {
            let t = table_of(FILE_MODELS[*mi].0, FILE_MODELS[*mi].1);
            let tr = Trie::new(t, ACCESSIBLE);
            let best = |len: usize| {
                t.tokens
                    .iter()
                    .filter(|(k, v)| k.len() == len && !v[ACCESSIBLE].contains('\n') && encode_greedy(&tr, &v[ACCESSIBLE].repeat(3), true).is_ok_and(|s| bytes_of(&s) == k.repeat(3)))
                    .max_by_key(|(k, _)| k.iter().map(|b| *b as u32).sum::<u32>())
                    .map(|(k, _)| k.clone())
                    .unwrap()
            };
            [best(1), best(2)]
        })
        .collect();
    par(ctx, &todo, |(n, kind, mi)| {
        let ok = *n <= 65516;
        let m = FILE_MODELS[*mi];
        let mut p = Prog::new("BIG", &[]);
        p.sig = m.0.into();
        p.product = m.1;
        // one-byte and two-byte tokens; always ends with a one-byte token
        let two = *kind == "txt two" || *kind != "txt one" && *mi == 2;
        let t = table_of(&p.sig, p.product);
        // the bytes with the largest sum
        let [high1, high2] = &high[(*mi == 2) as usize];
        let mut body: Vec<u8> = vec![];
        while body.len() < *n {
            if kind.ends_with("odd") && body.is_empty() {
                // the two-byte tokens begin at odd positions
                body.push(0x42)
            } else if kind.ends_with("high") {
                if *mi == 2 && body.len() + 2 <= *n {
                    body.extend(high2)
                } else {
                    body.extend(high1)
                }
            } else if body.len() % 1000 > 990 && *kind != "txt one line" && *kind != "8xp odd" || *kind == "txt lines" && body.len() % 2 == 1 {
                body.push(0x3F)
            } else if two && body.len() + 2 <= *n {
                body.extend([0x5D, 0x00])
            } else {
                body.push(0x41 + (body.len() % 26) as u8)
            }
        }
        p.body = body;
        let kind = &kind.replace("8xp high", "8xp").replace("8xp odd", "8xp");
        let (inp, content): (String, Vec<u8>) = match kind.as_str() {
            "8xp" | "83p" | "82p" => (format!("x.{kind}"), p.file(kind)),
            "json" => {
                let j = serde_json::json!({
                    "header": {"bytes": p.bytes(false)[..55].to_vec(), "signature": p.sig, "signature_extra": [26, 10], "product_id": p.product, "comment": "test", "metadata_and_body_length": (*n + 19) as u16},
                    "metadata": {"bytes": p.metadata(false), "flag": 13, "unknown_byte": 0, "body_and_checksum_length": (*n + 2) as u16, "file_type": "Program", "name": "BIG", "version": 0, "destination": "RAM", "body_and_checksum_length_copy": (*n + 2) as u16, "body_length": *n as u16},
                    "body": {"bytes": p.body, "translation": t.decode(&p.body, ACCESSIBLE).unwrap()},
                    "checksum": {"bytes": [0, 0], "value": 0}, "display_mode": "Accessible",
                    "model": {"model": t.model, "signature": p.sig, "product_id": p.product, "language": "en"}
                });
                ("x.json".into(), j.to_string().into_bytes())
            }
            _ => {
                let mode = if *kind == "txt other" { PRETTY } else { ACCESSIBLE };
                let mut x = Txt::new("BIG", mode, t.model, &t.decode(&p.body, mode).unwrap());
                x.comment = "test".into();
                ("x.txt".into(), x.text().into_bytes())
            }
        };
        let txt = kind.starts_with("txt");
        let mut outs = vec!["y.8xp", "y.83p", "y.json", "y.txt"];
        if txt && !ctx.thorough {
            outs = vec![outs[0], outs[1 + n % 3]];
        }
        // single letters are the same tokens with every encoding
        let letters = txt && !two && *n >= 65000 && !kind.ends_with("high");
        let runs = outs.iter().flat_map(|o| ["max", "min", "smart"].map(|e| (*o, e))).filter(|r| r.1 == "max" || letters);
        for (out, encoding) in runs {
            let a: Vec<&str> = vec!["convert", &inp, "-o", out, "-e", encoding];
            trial(ctx, &format!("{kind} {} body of {n} bytes", t.model), &[(&inp, content.clone())], &[(a.clone(), b"")], |d| {
                if !ok {
                    return refused(ctx, d, &a, b"");
                }
                let got = must(ctx, d, &a, b"", out)?;
                let mut q = p.clone();
                if txt && got.len() > 53 && tool_comment(&got[11..53]) {
                    q.comment = got[11..53].iter().copied().take_while(|x| *x != 0).collect();
                }
                match out {
                    "y.8xp" | "y.83p" => {
                        let ext = &out[2..];
                        let f = faults(&got, ext);
                        if !f.is_empty() {
                            return Err(f.join("; "));
                        }
                        let g = parse(&got, ext)?;
                        same("body", &q.body, &g.body)
                    }
                    "y.txt" => {
                        let x = Txt::parse(&got)?;
                        let mode = MODES.iter().position(|m| *m == x.mode).ok_or("mode")?;
                        same("text", t.decode(&q.body, mode).unwrap().as_bytes(), x.body.as_bytes())
                    }
                    _ => {
                        let a = ["convert", "y.json", "-o", "z.8xp"];
                        let g = must(ctx, d, &a, b"", "z.8xp")?;
                        same("body", &q.body, &parse(&g, "8xp")?.body)
                    }
                }
            });
        }
        // edits of the largest programs
        if *kind == "8xp" && *n >= 65000 {
            let a = vec!["rename", "x.8xp", "-n", "NEW", "-f", "z.8xp"];
            trial(ctx, &format!("rename of a body of {n} bytes"), &[("x.8xp", content.clone())], &[(a.clone(), b"")], |d| {
                if !ok {
                    return refused(ctx, d, &a, b"");
                }
                same("renamed", &Edit::Name("NEW").apply(&content, "8xp"), &must(ctx, d, &a, b"", "z.8xp")?)
            });
        }
    });
}
