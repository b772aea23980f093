//! C29: what a txt file means depends on what each of its lines says, not on how the file was saved.
use crate::effects::strs;
use crate::export::generation;
use crate::files::*;
use crate::fmt::*;
use crate::spec::*;
use crate::util::*;
use std::collections::BTreeMap;
use std::sync::Mutex;

fn latin(b: &[u8]) -> String {
    b.iter().map(|x| *x as char).collect()
}

/// A program file without its comment, which belongs to no line here (the tool signs what it makes from text)
fn unsigned(b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    if b.len() > 53 {
        b[11..53].fill(0);
    }
    b
}

/// A json file without its comment
fn unsigned_json(b: &[u8]) -> Result<serde_json::Value, String> {
    let mut v: serde_json::Value = serde_json::from_slice(b).map_err(|e| format!("no json: {e}"))?;
    if let Some(x) = v.pointer_mut("/header/comment") {
        *x = "".into();
    }
    if let Some(a) = v.pointer_mut("/header/bytes").and_then(|x| x.as_array_mut()).filter(|a| a.len() > 53) {
        a[11..53].iter_mut().for_each(|x| *x = 0.into());
    }
    Ok(v)
}

/// A txt file without its second line
fn unsigned_txt(b: &[u8]) -> Vec<Vec<u8>> {
    let mut l: Vec<Vec<u8>> = b.split(|x| *x == b'\n').map(|x| x.to_vec()).collect();
    if l.len() > 1 {
        l[1].clear();
    }
    l
}

/// What is seen of a txt file: the program it gives, or that it gives none
#[derive(Clone, PartialEq, Debug)]
enum Gives {
    Program(Vec<u8>),
    Nothing,
}

fn gives(ctx: &Ctx, d: &Scratch, args: &[&str], out: &str) -> Result<Gives, String> {
    let o = ctx.run(args, b"", &d.0);
    ctx.transition(1);
    let a = args.join(" ");
    if o.crashed() {
        return Err(format!("`{a}`: crash or hang (status {}): {}", o.code, o.se().trim()));
    }
    match (d.read(out), o.code) {
        (Some(b), 0) => Ok(Gives::Program(b)),
        (None, c) if c != 0 => Ok(Gives::Nothing),
        (f, c) => Err(format!("`{a}`: status {c} and {} {out}", if f.is_some() { "an" } else { "no" })),
    }
}

fn show(g: &Gives) -> String {
    match g {
        Gives::Program(b) => format!("a file of {} bytes: {}", b.len(), hex(&b[..b.len().min(400)])),
        Gives::Nothing => "no file".into(),
    }
}

/// What the plain files give: (content, encoding, output)
static PLAIN: Mutex<BTreeMap<(Vec<u8>, String, String), Gives>> = Mutex::new(BTreeMap::new());

/// Two txt files that must mean the same, in every format
fn alike(ctx: &Ctx, what: &str, plain: &[u8], other: &[u8], enc: &str, all: bool) {
    let outs: &[&str] = if all { &["y.8xp", "y.83p", "y.json", "y.txt"] } else { &["y.8xp"] };
    for out in outs {
        let a = ["convert", "x.txt", "-e", enc, "-o", out];
        let (p, q) = (plain.to_vec(), other.to_vec());
        trial(ctx, &format!("{what}: {} instead of {}", brief(&q), brief(&p)), &[("x.txt", q.clone())], &[(a.to_vec(), b"")], |d| {
            let got = gives(ctx, d, &a, out)?;
            let key = (p.clone(), enc.to_string(), out.to_string());
            let known = PLAIN.lock().unwrap().get(&key).cloned();
            let want = match known {
                Some(w) => w,
                None => {
                    let e = ctx.dir();
                    e.write("x.txt", p);
                    let w = gives(ctx, &e, &a, out)?;
                    PLAIN.lock().unwrap().insert(key, w.clone());
                    w
                }
            };
            let same = match (&got, &want) {
                (Gives::Program(g), Gives::Program(w)) => match &out[2..] {
                    "json" => unsigned_json(g)? == unsigned_json(w)?,
                    "txt" => unsigned_txt(g) == unsigned_txt(w),
                    _ => unsigned(g) == unsigned(w),
                },
                (g, w) => g == w,
            };
            if !same {
                return Err(format!("`{}` gives {} instead of {}", a.join(" "), show(&got), show(&want)));
            }
            Ok(())
        });
    }
}

pub fn c29(ctx: &Ctx) {
    // --- every mixture of line endings, with and without a final one
    let bodies: [&[&str]; 10] = [
        &[],
        &[""],
        &["A"],
        &["A", "B"],
        &["", "A", ""],
        &["  A", "B  "],
        &["\"A", "B→C"],
        &["Disp \"HI", "prgmAB", "L₁→A"],
        &["RAM", "A", "", "B"],
        &["A", "§", "B"],
    ];
    let mut todo: Vec<(usize, usize, u32, &str)> = vec![];
    for (b, body) in bodies.iter().enumerate() {
        let n = 6 + body.len();
        for mode in 0..3 {
            if n > 8 && mode != ACCESSIBLE && !ctx.thorough {
                continue;
            }
            for mix in 0..1u32 << n {
                // the last line: ended by LF, by CRLF, or by the end of the file
                for last in ["ended", "open"] {
                    if last == "open" && mix >> (n - 1) == 1 {
                        continue;
                    }
                    todo.push((b, mode, mix, last));
                }
            }
        }
    }
    ctx.state(todo.len() as u64);
    ctx.note("mixtures of line endings", todo.len() as u64);
    let idx: Vec<usize> = (0..todo.len()).collect();
    par(ctx, &idx, |&i| {
        let (b, mode, mix, last) = todo[i];
        let mut lines = strs(&["PROG", "a comment", "Locked Program", "Archive", MODES[mode], ["latest", "TI-82", "TI-84+"][b % 3]]);
        lines.extend(bodies[b].iter().map(|l| if mode == TI && !l.is_empty() { ["41", "3F", "DE", "g"][l.len() % 4].to_string() } else { l.to_string() }));
        let n = lines.len();
        let end = |k: usize, mix: u32| if k + 1 == n && last == "open" { "" } else if mix >> k & 1 == 1 { "\r\n" } else { "\n" };
        let text = |mix: u32| lines.iter().enumerate().map(|(k, l)| format!("{l}{}", end(k, mix))).collect::<String>().into_bytes();
        // the file with LF and a final one
        let plain = format!("{}\n", lines.join("\n")).into_bytes();
        // an empty last line is only a line if it is ended
        if last == "open" && lines[n - 1].is_empty() {
            return;
        }
        let other = text(mix);
        if other != plain {
            let all = ctx.thorough || mix + 1 == 1 << n || mix.count_ones() == 1 || i % 16 == 0;
            alike(ctx, "line endings", &plain, &other, ["max", "min", "smart"][i % 3], all);
        }
    });
    // --- the comment line
    let mut comments: Vec<String> = (1..0x250u32).filter(|c| *c != 10 && *c != 13).filter_map(char::from_u32).flat_map(|c| [c.to_string(), format!("a{c}b")]).collect();
    comments.extend((0x20..0x7Fu8).flat_map(|c| [format!("{}x", c as char), format!("x{}", c as char), format!(" {} ", c as char)]));
    let words = ["", "RAM", "Archive", "Program", "Locked Program", "Group", "pretty", "accessible", "ti", "latest", "TI-82", "max", "name: X", "#", "//", "---", "{", "[", "\"", "\u{1F600}", "\u{FEFF}", "\u{2028}", "\u{85}", "a\rb", "\r\r", "\u{0}", "%s", "[color:red]", "..", "/"];
    comments.extend(words.iter().map(|w| w.to_string()));
    comments.extend([41, 42, 43, 100, 255, 256, 5000, 70000].iter().flat_map(|n| ["c".repeat(*n), "é".repeat(*n)]));
    ctx.state(comments.len() as u64);
    ctx.note("comment lines", comments.len() as u64);
    par(ctx, &comments, |c| {
        for (k, end) in ["\n", "\r\n"].iter().enumerate() {
            let file = |c: &str| strs(&["PROG", c, "Group", "RAM", "accessible", "latest", "Disp \"HI\"", "A"]).join(end).into_bytes();
            alike(ctx, "comment line", &file("c"), &file(c), "smart", k == 0);
        }
    });
    // --- each line says what it is for, whatever it looks like
    let names = ["PROG", "RAM", "Archive", "Program", "Group", "pretty", "ti", "latest", "Locked"];
    let looks = ["c", "RAM", "Archive", "Program", "Group", "pretty", "ti", "latest"];
    let first: [&[&str]; 9] = [
        &["A"],
        &["RAM", "A"],
        &["ARCHIVE"],
        &["TI", "82"],
        &["PROG", "C", "PROGRAM", "RAM", "A", "B", "A"],
        &["", "", "RAM"],
        &["A", "A", "A", "A", "A", "A", "A", "A", "A", "A", "A", "A"],
        &["Group", "Archive", "pretty", "latest"],
        &["PROG", "c", "Program", "Archive", "accessible", "latest", "A"],
    ];
    let models = if ctx.thorough { vec![0, 2, 10, 14, 20, 24] } else { vec![0, 9, 24] };
    let dims = [names.len(), looks.len(), 4, 2, 2, models.len(), first.len()];
    let pts = if ctx.thorough { variations(&dims, 5) } else { variations(&dims, 3) };
    ctx.state(pts.len() as u64);
    ctx.note("combinations of lines", pts.len() as u64);
    par(ctx, &pts, |v| {
        let m = &MODELS[models[v[5]]];
        let mode = [ACCESSIBLE, PRETTY][v[4]];
        let t = Txt {
            name: names[v[0]].into(),
            comment: looks[v[1]].into(),
            ftype: type_name(TYPES[v[2]]).into(),
            dest: dest_name(DESTS[v[3]]).into(),
            mode: MODES[mode].into(),
            model: m.0.into(),
            body: first[v[6]].join("\n"),
        };
        let tr = Trie::new(generation(m), mode);
        for e in [Enc::Max, Enc::Min] {
            let want = encode_ref(&tr, &t.body, e).map(|s| bytes_of(&s));
            let a = ["convert", "x.txt", "-e", e.arg(), "-o", "y.8xp"];
            trial(ctx, &format!("lines {:?}", t.text()), &[("x.txt", t.text().into_bytes())], &[(a.to_vec(), b"")], |d| {
                let got = gives(ctx, d, &a, "y.8xp")?;
                match (&want, &got) {
                    (Err(_), Gives::Nothing) => Ok(()),
                    (Err(_), g) => Err(format!("the body cannot be encoded but gives {}", show(g))),
                    (Ok(_), Gives::Nothing) => Err("gives no file".into()),
                    (Ok(w), Gives::Program(b)) => {
                        let q = parse(b, "8xp")?;
                        let mut p = Prog::new(&t.name, w);
                        p.ftype = TYPES[v[2]];
                        p.dest = DESTS[v[3]];
                        p.sig = m.2.into();
                        p.product = m.3;
                        p.comment = q.comment.clone();
                        if latin(&q.name) != t.name || p.bytes(false) != *b {
                            return Err(format!("gives {} instead of {}", hex(b), hex(&p.bytes(false))));
                        }
                        Ok(())
                    }
                }
            });
        }
    });
}
