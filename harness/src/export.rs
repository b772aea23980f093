//! C27: every export states what the program holds, in every field and format.
use crate::effects::strs;
use crate::files::*;
use crate::fmt::*;
use crate::spec::*;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn latin(b: &[u8]) -> String {
    b.iter().map(|x| *x as char).collect()
}

/// All fields of the json file of a program; `comment` None: the comment of a program made from text
pub fn stated(p: &Prog, mode: usize, model: &str, translation: &str, tool_signed: bool) -> Vec<(&'static str, Value)> {
    let b = p.bytes(false);
    let n = b.len();
    let m = MODELS.iter().find(|m| m.0 == model).expect("machinery: model");
    let len = p.body.len();
    let mut v = vec![
        ("/header/signature", json!(p.sig)),
        ("/header/signature_extra", json!([0x1A, 0x0A])),
        ("/header/product_id", json!(p.product)),
        ("/header/metadata_and_body_length", json!(len + 19)),
        ("/metadata/bytes", json!(b[55..74])),
        ("/metadata/flag", json!(0x0D)),
        ("/metadata/unknown_byte", json!(0)),
        ("/metadata/body_and_checksum_length", json!(len + 2)),
        ("/metadata/file_type", json!(type_name(p.ftype).replace(' ', ""))),
        ("/metadata/name", json!(latin(&p.name))),
        ("/metadata/version", json!(p.version)),
        ("/metadata/destination", json!(dest_name(p.dest))),
        ("/metadata/body_and_checksum_length_copy", json!(len + 2)),
        ("/metadata/body_length", json!(len)),
        ("/body/bytes", json!(p.body)),
        ("/body/translation", json!(translation)),
        ("/checksum/bytes", json!(b[n - 2..])),
        ("/checksum/value", json!(u16::from_le_bytes([b[n - 2], b[n - 1]]))),
        ("/display_mode", json!(["Pretty", "Accessible", "TiAscii"][mode])),
        ("/model/model", json!(m.0)),
        ("/model/signature", json!(m.2)),
        ("/model/product_id", json!(m.3)),
        ("/model/language", json!(m.4)),
    ];
    if !tool_signed {
        v.push(("/header/bytes", json!(b[..55])));
        v.push(("/header/comment", json!(latin(&p.comment))));
    }
    v
}

/// The token table of a model: the one of its generation
pub fn generation(m: &(&str, u32, &str, u8, &str)) -> &'static Table {
    let f = FILE_MODELS.iter().find(|f| order(f.2) == m.1).expect("machinery: generation");
    table_of(f.0, f.1)
}

pub fn judge_json(got: &[u8], want: &[(&'static str, Value)]) -> Result<Value, String> {
    let v: Value = serde_json::from_slice(got).map_err(|e| format!("no json: {e}"))?;
    for (at, w) in want {
        match v.pointer(at) {
            None => return Err(format!("the json file has no {at}")),
            Some(g) if g != w => {
                let cut = |x: &Value| x.to_string().chars().take(300).collect::<String>();
                return Err(format!("the json file states {at} as {} instead of {}", cut(g), cut(w)));
            }
            _ => {}
        }
    }
    Ok(v)
}

fn equal(what: &str, want: &str, got: &[u8]) -> Result<(), String> {
    if got == want.as_bytes() {
        return Ok(());
    }
    let i = want.bytes().zip(got).take_while(|(a, b)| a == *b).count();
    Err(format!("{what}: {} instead of {} (at byte {i})", brief(&got[i..got.len().min(i + 60)]), brief(&want.as_bytes()[i..want.len().min(i + 60)])))
}

pub fn c27(ctx: &Ctx) {
    let pts = points(if ctx.thorough { 4 } else { 3 });
    ctx.state(pts.len() as u64);
    // a binary file, exported directly and by way of a mass conversion
    par(ctx, &pts, |x| {
        let (p, mode) = (&x.prog, x.mode);
        let text = table_of(&p.sig, p.product).decode(&p.body, mode).unwrap();
        for ext in ["8xp", "83p"] {
            if ext == "83p" && (p.version != 0 || p.dest != 0) {
                continue;
            }
            let src = format!("x.{ext}");
            let cmds = vec![vec!["convert", &src, "-d", MODES[mode], "-o", "y.json"], vec!["convert", &src, "-d", MODES[mode], "-o", "y.txt"]];
            let c: Vec<(Vec<&str>, &[u8])> = cmds.iter().map(|c| (c.clone(), &b""[..])).collect();
            let label = format!("{ext} of {} type {:02X} {} body of {} bytes, {}", brief(&p.name), p.ftype, p.model(), p.body.len(), MODES[mode]);
            trial(ctx, &label, &[(&src, p.file(ext))], &c, |d| {
                judge_json(&must(ctx, d, &cmds[0], b"", "y.json")?, &stated(p, mode, p.model(), &text, false))?;
                equal("the txt file", &txt_of(p, mode), &must(ctx, d, &cmds[1], b"", "y.txt")?)
            });
        }
    });
    // an edited program
    let few = points(if ctx.thorough { 2 } else { 1 });
    // the edit commands load with the accessible mode; the same edits without that dimension
    let mut once: Vec<(&Point, Vec<u8>)> = vec![];
    for x in &few {
        let b = x.prog.bytes(false);
        if !once.iter().any(|o| o.1 == b) {
            once.push((x, b));
        }
    }
    let mut all = edits();
    // comments whose ends and gaps are spaces, every ASCII byte
    for c in [" ", " a", "a ", "  a  b  "] {
        all.push(Edit::Comment(c.into()));
    }
    let all = &all;
    let mut todo: Vec<(&Point, &Edit)> = once.iter().flat_map(|(x, _)| all.iter().map(move |e| (*x, e))).collect();
    let ascii: Vec<Edit> = (1..0x80u8).filter(|b| !b.is_ascii_alphanumeric()).map(|b| Edit::Comment(format!("a{0}b{0}", b as char))).collect();
    todo.extend(ascii.iter().map(|e| (once[0].0, e)));
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |(x, e)| {
        let p = &x.prog;
        for ext in ["8xp", "83p"] {
            if ext == "83p" && (p.version != 0 || p.dest != 0) {
                continue;
            }
            let src = format!("x.{ext}");
            // a program of an 83p file becomes an 8xp program before it is edited
            let want = parse(&e.apply(&p.bytes(false), "8xp"), "8xp").expect("machinery: edited file");
            let text = table_of(&p.sig, p.product).decode(&p.body, ACCESSIBLE).unwrap();
            let mut a = e.args(&src);
            a.extend(["-f", "y.json"]);
            let mut b = e.args(&src);
            b.extend(["-f", "y.txt"]);
            let label = format!("{e:?} of an {ext} of {} type {:02X} {} body of {} bytes", brief(&p.name), p.ftype, p.model(), p.body.len());
            trial(ctx, &label, &[(&src, p.file(ext))], &[(a.clone(), b""), (b.clone(), b"")], |d| {
                judge_json(&must(ctx, d, &a, b"", "y.json")?, &stated(&want, ACCESSIBLE, p.model(), &text, false))?;
                equal("the txt file", &txt_of(&want, ACCESSIBLE), &must(ctx, d, &b, b"", "y.txt")?)
            });
        }
    });
    // a txt file: every model, display mode, encode mode and setting
    let tries: BTreeMap<(&str, usize), Trie> = FILE_MODELS.iter().flat_map(|m| (0..3).map(move |k| ((m.2, k), Trie::new(table_of(m.0, m.1), k)))).collect();
    let mut todo = vec![];
    for (mi, m) in MODELS.iter().enumerate() {
        for mode in 0..3 {
            for e in [Enc::Smart, Enc::Max, Enc::Min] {
                for (i, body) in [generation(m).decode(&[0xDE, 0x2A, 0x41, 0x42, 0x2A, 0x3F, 0x31, 0x04, 0x41, 0x3F], mode).unwrap(), "".into(), "\n\n".into(), ["A", "A", "41"][mode].to_string()].into_iter().enumerate() {
                    for (j, ft) in TYPES.into_iter().enumerate() {
                        for (k, dest) in DESTS.into_iter().enumerate() {
                            // names and comments vary with the other settings
                            if ctx.thorough || (mi + mode + i + j + k) % 2 == 0 {
                                todo.push((m, mode, e, body.clone(), ft, dest, ["PROG", "", "a", "aBcDeFgH"][(mi + i + j) % 4]));
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |(m, mode, e, body, ft, dest, name)| {
        let mut t = Txt::new(name, *mode, m.0, body);
        t.ftype = type_name(*ft).into();
        t.dest = dest_name(*dest).into();
        // the token table is the one of the model's own generation, all of which a program file can identify
        let tr = &tries[&(generation(m).model, *mode)];
        if encode_ref(tr, body, *e).is_err() {
            return; // C01: rejected
        }
        let cmds = [strs(&["convert", "x.txt", "-e", e.arg(), "-o", "y.json"]), strs(&["convert", "x.txt", "-e", e.arg(), "-o", "y.8xp"]), strs(&["convert", "y.json", "-o", "z.txt"])];
        let r: Vec<Vec<&str>> = cmds.iter().map(|c| c.iter().map(|x| x.as_str()).collect()).collect();
        let c: Vec<(Vec<&str>, &[u8])> = r.iter().map(|c| (c.clone(), &b""[..])).collect();
        trial(ctx, &format!("txt {} {} {} {} {} {body:?}", m.0, MODES[*mode], e.arg(), t.ftype, t.dest), &[("x.txt", t.text().into_bytes())], &c, |d| {
            let y = must(ctx, d, &r[0], b"", "y.json")?;
            let b = must(ctx, d, &r[1], b"", "y.8xp")?;
            let q = parse(&b, "8xp")?;
            if latin(&q.name) != *name || q.ftype != *ft || q.dest != *dest || q.sig != m.2 || q.product != m.3 || q.version != 0 || !tool_comment(&b[11..53]) {
                return Err(format!("the 8xp file has other settings: {q:?}"));
            }
            let want = bytes_of(&encode_ref(tr, body, *e).map_err(|e| format!("machinery: {e}"))?);
            let smart = if *e == Enc::Smart { encode_smart(tr, body).map(|x| bytes_of(&x)).unwrap_or_default() } else { vec![] };
            if q.body != want && q.body != smart {
                return Err(format!("the 8xp file has the body {} instead of {}", hex(&q.body), hex(&want)));
            }
            let v = judge_json(&y, &stated(&q, *mode, m.0, body, true))?;
            if v.pointer("/header/bytes") != Some(&json!(b[..55])) {
                return Err("the header bytes of the json file are not those of the 8xp file".into());
            }
            if v.pointer("/header/comment") != Some(&json!(latin(&q.comment))) {
                return Err(format!("the comment of the json file is {:?} instead of {:?}", v.pointer("/header/comment"), latin(&q.comment)));
            }
            // the txt file of the json file is the first one, with the comment of the tool
            let mut back = t.clone();
            back.comment = latin(&q.comment);
            equal("the txt file", &back.text(), &must(ctx, d, &r[2], b"", "z.txt")?)
        });
    });
    // lengths of more than one byte, and sums of more than two
    let mut sizes: Vec<usize> = (250..260).collect();
    sizes.extend([232, 233, 234, 235, 236, 295, 296, 400, 511, 512, 600, 4096, 32748, 32749, 32767, 32768, 40000, 65280, 65515, 65516]);
    let todo: Vec<(usize, u8, &str)> = sizes.iter().flat_map(|n| [0x31u8, 0xDE, 0xFF].map(move |b| (*n, b))).flat_map(|(n, b)| ["8xp", "83p", "82p", "txt"].map(move |e| (n, b, e))).collect();
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |(n, b, ext)| {
        // as txt in the shortest form that keeps the body
        let body: Vec<u8> = vec![*b; *n];
        let mut p = Prog::new("SIZE", &body);
        p.ftype = 6;
        let text = table_of(&p.sig, p.product).decode(&body, ACCESSIBLE).unwrap();
        let src = format!("x.{ext}");
        let content = if *ext == "txt" { txt_of(&p, ACCESSIBLE).into_bytes() } else { p.file(ext) };
        let args = ["convert", &src, "-o", "y.json"];
        trial(ctx, &format!("{ext} with a body of {n} bytes {b:02X}"), &[(&src, content)], &[(args.to_vec(), b"")], |d| {
            judge_json(&must(ctx, d, &args, b"", "y.json")?, &stated(&p, ACCESSIBLE, p.model(), &text, *ext == "txt")).map(|_| ())
        });
    });
    // bytes that have one value in every program
    let odd: Vec<(usize, &str, u8)> = [(8, "/header/signature_extra/0"), (9, "/header/signature_extra/1"), (55, "/metadata/flag"), (56, "/metadata/unknown_byte")]
        .into_iter()
        .flat_map(|(i, f)| [0u8, 1, 0x0A, 0x0B, 0x0D, 0x1A, 0x7F, 0x80, 0xFF].map(move |b| (i, f, b)))
        .collect();
    ctx.state(odd.len() as u64);
    par(ctx, &odd, |(i, field, b)| {
        let p = Prog::new("ODD", &[0x41, 0x3F, 0x42]);
        let mut content = p.bytes(false);
        content[*i] = *b;
        let n = content.len();
        let s: u16 = content[55..n - 2].iter().map(|x| *x as u16).sum();
        content[n - 2..].copy_from_slice(&s.to_le_bytes());
        let want = vec![(*field, json!(b)), ("/checksum/value", json!(s)), ("/checksum/bytes", json!(s.to_le_bytes())), ("/header/bytes", json!(content[..55])), ("/metadata/bytes", json!(content[55..74]))];
        let args = ["convert", "x.8xp", "-o", "y.json"];
        trial(ctx, &format!("8xp with byte {i} {b:02X}"), &[("x.8xp", content)], &[(args.to_vec(), b"")], |d| judge_json(&must(ctx, d, &args, b"", "y.json")?, &want).map(|_| ()));
    });
    // a mass conversion exports the same
    let some: Vec<&[Point]> = few.chunks(8).collect();
    ctx.state(some.len() as u64);
    par(ctx, &some, |ps| {
        for mode in 0..3 {
            let files: Vec<(String, Prog)> = ps
                .iter()
                .enumerate()
                .map(|(i, x)| {
                    let mut p = x.prog.clone();
                    p.name = format!("M{}", ["A", "B", "C", "D", "E", "F", "G", "H"][i]).into_bytes();
                    (format!("in/f{i}.8xp"), p)
                })
                .collect();
            let d = ctx.dir();
            std::fs::create_dir(d.p("in")).unwrap();
            std::fs::create_dir(d.p("out")).unwrap();
            let a = ["convert", "in", "-m", "-d", MODES[mode], "-o", "out"];
            let mut r = Replay::new("mass conversion").raw("mkdir in out");
            for (f, p) in &files {
                d.write(f, p.bytes(false));
                r = r.file(f, &p.bytes(false));
            }
            let o = ctx.run(&a, b"", &d.0);
            ctx.transition(1);
            ctx.trace(1);
            for (f, p) in &files {
                let out = format!("out/{}.txt", latin(&p.name));
                let j = match d.read(&out) {
                    None => Err(format!("no {out} (status {}): {}", o.code, o.se().trim())),
                    Some(b) => equal(&out, &txt_of(p, mode), &b),
                };
                if let Err(w) = j {
                    ctx.violation(format!("mass conversion of {f} ({}): {w}", MODES[mode]), r.cmd(&a, b"").end());
                    return;
                }
            }
        }
    });
    ctx.note("fields of a json file that are judged", 25);
}
