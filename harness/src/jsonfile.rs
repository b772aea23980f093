//! C30: what a json file means depends on the values it holds, not on how they are written.
use crate::effects::strs;
use crate::files::*;
use crate::fmt::*;
use crate::spec::*;
use crate::util::*;
use serde_json::Value;

/// How a json text is written: white space around the signs, order of the members of an object, the characters of strings
#[derive(Clone, Default, Debug)]
struct Style {
    /// behind an opening sign, before a closing one, before and behind a colon, before and behind a comma, before and behind the whole
    gaps: [&'static str; 8],
    /// of the object at a path: the positions of its members
    order: Option<(&'static str, Vec<usize>)>,
    reversed: bool,
    escapes: Escapes,
}
#[derive(Clone, Copy, Default, Debug, PartialEq)]
enum Escapes {
    #[default]
    Needed,
    /// all characters of all strings, also of the names of members
    All,
    Upper,
    /// only those outside ASCII
    Foreign,
    /// every second character
    Alternate,
    /// the short forms that are never needed, and nothing else than needed
    Slashes,
}

const MEMBERS: [(&str, &[&str]); 6] = [
    ("", &["header", "metadata", "body", "checksum", "display_mode", "model"]),
    ("/header", &["bytes", "signature", "signature_extra", "product_id", "comment", "metadata_and_body_length"]),
    (
        "/metadata",
        &["bytes", "flag", "unknown_byte", "body_and_checksum_length", "file_type", "name", "version", "destination", "body_and_checksum_length_copy", "body_length"],
    ),
    ("/body", &["bytes", "translation"]),
    ("/checksum", &["bytes", "value"]),
    ("/model", &["model", "signature", "product_id", "language"]),
];

impl Style {
    fn string(&self, s: &str) -> String {
        let mut r = String::from("\"");
        for (i, c) in s.chars().enumerate() {
            let escape = match self.escapes {
                Escapes::All | Escapes::Upper => true,
                Escapes::Foreign => !c.is_ascii(),
                Escapes::Alternate => i % 2 == 0,
                _ => false,
            };
            if escape {
                for u in c.encode_utf16(&mut [0; 2]) {
                    r += &if self.escapes == Escapes::Upper { format!("\\u{u:04X}") } else { format!("\\u{u:04x}") };
                }
                continue;
            }
            match c {
                '"' => r += "\\\"",
                '\\' => r += "\\\\",
                '/' if self.escapes == Escapes::Slashes => r += "\\/",
                '\n' => r += "\\n",
                '\r' => r += "\\r",
                '\t' => r += "\\t",
                '\u{8}' => r += "\\b",
                '\u{c}' => r += "\\f",
                c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
                c => r.push(c),
            }
        }
        r + "\""
    }
    fn value(&self, v: &Value, path: &str) -> String {
        let [open, close, bc, ac, bk, ak, ..] = self.gaps;
        match v {
            Value::Array(a) if a.is_empty() => format!("[{open}]"),
            Value::Array(a) => format!("[{open}{}{close}]", a.iter().map(|x| self.value(x, path)).collect::<Vec<_>>().join(&format!("{bk},{ak}"))),
            Value::Object(o) => {
                // in the order in which the tool writes them; what it does not write comes last
                let known = MEMBERS.iter().find(|m| m.0 == path).map_or(&[][..], |m| m.1);
                let mut keys: Vec<&str> = known.iter().copied().filter(|k| o.contains_key(*k)).collect();
                keys.extend(o.keys().map(|k| k.as_str()).filter(|k| !known.contains(k)));
                if let Some((p, positions)) = &self.order {
                    if *p == path && positions.len() == keys.len() {
                        keys = positions.iter().map(|i| keys[*i]).collect();
                    }
                }
                if self.reversed {
                    keys.reverse();
                }
                let members: Vec<String> = keys.iter().map(|k| format!("{}{bc}:{ac}{}", self.string(k), self.value(&o[*k], &format!("{path}/{k}")))).collect();
                format!("{{{open}{}{close}}}", members.join(&format!("{bk},{ak}")))
            }
            Value::String(s) => self.string(s),
            x => x.to_string(),
        }
    }
    fn text(&self, v: &Value) -> String {
        format!("{}{}{}", self.gaps[6], self.value(v, ""), self.gaps[7])
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    for _ in 0..n {
        all = all.iter().flat_map(|p: &Vec<usize>| (0..n).filter(|i| !p.contains(i)).map(|i| [&p[..], &[i]].concat()).collect::<Vec<_>>()).collect();
    }
    all
}

const GAPS: [&str; 6] = ["", " ", "\n", "\t", "\r\n", "  \n\t \r"];

pub fn c30(ctx: &Ctx) {
    // --- programs whose texts have something to escape
    let mut progs: Vec<(Prog, usize)> = vec![];
    for (i, (name, comment, body, mode)) in [
        ("PROG", "plain", vec![0xDE, 0x2A, 0x41, 0x2A, 0x3F, 0x31], ACCESSIBLE),
        ("A\u{e9}\"\\/", "say \"hi\" \\ / \u{ff}", vec![0x2A, 0x83, 0xBB, 0xD7, 0x2A, 0x3F, 0x3F, 0x5D, 0x00], ACCESSIBLE),
        ("", "", vec![], PRETTY),
        ("abc", "\u{1}\t\n\u{1f}\u{7f}", vec![0x2C, 0xBB, 0xD7, 0x04, 0x41, 0x3F, 0x10, 0x11, 0xAC], PRETTY),
        ("Z9", "true", vec![0x2C, 0xBB, 0xD7, 0x83, 0x3F], TI),
        ("null", "{\"a\":[1]}", (0..200).map(|i| 0x30 + (i % 10)).collect(), TI),
    ]
    .into_iter()
    .enumerate()
    {
        let mut p = Prog::new("", &body);
        p.name = name.chars().map(|c| c as u8).collect();
        p.comment = comment.chars().map(|c| c as u8).collect();
        p.ftype = TYPES[i % 4];
        p.dest = DESTS[i / 2 % 2];
        let f = FILE_MODELS[i % FILE_MODELS.len()];
        p.sig = f.0.into();
        p.product = f.1;
        if table_of(&p.sig, p.product).split(&p.body).is_none() {
            p.sig = "**TI83F*".into();
            p.product = 0;
        }
        progs.push((p, mode));
    }
    let outs: [&[&str]; 6] = [&["-o", "o.8xp"], &["-o", "o.txt"], &["-o", "o.json"], &["-o", "o.83p"], &["-c"], &["-p"]];
    // what is seen of a json file: the saved file, or what is shown
    let seen = |d: &Scratch, k: usize| {
        let _ = std::fs::remove_file(d.p(outs[k].last().unwrap()));
        let args = [&["convert", "x.json"], outs[k]].concat();
        let o = ctx.run(&args, b"", &d.0);
        ctx.transition(1);
        let made = if k < 4 { d.read(outs[k][1]) } else { Some(o.stdout.clone()) };
        (o, made, args.join(" "))
    };
    let bases: Vec<Option<(Value, Vec<Vec<u8>>, String)>> = par_map(ctx, &progs, |(p, mode)| {
        let d = ctx.dir();
        d.write("x.8xp", p.bytes(false));
        let o = ctx.run(&["convert", "x.8xp", "-o", "x.json", "-d", MODES[*mode]], b"", &d.0);
        let Some(b) = d.read("x.json").filter(|_| o.code == 0) else {
            ctx.violation(format!("no json is written (status {}): {}", o.code, o.se().trim()), Replay::new("json").file("x.8xp", &p.bytes(false)).cmd(&["convert", "x.8xp", "-o", "x.json"], b"").end());
            return None;
        };
        let v: Value = match serde_json::from_slice(&b) {
            Ok(v) => v,
            Err(e) => {
                ctx.violation(format!("what is written is no json: {e}"), Replay::new("json").file("x.8xp", &p.bytes(false)).cmd(&["convert", "x.8xp", "-o", "x.json"], b"").end());
                return None;
            }
        };
        let mut all = vec![];
        for k in 0..outs.len() {
            let (o, made, args) = seen(&d, k);
            match made.filter(|_| o.code == 0) {
                Some(b) => all.push(b),
                None => {
                    let w = format!("`{args}` of its own json (status {}): {}", o.code, o.se().trim());
                    ctx.violation(w.clone(), Replay::new(&w).file("x.json", &b).cmd(&strs(&args.split(' ').collect::<Vec<_>>()).iter().map(|x| x.as_str()).collect::<Vec<_>>(), b"").end());
                    return None;
                }
            }
        }
        Some((v, all, String::from_utf8_lossy(&b).to_string()))
    })
    .into_iter()
    .flatten()
    .collect();
    if bases.len() != progs.len() || bases.iter().any(|b| b.is_none()) {
        return;
    }
    // --- the styles
    let plain = Style { gaps: ["", "", "", " ", "", " ", "", ""], ..Default::default() };
    let mut styles: Vec<Style> = vec![Style::default(), plain.clone()];
    for (path, members) in MEMBERS {
        let n = members.len();
        let orders: Vec<Vec<usize>> = if n <= 6 {
            permutations(n)
        } else {
            // every two exchanged, every rotation, every member first and last, and back to front
            let id: Vec<usize> = (0..n).collect();
            let mut v = vec![id.iter().rev().copied().collect::<Vec<_>>()];
            for i in 0..n {
                v.push((0..n).map(|k| (k + i) % n).collect());
                let rest = || id.iter().copied().filter(move |k| *k != i);
                v.push(std::iter::once(i).chain(rest()).collect());
                v.push(rest().chain([i]).collect());
                for j in 0..i {
                    let mut x = id.clone();
                    x.swap(i, j);
                    v.push(x);
                }
            }
            v
        };
        for o in orders {
            styles.push(Style { order: Some((path, o)), ..plain.clone() });
        }
    }
    styles.push(Style { reversed: true, ..plain.clone() });
    // all combinations of three kinds of white space at the six places inside; every kind at every place, also around the whole
    for n in 0..729usize {
        let g = |k: u32| ["", " ", "\n"][n / 3usize.pow(k) % 3];
        styles.push(Style { gaps: [g(0), g(1), g(2), g(3), g(4), g(5), "", ""], ..Default::default() });
    }
    for place in 0..8 {
        for g in GAPS {
            let mut s = plain.clone();
            s.gaps[place] = g;
            styles.push(s);
        }
    }
    for g in GAPS {
        for h in GAPS {
            styles.push(Style { gaps: [g, g, g, g, g, g, h, h], ..Default::default() });
        }
    }
    for e in [Escapes::All, Escapes::Upper, Escapes::Foreign, Escapes::Alternate, Escapes::Slashes] {
        for g in GAPS {
            for reversed in [false, true] {
                styles.push(Style { escapes: e, reversed, gaps: [g, g, "", g, "", g, "", ""], ..Default::default() });
            }
        }
    }
    // padding moves what is read in blocks across their ends
    let pads: Vec<String> = [100, 4095, 4096, 8191, 8192, 65535, 65536, 200_000].iter().map(|n| " ".repeat(*n)).collect();
    ctx.note("ways to write a json file", styles.len() as u64);
    let mut todo: Vec<(usize, String, String)> = vec![];
    for (pi, base) in bases.iter().enumerate() {
        let v = &base.as_ref().unwrap().0;
        for (si, s) in styles.iter().enumerate() {
            // in quick runs each order of members with one program, everything else with all
            if ctx.thorough || s.order.is_none() || si % progs.len() == pi {
                todo.push((pi, s.text(v), format!("{s:?}")));
            }
        }
        for pad in &pads {
            for at in ["{", "\"body\":", "\"translation\":"] {
                let t = plain.text(v);
                let i = t.find(at).unwrap() + at.len();
                todo.push((pi, format!("{}{pad}{}", &t[..i], &t[i..]), format!("{} spaces behind {at}", pad.len())));
            }
        }
        let t = &base.as_ref().unwrap().2;
        todo.push((pi, t.replace('\n', "\r\n"), "line ends of another system".into()));
        todo.push((pi, t.replace("\n", "\n\n"), "empty lines".into()));
        todo.push((pi, t.lines().map(|l| l.trim_start()).collect::<Vec<_>>().join("\n"), "no indentation".into()));
        todo.push((pi, t.lines().map(|l| l.trim()).collect::<Vec<_>>().join(""), "one line".into()));
    }
    ctx.state(todo.len() as u64);
    par(ctx, &todo, |(pi, text, how)| {
        let (v, all, _) = bases[*pi].as_ref().unwrap();
        // the machinery: the same values
        let same: Value = serde_json::from_str(text).unwrap_or_else(|e| panic!("machinery: {e}: {how}"));
        assert!(same == *v, "machinery: {how}");
        let d = ctx.dir();
        d.write("x.json", text);
        let h = text.len() + how.len();
        for k in 0..outs.len() {
            // in quick runs of four outputs of a file one, by turns; of all of them for some
            if !ctx.thorough && h % 6 != 0 && k != h % 6 {
                continue;
            }
            let (o, made, args) = seen(&d, k);
            let judge = || -> Result<(), String> {
                if o.crashed() {
                    return Err(format!("crash (status {}): {}", o.code, o.se().trim()));
                }
                match made {
                    Some(b) if o.code == 0 && b == all[k] => Ok(()),
                    Some(b) if o.code == 0 => Err(format!("{:?} instead of {:?}", brief(&b), brief(&all[k]))),
                    _ => Err(format!("refused (status {}): {} {}", o.code, o.se().trim(), o.plain().trim())),
                }
            };
            ctx.trace(1);
            ctx.sample(format!("`{args}` of a json file written with {how}"));
            if let Err(e) = judge() {
                let w: String = format!("`{args}` of a json file with the values of one that the tool wrote, written with {how}: {e}").chars().take(1500).collect();
                ctx.violation(w.clone(), Replay::new(&w).file("x.json", text.as_bytes()).cmd(&args.split(' ').collect::<Vec<_>>(), b"").end());
                return;
            }
        }
    });
    // --- the same in a directory that is converted as a whole
    let some: Vec<&(usize, String, String)> = todo.iter().enumerate().filter(|(i, _)| ctx.thorough || i % 5 == 0).map(|x| x.1).collect();
    let groups: Vec<&[&(usize, String, String)]> = some.chunks(6).collect();
    // each program with each of six names, as the tool itself writes it
    let letters = ["Q", "R", "S", "T", "U", "V"];
    let named: Vec<Vec<(Value, Vec<u8>)>> = progs
        .iter()
        .map(|(p, mode)| {
            letters
                .iter()
                .map(|l| {
                    let mut p = p.clone();
                    p.name = l.bytes().collect();
                    let d = ctx.dir();
                    d.write("x.8xp", p.bytes(false));
                    ctx.run(&["convert", "x.8xp", "-o", "x.json", "-d", MODES[*mode]], b"", &d.0);
                    ctx.run(&["convert", "x.json", "-o", "o.8xp"], b"", &d.0);
                    (serde_json::from_slice(&d.read("x.json").unwrap_or_default()).unwrap_or_default(), d.read("o.8xp").unwrap_or_default())
                })
                .collect()
        })
        .collect();
    par(ctx, &groups, |g| {
        let d = ctx.dir();
        std::fs::create_dir(d.p("d")).unwrap();
        std::fs::create_dir(d.p("o")).unwrap();
        let mut want: Vec<(String, Vec<u8>)> = vec![];
        for (i, (pi, _, how)) in g.iter().enumerate() {
            let (v, made) = &named[*pi][i];
            let s = styles.iter().find(|s| format!("{s:?}") == *how);
            d.write(&format!("d/f{i}.json"), s.unwrap_or(&plain).text(v));
            want.push((format!("o/{}.8xp", letters[i]), made.clone()));
        }
        let o = ctx.run(&["convert", "d", "-m", "-o", "o"], b"", &d.0);
        ctx.transition(1);
        ctx.trace(1);
        let bad = want.iter().find(|(n, b)| d.read(n).as_ref() != Some(b));
        if o.code != 0 || bad.is_some() {
            let w = format!("mass conversion of json files written with {:?}: status {}: {} {}", g.iter().map(|x| &x.2).collect::<Vec<_>>(), o.code, o.se().trim(), bad.map_or(String::new(), |b| format!("{} is wrong", b.0)));
            let w: String = w.chars().take(1500).collect();
            let mut r = Replay::new(&w).raw("mkdir -p d o");
            for i in 0..g.len() {
                r = r.file(&format!("d/f{i}.json"), &d.read(&format!("d/f{i}.json")).unwrap());
            }
            ctx.violation(w, r.cmd(&["convert", "d", "-m", "-o", "o"], b"").end());
        }
    });
}
