//! The reference model of program files: building, parsing and validating, independent of /repo.
use crate::spec::*;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Prog {
    pub sig: String,
    pub product: u8,
    pub comment: Vec<u8>,
    pub ftype: u8,
    pub name: Vec<u8>,
    pub version: u8,
    pub dest: u8,
    pub body: Vec<u8>,
}

/// The comment field of a program that was made from text: the tool and its version, zero-padded
pub fn tool_comment(field: &[u8]) -> bool {
    let t: Vec<u8> = field.iter().copied().take_while(|x| *x != 0).collect();
    t.starts_with(b"Created by TI-Tools ") && t.iter().all(|x| x.is_ascii_graphic() || *x == b' ') && t.last() != Some(&b' ') && field[t.len()..].iter().all(|x| *x == 0)
}

pub fn pad(b: &[u8], n: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    assert!(v.len() <= n);
    v.resize(n, 0);
    v
}

pub fn sum(parts: &[&[u8]]) -> u16 {
    parts.iter().flat_map(|p| p.iter()).fold(0u64, |a, b| a + *b as u64) as u16
}

impl Prog {
    pub fn new(name: &str, body: &[u8]) -> Prog {
        Prog {
            sig: "**TI83F*".into(),
            product: 0,
            comment: b"test".to_vec(),
            ftype: 5,
            name: name.as_bytes().to_vec(),
            version: 0,
            dest: 0,
            body: body.to_vec(),
        }
    }

    pub fn metadata(&self, short: bool) -> Vec<u8> {
        let mut m = vec![if short { 0x0B } else { 0x0D }, 0];
        let l = (self.body.len() + 2) as u16;
        m.extend(l.to_le_bytes());
        m.push(self.ftype);
        m.extend(pad(&self.name, 8));
        if !short {
            m.push(self.version);
            m.push(self.dest);
        }
        m.extend(l.to_le_bytes());
        m.extend((self.body.len() as u16).to_le_bytes());
        m
    }

    /// short: the 17-byte metadata of 82p and 83p files
    pub fn bytes(&self, short: bool) -> Vec<u8> {
        let m = self.metadata(short);
        let mut v = self.sig.as_bytes().to_vec();
        v.extend([0x1A, 0x0A, self.product]);
        v.extend(pad(&self.comment, 42));
        v.extend(((m.len() + self.body.len()) as u16).to_le_bytes());
        let s = sum(&[&m, &self.body]);
        v.extend(m);
        v.extend(&self.body);
        v.extend(s.to_le_bytes());
        v
    }

    pub fn file(&self, ext: &str) -> Vec<u8> {
        self.bytes(ext != "8xp")
    }

    pub fn model(&self) -> &'static str {
        FILE_MODELS.iter().find(|m| m.0 == self.sig && m.1 == self.product).map(|m| m.2).expect("model")
    }
}

pub fn type_name(t: u8) -> &'static str {
    match t {
        5 => "Program",
        6 => "Locked Program",
        0x17 => "Group",
        0x24 => "Flash Application",
        _ => panic!(),
    }
}
pub const TYPES: [u8; 4] = [5, 6, 0x17, 0x24];
pub const DESTS: [u8; 2] = [0, 0x80];
pub fn dest_name(d: u8) -> &'static str {
    if d == 0 {
        "RAM"
    } else {
        "Archive"
    }
}

/// Everything that is wrong with the structure of a binary program file
pub fn faults(b: &[u8], ext: &str) -> Vec<String> {
    let mut f = vec![];
    let ml = if ext == "8xp" { 19 } else { 17 };
    if b.len() < 55 + ml + 2 {
        return vec![format!("only {} bytes", b.len())];
    }
    let u16at = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]) as usize;
    let body = b.len() - 55 - ml - 2;
    let sig = &b[0..8];
    if ![&b"**TI83F*"[..], b"**TI83**", b"**TI82**"].contains(&sig) {
        f.push(format!("signature {}", hex(sig)));
    }
    if b[8..10] != [0x1A, 0x0A] {
        f.push(format!("signature extra {}", hex(&b[8..10])));
    }
    zero_padded(&b[11..53], "comment", &mut f);
    if u16at(53) != ml + body {
        f.push(format!("header length {} but metadata and body have {}", u16at(53), ml + body));
    }
    let m = &b[55..55 + ml];
    let flag = if ml == 19 { 0x0D } else { 0x0B };
    if m[0] != flag || m[1] != 0 {
        f.push(format!("metadata starts with {}", hex(&m[0..2])));
    }
    if u16at(57) != body + 2 {
        f.push(format!("metadata length {} but body and checksum have {}", u16at(57), body + 2));
    }
    if !TYPES.contains(&m[4]) {
        f.push(format!("file type {:02X}", m[4]));
    }
    zero_padded(&m[5..13], "name", &mut f);
    let rest = if ml == 19 {
        if !DESTS.contains(&m[14]) {
            f.push(format!("destination {:02X}", m[14]));
        }
        15
    } else {
        13
    };
    if u16at(55 + rest) != body + 2 {
        f.push(format!("second metadata length {} but body and checksum have {}", u16at(55 + rest), body + 2));
    }
    if u16at(57 + rest) != body {
        f.push(format!("body length {} but body has {}", u16at(57 + rest), body));
    }
    let c = sum(&[&b[55..b.len() - 2]]);
    if u16at(b.len() - 2) != c as usize {
        f.push(format!("checksum {:04X} but the bytes sum to {:04X}", u16at(b.len() - 2), c));
    }
    f
}
use crate::util::hex;

fn zero_padded(b: &[u8], what: &str, f: &mut Vec<String>) {
    let n = b.iter().position(|x| *x == 0).unwrap_or(b.len());
    if b[n..].iter().any(|x| *x != 0) {
        f.push(format!("{what} not zero-padded: {}", hex(b)));
    }
}

/// Parses a well-formed file
pub fn parse(b: &[u8], ext: &str) -> Result<Prog, String> {
    let f = faults(b, ext);
    if !f.is_empty() {
        return Err(f.join("; "));
    }
    let ml = if ext == "8xp" { 19 } else { 17 };
    let strip = |s: &[u8]| s.iter().copied().take_while(|x| *x != 0).collect::<Vec<u8>>();
    Ok(Prog {
        sig: String::from_utf8_lossy(&b[0..8]).to_string(),
        product: b[10],
        comment: strip(&b[11..53]),
        ftype: b[59],
        name: strip(&b[60..68]),
        version: if ml == 19 { b[68] } else { 0 },
        dest: if ml == 19 { b[69] } else { 0 },
        body: b[55 + ml..b.len() - 2].to_vec(),
    })
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Txt {
    pub name: String,
    pub comment: String,
    pub ftype: String,
    pub dest: String,
    pub mode: String,
    pub model: String,
    pub body: String,
}

impl Txt {
    pub fn new(name: &str, mode: usize, model: &str, body: &str) -> Txt {
        Txt {
            name: name.into(),
            comment: "c".into(),
            ftype: "Program".into(),
            dest: "RAM".into(),
            mode: MODES[mode].into(),
            model: model.into(),
            body: body.into(),
        }
    }
    pub fn text(&self) -> String {
        let mut s = format!(
            "{}\n{}\n{}\n{}\n{}\n{}\n{}",
            self.name, self.comment, self.ftype, self.dest, self.mode, self.model, self.body
        );
        // a final line break only ends the last line
        if self.body.ends_with('\n') {
            s.push('\n')
        }
        s
    }
    pub fn parse(b: &[u8]) -> Result<Txt, String> {
        let s = std::str::from_utf8(b).map_err(|e| e.to_string())?;
        let mut it = s.splitn(7, '\n');
        let mut n = || it.next().map(|x| x.to_string());
        let t = Txt {
            name: n().ok_or("no name")?,
            comment: n().ok_or("no comment")?,
            ftype: n().ok_or("no type")?,
            dest: n().ok_or("no destination")?,
            mode: n().ok_or("no display mode")?,
            model: n().ok_or("no model")?,
            body: n().unwrap_or_default(),
        };
        let mut t = t;
        if t.body.ends_with('\n') {
            t.body.pop();
        }
        Ok(t)
    }
}
