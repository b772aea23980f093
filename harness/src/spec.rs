//! The frozen token sheet and the reference tokenizer. Independent of /repo.
use std::collections::{BTreeMap, HashMap};

pub const PRETTY: usize = 0;
pub const ACCESSIBLE: usize = 1;
pub const TI: usize = 2;
pub const MODES: [&str; 3] = ["pretty", "accessible", "ti"];

#[derive(Clone, Debug)]
pub struct Row {
    pub key: Vec<u8>,
    pub since: (String, String),
    pub until: Option<(String, String)>,
    pub text: [String; 3],
}

pub fn unesc(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => r.push('\n'),
                Some('t') => r.push('\t'),
                Some('r') => r.push('\r'),
                Some(x) => r.push(x),
                None => {}
            }
        } else {
            r.push(c)
        }
    }
    r
}

pub fn rows() -> Vec<Row> {
    include_str!("../../spec/tokens.tsv")
        .lines()
        .map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            assert_eq!(f.len(), 8);
            let h = f[0];
            Row {
                key: (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(),
                since: (f[1].into(), f[2].into()),
                until: if f[3] == "-" { None } else { Some((f[3].into(), f[4].into())) },
                text: [unesc(f[5]), unesc(f[6]), unesc(f[7])],
            }
        })
        .collect()
}

/// (name, generation, signature, product id, language)
pub const MODELS: [(&str, u32, &str, u8, &str); 25] = [
    ("TI-82", 10, "**TI82**", 0x00, "en"),
    ("TI-83", 20, "**TI83**", 0x00, "en"),
    ("TI-82ST", 20, "**TI83**", 0x00, "en"),
    ("TI-82ST.fr", 20, "**TI83**", 0x00, "fr"),
    ("TI-76.fr", 20, "**TI83**", 0x00, "fr"),
    ("TI-83+", 30, "**TI83F*", 0x04, "en"),
    ("TI-83+SE", 30, "**TI83F*", 0x04, "en"),
    ("TI-83+.fr", 30, "**TI83F*", 0x04, "fr"),
    ("TI-82+", 30, "**TI83F*", 0x04, "fr"),
    ("TI-84+", 40, "**TI83F*", 0x0A, "en"),
    ("TI-84+SE", 40, "**TI83F*", 0x0A, "en"),
    ("TI-83+.fr:USB", 40, "**TI83F*", 0x0A, "fr"),
    ("TI-84P.fr", 40, "**TI83F*", 0x0A, "fr"),
    ("TI-84+PSE", 40, "**TI83F*", 0x0A, "en"),
    ("TI-82A", 45, "**TI83F*", 0x0B, "fr"),
    ("TI-84+T", 45, "**TI83F*", 0x1B, "en"),
    ("TI-84+CSE", 50, "**TI83F*", 0x0F, "en"),
    ("TI-84+CE", 60, "**TI83F*", 0x13, "en"),
    ("TI-84+CET", 60, "**TI83F*", 0x13, "en"),
    ("TI-83PCE", 60, "**TI83F*", 0x13, "fr"),
    ("TI-83PCEEP", 60, "**TI83F*", 0x13, "fr"),
    ("TI-84+CEPY", 60, "**TI83F*", 0x13, "en"),
    ("TI-84+CETPE", 60, "**TI83F*", 0x13, "en"),
    ("TI-82AEP", 60, "**TI83F*", 0x00, "fr"),
    ("latest", 9999999, "**TI83F*", 0x00, "en"),
];

/// What a program file identifies: (signature, product id) -> model as the tool names it
pub const FILE_MODELS: [(&str, u8, &str); 9] = [
    ("**TI83F*", 0x00, "latest"),
    ("**TI83F*", 0x04, "TI-83+"),
    ("**TI83F*", 0x0A, "TI-84+"),
    ("**TI83F*", 0x0B, "TI-82A"),
    ("**TI83F*", 0x0F, "TI-84+CSE"),
    ("**TI83F*", 0x13, "TI-84+CE"),
    ("**TI83F*", 0x1B, "TI-84+T"),
    ("**TI82**", 0x00, "TI-82"),
    ("**TI83**", 0x00, "TI-83"),
];

/// One model per token table
pub const GENERATIONS: [&str; 8] = ["latest", "TI-84+CE", "TI-84+CSE", "TI-84+T", "TI-84+", "TI-83+", "TI-83", "TI-82"];

pub fn model(name: &str) -> (&'static str, u32, &'static str, u8, &'static str) {
    *MODELS.iter().find(|m| m.0 == name).unwrap_or_else(|| panic!("no model {name}"))
}

pub fn order(name: &str) -> u32 {
    model(name).1
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Clone)]
pub enum Ver {
    None,
    Num(Vec<u32>),
    Latest,
}
pub fn ver(s: &str) -> Ver {
    match s {
        "" => Ver::None,
        "latest" => Ver::Latest,
        _ => Ver::Num(s.split('.').map(|x| x.parse().unwrap_or(0)).collect()),
    }
}
pub type Os = (u32, Ver);
pub fn os(model: &str, version: &str) -> Os {
    (order(model), ver(version))
}

/// The tokens of a model and OS version
pub fn tokens_of(rows: &[Row], target: &Os) -> BTreeMap<Vec<u8>, [String; 3]> {
    let mut m = BTreeMap::new();
    for r in rows {
        if os(&r.since.0, &r.since.1) <= *target
            && r.until.as_ref().map_or(true, |u| os(&u.0, &u.1) >= *target)
        {
            m.insert(r.key.clone(), r.text.clone());
        }
    }
    m
}

pub struct Table {
    pub model: &'static str,
    pub tokens: BTreeMap<Vec<u8>, [String; 3]>,
}

impl Table {
    pub fn new(name: &'static str) -> Table {
        Table { model: name, tokens: tokens_of(&rows(), &os(name, "latest")) }
    }

    /// The decoded text, or None if the body is not a token sequence of this model
    pub fn decode(&self, body: &[u8], mode: usize) -> Option<String> {
        self.split(body).map(|ts| ts.iter().map(|k| self.tokens[k][mode].as_str()).collect())
    }

    pub fn split(&self, body: &[u8]) -> Option<Vec<Vec<u8>>> {
        let mut r = vec![];
        let mut i = 0;
        while i < body.len() {
            let n = if self.tokens.contains_key(&body[i..i + 1]) {
                1
            } else if i + 2 <= body.len() && self.tokens.contains_key(&body[i..i + 2]) {
                2
            } else {
                return None;
            };
            r.push(body[i..i + n].to_vec());
            i += n;
        }
        Some(r)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Enc {
    Min,
    Max,
    Smart,
}
impl Enc {
    pub fn arg(self) -> &'static str {
        match self {
            Enc::Min => "min",
            Enc::Max => "max",
            Enc::Smart => "smart",
        }
    }
}

/// Trie over the texts of one table in one display mode
pub struct Trie {
    next: Vec<HashMap<u8, u32>>,
    /// smallest key with this text
    accept: Vec<Option<Vec<u8>>>,
    pub texts: Vec<(Vec<u8>, String)>,
}

pub fn key_string(k: &[u8]) -> String {
    k.iter().map(|b| format!("${b:02X}")).collect::<String>() + " en"
}

impl Trie {
    pub fn new(t: &Table, mode: usize) -> Trie {
        let mut tr = Trie { next: vec![HashMap::new()], accept: vec![None], texts: vec![] };
        for (k, x) in &t.tokens {
            let s = &x[mode];
            assert!(!s.is_empty());
            tr.texts.push((k.clone(), s.clone()));
            let mut n = 0u32;
            for b in s.bytes() {
                n = match tr.next[n as usize].get(&b) {
                    Some(x) => *x,
                    None => {
                        tr.next.push(HashMap::new());
                        tr.accept.push(None);
                        let x = (tr.next.len() - 1) as u32;
                        tr.next[n as usize].insert(b, x);
                        x
                    }
                };
            }
            let a = &mut tr.accept[n as usize];
            if a.as_ref().map_or(true, |o| key_string(k) < key_string(o)) {
                *a = Some(k.clone())
            }
        }
        tr
    }

    /// whether the path `s` in the trie has a child for the byte
    pub fn continues(&self, s: &[u8], b: u8) -> bool {
        let mut n = 0usize;
        for x in s {
            n = match self.next[n].get(x) {
                Some(x) => *x as usize,
                None => return false,
            }
        }
        self.next[n].contains_key(&b)
    }

    pub fn longest(&self, s: &[u8]) -> Option<(&[u8], usize)> {
        let mut n = 0usize;
        let mut best = None;
        for (i, b) in s.iter().enumerate() {
            match self.next[n].get(b) {
                Some(x) => n = *x as usize,
                None => break,
            }
            if let Some(k) = &self.accept[n] {
                best = Some((k.as_slice(), i + 1))
            }
        }
        best
    }

    pub fn shortest(&self, s: &[u8]) -> Option<(&[u8], usize)> {
        let mut n = 0usize;
        for (i, b) in s.iter().enumerate() {
            n = *self.next[n].get(b)? as usize;
            if let Some(k) = &self.accept[n] {
                return Some((k.as_slice(), i + 1));
            }
        }
        None
    }

    /// Consumes everything of `s` that is decided whatever follows; the rest is a path in the trie that could
    /// still become a longer token. None: no token can match at some position.
    pub fn advance_longest<'a>(&self, mut s: &'a [u8]) -> Option<&'a [u8]> {
        'outer: while !s.is_empty() {
            let mut n = 0usize;
            let mut best = 0;
            for (i, b) in s.iter().enumerate() {
                match self.next[n].get(b) {
                    Some(x) => n = *x as usize,
                    None => {
                        if best == 0 {
                            return None;
                        }
                        s = &s[best..];
                        continue 'outer;
                    }
                }
                if self.accept[n].is_some() {
                    best = i + 1
                }
            }
            // all of s is a path in the trie
            if self.next[n].is_empty() {
                return Some(&s[best..]);
            }
            return Some(s);
        }
        Some(s)
    }

    pub fn advance_shortest<'a>(&self, mut s: &'a [u8]) -> Option<&'a [u8]> {
        'outer: while !s.is_empty() {
            let mut n = 0usize;
            for (i, b) in s.iter().enumerate() {
                n = *self.next[n].get(b)? as usize;
                if self.accept[n].is_some() {
                    s = &s[i + 1..];
                    continue 'outer;
                }
            }
            return Some(s);
        }
        Some(s)
    }
}

/// One encoded token: key and its text
pub type Seg = (Vec<u8>, String);

pub fn normalize(s: &str) -> String {
    s.replace('\u{0398}', "θ").replace('\u{03F4}', "θ").replace('\u{1DBF}', "θ")
}

pub fn is_name_key(k: &[u8]) -> bool {
    k.len() == 1 && ((0x41..=0x5B).contains(&k[0]) || (0x30..=0x39).contains(&k[0]))
}

/// Max and min: longest / shortest match at every position of every line. Err: the rest that has no match.
pub fn encode_greedy(tr: &Trie, text: &str, max: bool) -> Result<Vec<Seg>, String> {
    let mut r = vec![];
    let text = normalize(text);
    for (i, line) in text.split('\n').enumerate() {
        if i > 0 {
            r.push((vec![0x3F], "\n".to_string()))
        }
        let mut s = line;
        while !s.is_empty() {
            let m = if max { tr.longest(s.as_bytes()) } else { tr.shortest(s.as_bytes()) };
            match m {
                Some((k, n)) => {
                    r.push((k.to_vec(), s[..n].to_string()));
                    s = &s[n..]
                }
                None => return Err(s.to_string()),
            }
        }
    }
    Ok(r)
}

/// Smart mode as documented (wiki/encoding.md): longest tokens, except shortest tokens between quotes and single
/// characters in the names after prgm and the list marker.
pub fn encode_smart(tr: &Trie, text: &str) -> Result<Vec<Seg>, String> {
    let mut r = vec![];
    let text = normalize(text);
    for (i, line) in text.split('\n').enumerate() {
        if i > 0 {
            r.push((vec![0x3F], "\n".to_string()))
        }
        let mut s = line;
        let mut quoted = false;
        let mut name = false;
        while !s.is_empty() {
            let short = tr.shortest(s.as_bytes());
            if name && !short.is_some_and(|(k, _)| is_name_key(k)) {
                name = false
            }
            let m = if quoted || name { short } else { tr.longest(s.as_bytes()) };
            let (k, n) = match m {
                Some(x) => x,
                None => return Err(s.to_string()),
            };
            match k {
                [0x2A] => {
                    quoted = !quoted;
                    name = false
                }
                [0x04] => {
                    quoted = false;
                    name = false
                }
                [0x5F] | [0xEB] => name = true,
                _ => {}
            }
            r.push((k.to_vec(), s[..n].to_string()));
            s = &s[n..]
        }
    }
    Ok(r)
}

/// Smart mode with the two recorded deviations (known findings of C05, pinned by the repository's fixtures):
///  K1 quotes switch to the shortest tokens when they close as well as when they open
///  K2 a token that is not purely alphabetic ends the shortest-token context
pub fn encode_smart_recorded(tr: &Trie, text: &str) -> Result<Vec<Seg>, String> {
    encode_smart_with(tr, text, true, true)
}

pub fn encode_smart_with(tr: &Trie, text: &str, k1: bool, k2: bool) -> Result<Vec<Seg>, String> {
    let mut r = vec![];
    let text = normalize(text);
    for (i, line) in text.split('\n').enumerate() {
        if i > 0 {
            r.push((vec![0x3F], "\n".to_string()))
        }
        let mut s = line;
        let (mut short, mut quoted, mut name) = (false, false, false);
        while !s.is_empty() {
            let mut m = if short { tr.shortest(s.as_bytes()) } else { tr.longest(s.as_bytes()) };
            if name && !m.is_some_and(|(k, _)| is_name_key(k)) {
                name = false;
                short = quoted;
                m = if short { tr.shortest(s.as_bytes()) } else { tr.longest(s.as_bytes()) };
            }
            let (k, n) = match m {
                Some(x) => x,
                None => return Err(s.to_string()),
            };
            let v = &s[..n];
            match k {
                [0x5F] | [0xEB] => {
                    name = true;
                    short = true
                }
                [0x2A] => {
                    quoted = !quoted;
                    short = quoted || k1
                }
                [0x04] => {
                    quoted = false;
                    name = false;
                    short = false
                }
                _ => {
                    if k2 && !name && !v.chars().all(|c| c.is_ascii_alphabetic()) {
                        quoted = false;
                        short = false
                    }
                }
            }
            r.push((k.to_vec(), v.to_string()));
            s = &s[n..]
        }
    }
    Ok(r)
}

pub fn encode_ref(tr: &Trie, text: &str, e: Enc) -> Result<Vec<Seg>, String> {
    match e {
        Enc::Max => encode_greedy(tr, text, true),
        Enc::Min => encode_greedy(tr, text, false),
        Enc::Smart => encode_smart_recorded(tr, text),
    }
}

pub fn bytes_of(s: &[Seg]) -> Vec<u8> {
    s.iter().flat_map(|x| x.0.clone()).collect()
}
pub fn texts_of(s: &[Seg]) -> Vec<&str> {
    s.iter().map(|x| x.1.as_str()).collect()
}

pub fn definitions() -> BTreeMap<String, Vec<(String, String)>> {
    let mut m: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
    for l in include_str!("../../spec/definitions.tsv").lines() {
        let f: Vec<&str> = l.split('\t').collect();
        m.entry(f[0].to_string()).or_default().push((unesc(f[2]), unesc(f[3])));
    }
    m
}
