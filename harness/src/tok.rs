//! C01 text fidelity, C02 decoding, C04 max/min, C05 smart: the tokenizer's automata.
use crate::fmt::*;
use crate::spec::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

/// Reachable residual states of the greedy tokenizer when texts of tokens are concatenated.
/// A state is the text that is not decided yet; every edge appends the text of one token.
pub struct Automaton {
    pub states: Vec<Vec<u8>>,
    /// (predecessor, token index) of the shortest witness
    pub pred: Vec<Option<(usize, usize)>>,
    /// successor state per (state, token), None: some position has no match whatever follows
    pub next: Vec<Vec<Option<u32>>>,
    pub tokens: Vec<(Vec<u8>, String)>,
}

impl Automaton {
    pub fn explore(tr: &Trie, max: bool) -> Automaton {
        let tokens: Vec<(Vec<u8>, String)> = tr.texts.iter().filter(|t| !t.1.contains('\n')).cloned().collect();
        let mut a = Automaton { states: vec![vec![]], pred: vec![None], next: vec![], tokens };
        let mut id: HashMap<Vec<u8>, u32> = HashMap::new();
        id.insert(vec![], 0);
        let mut q = VecDeque::from([0usize]);
        while let Some(i) = q.pop_front() {
            let mut row = Vec::with_capacity(a.tokens.len());
            for t in 0..a.tokens.len() {
                let mut s = a.states[i].clone();
                s.extend(a.tokens[t].1.as_bytes());
                let r = if max { tr.advance_longest(&s) } else { tr.advance_shortest(&s) };
                row.push(r.map(|r| match id.get(r) {
                    Some(x) => *x,
                    None => {
                        let x = a.states.len() as u32;
                        a.states.push(r.to_vec());
                        a.pred.push(Some((i, t)));
                        id.insert(r.to_vec(), x);
                        q.push_back(x as usize);
                        x
                    }
                }));
            }
            a.next.push(row);
        }
        a
    }
    pub fn witness(&self, mut s: usize) -> Vec<usize> {
        let mut v = vec![];
        while let Some((p, t)) = self.pred[s] {
            v.push(t);
            s = p
        }
        v.reverse();
        v
    }
    pub fn text(&self, w: &[usize]) -> String {
        w.iter().map(|t| self.tokens[*t].1.as_str()).collect()
    }
}

pub fn stats() {
    for g in GENERATIONS {
        let t = Table::new(g);
        for mode in 0..3 {
            let tr = Trie::new(&t, mode);
            for max in [true, false] {
                let a = Automaton::explore(&tr, max);
                let n: usize = a.next.iter().map(|r| r.len()).sum();
                let stuck: usize = a.next.iter().map(|r| r.iter().filter(|x| x.is_none()).count()).sum();
                // stuck at the end of the line
                let mut eol = 0;
                for s in 0..a.states.len() {
                    if encode_greedy(&tr, &a.text(&a.witness(s)), max).is_err() {
                        eol += 1
                    }
                }
                println!("{g} {} max={max}: tokens {} states {} transitions {n} stuck {stuck} stuck-at-eol {eol}", MODES[mode], t.tokens.len(), a.states.len());
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------------
// Replaying lines on the implementation

pub struct Cfg<'a> {
    pub table: &'a Table,
    pub trie: &'a Trie,
    pub mode: usize,
    pub enc: Enc,
}

impl Cfg<'_> {
    fn name(&self) -> String {
        format!("{} {} {}", self.table.model, MODES[self.mode], self.enc.arg())
    }
    fn txt(&self, lines: &[String]) -> Txt {
        Txt::new("T", self.mode, self.table.model, &lines.join("\n"))
    }
    fn args(&self) -> Vec<&str> {
        vec!["convert", "x.txt", "-e", self.enc.arg(), "-o", "y.8xp"]
    }
    fn replay(&self, lines: &[String], what: &str, back: bool) -> String {
        let mut r = Replay::new(what).file("x.txt", self.txt(lines).text().as_bytes()).cmd(&self.args(), b"");
        if back {
            r = r.cmd(&["convert", "y.8xp", "-d", MODES[self.mode], "-o", "z.txt"], b"")
        }
        r.end()
    }
}

/// Encodes the lines as one program. Err: what went wrong.
fn encode_real(ctx: &Ctx, c: &Cfg, lines: &[String], d: &Scratch) -> Result<Vec<u8>, String> {
    d.write("x.txt", c.txt(lines).text());
    let o = ctx.run(&c.args(), b"", &d.0);
    if o.crashed() {
        return Err(format!("crash or hang (status {}): {}", o.code, o.se().trim()));
    }
    match d.read("y.8xp") {
        None => Err(format!("rejected (status {}): {}", o.code, o.se().trim())),
        Some(_) if o.code != 0 => Err(format!("failure status {} but a file was written", o.code)),
        Some(b) if b.len() < 76 => Err(format!("only {} bytes written", b.len())),
        Some(b) => Ok(b[74..b.len() - 2].to_vec()),
    }
}

fn decode_real(ctx: &Ctx, c: &Cfg, d: &Scratch) -> Result<String, String> {
    let o = ctx.run(&["convert", "y.8xp", "-d", MODES[c.mode], "-o", "z.txt"], b"", &d.0);
    if o.crashed() {
        return Err(format!("crash or hang (status {}): {}", o.code, o.se().trim()));
    }
    match d.read("z.txt") {
        None => Err(format!("the encoded program can not be decoded (status {}): {}", o.code, o.se().trim())),
        Some(b) => Ok(Txt::parse(&b)?.body),
    }
}

/// Finds a small set of lines that still fails
fn minimize(lines: &[String], fails: &dyn Fn(&[String]) -> Option<String>, first: String) -> (Vec<String>, String) {
    let mut cur = lines.to_vec();
    let mut why = first;
    let mut budget = 200;
    let mut chunk = cur.len().div_ceil(2);
    while cur.len() > 1 && budget > 0 {
        // keep only one chunk, else remove one chunk
        let mut changed = false;
        let parts: Vec<Vec<String>> = cur.chunks(chunk).map(|x| x.to_vec()).collect();
        for (i, p) in parts.iter().enumerate() {
            let rest: Vec<String> = parts.iter().enumerate().filter(|(j, _)| *j != i).flat_map(|(_, x)| x.clone()).collect();
            for cand in [p.clone(), rest] {
                if cand.is_empty() || cand.len() >= cur.len() || budget == 0 {
                    continue;
                }
                budget -= 1;
                if let Some(w) = fails(&cand) {
                    cur = cand;
                    why = w;
                    changed = true;
                    break;
                }
            }
            if changed {
                break;
            }
        }
        if changed {
            chunk = cur.len().div_ceil(2);
        } else if chunk == 1 {
            break;
        } else {
            chunk = chunk.div_ceil(2);
        }
    }
    (cur, why)
}

/// Runs a batch; on failure reports a violation with a minimal line set
fn batch(ctx: &Ctx, c: &Cfg, lines: &[String], back: bool, judge: &(dyn Fn(&Cfg, &[String], &Scratch) -> Result<(), String> + Sync)) {
    if ctx.stopped() {
        return;
    }
    let run = |l: &[String]| -> Option<String> {
        let d = ctx.dir();
        judge(c, l, &d).err()
    };
    ctx.trace(lines.len() as u64);
    if let Some(w) = run(lines) {
        let (l, w) = minimize(lines, &run, w);
        // the same lines must fail again, otherwise the outcome is not a function of the input: still a failure
        // of the property for the recorded input, but say so
        let again = if run(&l).is_some() { "" } else { " (not in every run)" };
        let what = format!("[{}] text {:?}: {w}{again}", c.name(), l.join("\n"));
        let r = c.replay(&l, &what, back);
        ctx.violation(what, r);
    }
}

/// Packs lines into programs that fit the file format and runs them
struct Packer<'a, 'b> {
    ctx: &'a Ctx,
    c: &'a Cfg<'b>,
    back: bool,
    judge: &'a (dyn Fn(&Cfg, &[String], &Scratch) -> Result<(), String> + Sync),
    lines: Vec<String>,
    size: usize,
    stuck: Vec<(String, String)>,
}
impl Packer<'_, '_> {
    fn push(&mut self, line: String) {
        match encode_ref(self.c.trie, &line, self.c.enc) {
            Ok(s) => {
                let mut n = 1;
                for x in &s {
                    n += x.0.len()
                }
                // the reference's estimate must hold for both readings of smart mode
                if self.c.enc == Enc::Smart {
                    n = n.max(line.len() * 2 + 1)
                }
                if self.size + n > 60_000 {
                    self.flush()
                }
                self.size += n;
                self.lines.push(line)
            }
            Err(rest) => self.stuck.push((rest, line)),
        }
    }
    fn flush(&mut self) {
        if !self.lines.is_empty() {
            let l = std::mem::take(&mut self.lines);
            batch(self.ctx, self.c, &l, self.back, self.judge);
            self.size = 0;
        }
    }
}

type Judge<'a> = &'a (dyn Fn(&Cfg, &[String], &Scratch) -> Result<(), String> + Sync);

/// Replays every line produced by `gen(chunk)` for all chunks; returns the unencodable lines by remaining text
fn replay_all(ctx: &Ctx, c: &Cfg, chunks: usize, back: bool, judge: Judge, gen: impl Fn(usize, &mut dyn FnMut(String)) + Sync) -> BTreeMap<String, String> {
    let idx: Vec<usize> = (0..chunks).collect();
    let stuck = std::sync::Mutex::new(BTreeMap::<String, String>::new());
    // group chunks so that programs are filled
    let groups: Vec<&[usize]> = idx.chunks(chunks.div_ceil(threads() * 6).max(1)).collect();
    par(ctx, &groups, |g| {
        let mut p = Packer { ctx, c, back, judge, lines: vec![], size: 0, stuck: vec![] };
        for i in g.iter() {
            gen(*i, &mut |l| p.push(l));
        }
        p.flush();
        let mut s = stuck.lock().unwrap();
        for (r, l) in p.stuck {
            let e = s.entry(r).or_insert_with(|| l.clone());
            if l.len() < e.len() {
                *e = l
            }
        }
    });
    stuck.into_inner().unwrap()
}

/// Texts without an encoding must be rejected: failure status, no output, no crash
fn rejected(ctx: &Ctx, c: &Cfg, lines: &[String], alone: bool) {
    par(ctx, lines, |l| {
        // alone, and as the last line of a program whose other lines are fine
        let inner = vec!["A".to_string(), l.clone(), "B".to_string()];
        for pre in if alone { vec![vec![l.clone()], inner] } else { vec![inner] } {
            let d = ctx.dir();
            d.write("x.txt", c.txt(&pre).text());
            let o = ctx.run(&c.args(), b"", &d.0);
            ctx.trace(1);
            let w = if o.crashed() {
                format!("crash or hang (status {})", o.code)
            } else if o.code == 0 {
                "accepted with status 0".to_string()
            } else if d.read("y.8xp").is_some() {
                "failure status but a file was written".to_string()
            } else {
                continue;
            };
            let what = format!("[{}] text {l:?} has no encoding: {w}", c.name());
            ctx.violation(what.clone(), c.replay(&pre, &what, false));
        }
    });
}

/// How many of the transitions of a state are replayed on the implementation
#[derive(Clone, Copy, PartialEq)]
enum Depth {
    /// every token
    All,
    /// every token that continues the undecided text, and one token per other first character
    FirstCharacters,
    /// every token that continues the undecided text, and one that does not
    Continuations,
    /// the state itself
    StateOnly,
}

/// Lines for the transitions of the automaton: the witness of each state, followed by tokens
fn transition_lines(tr: &Trie, a: &Automaton, state: usize, depth: Depth, f: &mut dyn FnMut(String)) {
    let t = a.text(&a.witness(state));
    f(t.clone());
    if state == 0 || depth == Depth::All {
        for x in &a.tokens {
            f(format!("{t}{}", x.1))
        }
        return;
    }
    if depth == Depth::StateOnly {
        return;
    }
    let mut seen = BTreeSet::new();
    let mut other = false;
    for x in &a.tokens {
        if tr.continues(&a.states[state], x.1.as_bytes()[0]) {
            f(format!("{t}{}", x.1))
        } else if depth == Depth::FirstCharacters {
            if seen.insert(x.1.chars().next()) {
                f(format!("{t}{}", x.1))
            }
        } else if !other {
            other = true;
            f(format!("{t}{}", x.1))
        }
    }
}

fn expected_text(c: &Cfg, lines: &[String]) -> String {
    let t = normalize(&lines.join("\n"));
    if c.mode == TI {
        // the line break token's text in this display mode
        t.replace('\n', &c.table.tokens[&vec![0x3Fu8]][TI])
    } else {
        t
    }
}

fn judge_fidelity(ctx: &Ctx) -> impl Fn(&Cfg, &[String], &Scratch) -> Result<(), String> + Sync + '_ {
    |c, l, d| {
        encode_real(ctx, c, l, d)?;
        let t = decode_real(ctx, c, d)?;
        let e = expected_text(c, l);
        if t != e {
            return Err(format!("comes back as {}", difference(&e, &t)));
        }
        Ok(())
    }
}

pub fn difference(e: &str, g: &str) -> String {
    let (a, b): (Vec<char>, Vec<char>) = (e.chars().collect(), g.chars().collect());
    let i = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let cut = |v: &[char]| v[i.saturating_sub(10).min(v.len())..(i + 30).min(v.len())].iter().collect::<String>();
    format!("{:?} instead of {:?} (at character {i})", cut(&b), cut(&a))
}

fn tables(ctx: &Ctx) -> Vec<Table> {
    let _ = ctx;
    GENERATIONS.iter().map(|g| Table::new(g)).collect()
}

/// The characters of the texts of the tokens
fn characters(tr: &Trie) -> Vec<char> {
    tr.texts.iter().flat_map(|x| x.1.chars()).filter(|c| !['\n', '\r'].contains(c)).collect::<BTreeSet<_>>().into_iter().collect()
}

/// All ordered pairs of tokens whose joined text is not tokenized as the two tokens
fn ambiguous_pairs(tr: &Trie, a: &Automaton) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for i in 0..a.tokens.len() {
        for j in 0..a.tokens.len() {
            let s = format!("{}{}", a.tokens[i].1, a.tokens[j].1);
            let n = a.tokens[i].1.len();
            if tr.longest(s.as_bytes()).map(|x| x.1) != Some(n) {
                v.push((i, j))
            }
        }
    }
    v
}

fn walk(ctx: &Ctx, judge: Judge, encs: &[Enc], back: bool, check_rejected: bool) {
    for t in &tables(ctx) {
        for mode in [ACCESSIBLE, PRETTY, TI] {
            let trie = Trie::new(t, mode);
            let a = Automaton::explore(&trie, true);
            let b = Automaton::explore(&trie, false);
            let pairs = ambiguous_pairs(&trie, &a);
            ctx.state((a.states.len() + b.states.len()) as u64);
            ctx.transition((a.states.len() * a.tokens.len() + b.states.len() * b.tokens.len()) as u64);
            for &enc in encs {
                if ctx.stopped() {
                    return;
                }
                let c = Cfg { table: t, trie: &trie, mode, enc };
                let primary = t.model == "latest" && mode == ACCESSIBLE;
                let depth = match (ctx.thorough, enc) {
                    (true, Enc::Max) => Depth::All,
                    (true, Enc::Smart) if primary => Depth::All,
                    (true, _) => Depth::FirstCharacters,
                    (false, Enc::Max) if primary => Depth::FirstCharacters,
                    (false, Enc::Max) => Depth::Continuations,
                    (false, Enc::Smart) if primary => Depth::Continuations,
                    (false, _) => Depth::StateOnly,
                };
                let all = depth == Depth::All;
                let n = a.states.len();
                let m = b.states.len();
                let k = pairs.len().div_ceil(2000);
                let chars = characters(&trie);
                // all strings of two characters, and of three for the most used tables
                let triples = if ctx.thorough { mode != TI } else { primary && (!back || enc == Enc::Max) };
                let before = ctx.traces.load(std::sync::atomic::Ordering::Relaxed);
                let stuck = replay_all(ctx, &c, n + m + k + chars.len(), back, judge, |i, f| {
                    if i < n {
                        transition_lines(&trie, &a, i, depth, f)
                    } else if i < n + m {
                        transition_lines(&trie, &b, i - n, depth, f)
                    } else if i >= n + m + k {
                        let a = chars[i - n - m - k];
                        f(a.to_string());
                        for b in &chars {
                            f(format!("{a}{b}"));
                            if triples && a.is_ascii() && b.is_ascii() {
                                for x in chars.iter().filter(|x| x.is_ascii()) {
                                    f(format!("{a}{b}{x}"))
                                }
                            }
                        }
                    } else {
                        for (x, y) in &pairs[(i - n - m) * 2000..((i - n - m + 1) * 2000).min(pairs.len())] {
                            f(format!("{}{}", a.tokens[*x].1, a.tokens[*y].1))
                        }
                    }
                });
                // long lines: every token many times in a row, and all tokens in one line in several orders
                let times = if primary { 300 } else { 40 };
                replay_all(ctx, &c, a.tokens.len() + 16, back, judge, |i, f| {
                    if let Some(t) = a.tokens.get(i) {
                        if primary || ctx.thorough || i % 8 == 0 {
                            f(t.1.repeat(times))
                        }
                    } else {
                        let stride = [1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47][i - a.tokens.len()];
                        if primary || ctx.thorough || stride < 6 {
                            let n = a.tokens.len();
                            f((0..n).map(|x| a.tokens[x * stride % n].1.as_str()).collect())
                        }
                    }
                });
                let after = ctx.traces.load(std::sync::atomic::Ordering::Relaxed);
                ctx.note(&format!("replayed [{}]", c.name()), format!("{} lines{}, {} distinct unencodable remainders", after - before, if all { " (every transition)" } else { "" }, stuck.len()));
                if check_rejected {
                    let mut l: Vec<String> = stuck.into_values().collect();
                    l.sort_by_key(|x| (x.len(), x.clone()));
                    if !ctx.thorough && enc != Enc::Smart {
                        l.truncate(60)
                    }
                    rejected(ctx, &c, &l, true);
                }
            }
            if mode == ACCESSIBLE && order(t.model) >= 30 {
                // claim: every text of accessible tokens is encodable
                let s: usize = [&a, &b].iter().map(|x| x.next.iter().flatten().filter(|x| x.is_none()).count()).sum();
                ctx.note(&format!("stuck transitions [{} accessible]", t.model), s as u64);
                assert_eq!(s, 0, "machinery: the frozen token sheet has unencodable texts");
            }
        }
    }
}

pub fn c01(ctx: &Ctx) {
    ctx.sample("each trace: lines -> convert -e ENC -o y.8xp -> convert -d MODE -o z.txt; the text must be the same");
    let j = judge_fidelity(ctx);
    let encs = [Enc::Max, Enc::Smart, Enc::Min];
    // look-alikes of theta and texts that cannot be encoded in any mode
    for t in &tables(ctx) {
        for mode in [ACCESSIBLE, PRETTY, TI] {
            let trie = Trie::new(t, mode);
            for enc in encs {
                let c = Cfg { table: t, trie: &trie, mode, enc };
                if mode == PRETTY {
                    let l: Vec<String> = ["Θ", "ϴ", "ᶿ", "θ", "AΘ", "ΘA", "prgmΘA", "\"Θϴ", "ᶿᶿ→Θ"].iter().map(|x| x.to_string()).collect();
                    let l = l.into_iter().filter(|x| encode_ref(&trie, x, enc).is_ok()).collect::<Vec<_>>();
                    batch(ctx, &c, &l, true, &j);
                }
                if mode != TI {
                    let bad: Vec<String> = ["\u{1}", "A\u{1F600}", "\t", "\u{FEFF}A", "\u{2028}", "Disp \u{0}", "é\u{301}\u{301}x\u{7}"]
                        .iter()
                        .map(|x| x.to_string())
                        .filter(|x| encode_ref(&trie, x, enc).is_err())
                        .collect();
                    rejected(ctx, &c, &bad, true);
                }
            }
        }
    }
    // every character that no token has must be rejected wherever it stands
    for t in &tables(ctx) {
        for mode in [ACCESSIBLE, PRETTY] {
            if ctx.stopped() || !ctx.thorough && t.model != "latest" {
                break;
            }
            let trie = Trie::new(t, mode);
            let full = ctx.thorough && t.model == "latest";
            let l: Vec<String> = (1u32..0x2_0000)
                .filter(|x| full || [0..0x600, 0x1D00..0x2000, 0x2000..0x2C00, 0x3000..0x3040, 0xFB00..0xFB10, 0xFE00..0xFF00, 0xFF00..0xFFFF, 0x1D400..0x1D420, 0x1F600..0x1F610].iter().any(|r| r.contains(x)))
                .filter_map(char::from_u32)
                .filter(|x| !['\n', '\r'].contains(x))
                .flat_map(|x| {
                    let mut v = vec![format!("A{x}B")];
                    // what text functions like to strip or join
                    if x.is_whitespace() || x.is_control() || !x.is_alphanumeric() && !x.is_ascii() {
                        v.extend([format!("{x}A"), format!("A{x}"), x.to_string()])
                    }
                    v
                })
                .filter(|x| encode_ref(&trie, x, Enc::Max).is_err())
                .collect();
            ctx.note_add("texts with characters no token has", l.len() as u64);
            let encs: &[Enc] = if full { &encs } else { &encs[..1] };
            for &enc in encs {
                let c = Cfg { table: t, trie: &trie, mode, enc };
                let l: Vec<String> = l.iter().filter(|x| encode_ref(&trie, x, enc).is_err()).cloned().collect();
                rejected(ctx, &c, &l, ctx.thorough);
            }
        }
    }
    // white space at the edges of the program
    for t in &tables(ctx) {
        for mode in [ACCESSIBLE, PRETTY] {
            let trie = Trie::new(t, mode);
            for enc in encs {
                let c = Cfg { table: t, trie: &trie, mode, enc };
                let edges: Vec<Vec<String>> = [" A", "A ", " ", "   ", "  A  ", " \n", "\n ", " \n ", "\n A\n ", "A \n", "A\n\n ", "  \n  \nA"]
                    .iter()
                    .map(|x| x.split('\n').map(|x| x.to_string()).collect::<Vec<_>>())
                    .filter(|x| x.iter().all(|l| encode_ref(&trie, l, enc).is_ok()))
                    .collect();
                par(ctx, &edges, |l| batch(ctx, &c, l, true, &j));
            }
        }
    }
    // every short arrangement of lines, spaces and a token
    for t in &tables(ctx) {
        for mode in [ACCESSIBLE, PRETTY] {
            if ctx.stopped() || !ctx.thorough && (t.model != "latest" || mode != ACCESSIBLE) {
                continue;
            }
            let trie = Trie::new(t, mode);
            for enc in encs {
                let c = Cfg { table: t, trie: &trie, mode, enc };
                let max = if enc == Enc::Max && t.model == "latest" { 6 } else { 5 };
                let mut l: Vec<String> = vec![String::new()];
                let mut all = l.clone();
                for _ in 0..max {
                    l = l.iter().flat_map(|x| ["A", " ", "\n"].map(|y| format!("{x}{y}"))).collect();
                    all.extend(l.clone());
                }
                for n in max..20 {
                    let e = "\n".repeat(n);
                    all.extend([e.clone(), format!("A{e}A"), format!("{e}A"), format!("A{e}"), format!("A\nA{e}A\nA")]);
                }
                let all: Vec<Vec<String>> = all.iter().map(|x| x.split('\n').map(|x| x.to_string()).collect::<Vec<_>>()).filter(|x| x.iter().all(|l| encode_ref(&trie, l, enc).is_ok())).collect();
                ctx.note_add("arrangements of lines, spaces and a token", all.len() as u64);
                par(ctx, &all, |l| batch(ctx, &c, l, true, &j));
            }
        }
    }
    walk(ctx, &j, &encs, true, true);
}

pub fn c04(ctx: &Ctx) {
    ctx.sample("each trace: lines -> convert -e max|min -o y.8xp; the texts of the written tokens must be the greedy segmentation");
    let j = |c: &Cfg, l: &[String], d: &Scratch| -> Result<(), String> {
        let got = encode_real(ctx, c, l, d)?;
        let want = encode_ref(c.trie, &l.join("\n"), c.enc).map_err(|r| format!("machinery: reference rejects {r:?}"))?;
        if got == bytes_of(&want) {
            return Ok(());
        }
        let g = c.table.split(&got).ok_or_else(|| format!("the written body is not a token sequence: {}", hex(&got[..got.len().min(40)])))?;
        let g: Vec<&str> = g.iter().map(|k| if k == &[0x3F] { "\n" } else { c.table.tokens[k][c.mode].as_str() }).collect();
        let w: Vec<&str> = want.iter().map(|x| if x.0 == [0x3F] { "\n" } else { x.1.as_str() }).collect();
        let i = g.iter().zip(&w).take_while(|(a, b)| a == b).count();
        if g == w {
            return Ok(()); // tokens with the same text
        }
        let cut = |v: &[&str]| v[i.saturating_sub(2).min(v.len())..(i + 6).min(v.len())].iter().map(|x| x.to_string()).collect::<Vec<_>>();
        Err(format!("tokens {:?} instead of {:?}", cut(&g), cut(&w)))
    };
    // blank lines and line-end contexts
    for t in &tables(ctx) {
        for mode in [ACCESSIBLE, PRETTY, TI] {
            let trie = Trie::new(t, mode);
            for enc in [Enc::Max, Enc::Min] {
                let c = Cfg { table: t, trie: &trie, mode, enc };
                for l in [vec![""], vec!["", ""], vec!["", "A", "", "", "B"]] {
                    let l: Vec<String> = l.iter().map(|x| if mode == TI && !x.is_empty() { "41".to_string() } else { x.to_string() }).collect();
                    batch(ctx, &c, &l, false, &j);
                }
            }
        }
    }
    walk(ctx, &j, &[Enc::Max, Enc::Min], false, false);
}


/// The segments of a token list by text; line break tokens that come from line breaks have the text "\n"
fn same_texts(got: &[(Vec<u8>, String)], want: &[Seg], c: &Cfg) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.0 == w.0 || (g.1 == w.1 && w.1 != "\n") || (w.0 == [0x3F] && g.1 == c.table.tokens[&w.0][c.mode]))
}

pub fn c05(ctx: &Ctx) {
    ctx.sample("each trace: lines -> convert -e smart -o y.8xp; the texts of the written tokens must be those of the documented context rules");
    let j = |c: &Cfg, l: &[String], d: &Scratch| -> Result<(), String> {
        let got = encode_real(ctx, c, l, d)?;
        let g = c.table.split(&got).ok_or_else(|| format!("the written body is not a token sequence: {}", hex(&got[..got.len().min(40)])))?;
        let g: Vec<Seg> = g.into_iter().map(|k| { let t = c.table.tokens[&k][c.mode].clone(); (k, t) }).collect();
        let mut i = 0;
        for (n, line) in l.iter().enumerate() {
            if n > 0 {
                if g.get(i).map(|x| &x.0[..]) != Some(&[0x3F]) {
                    return Err(format!("no line break token before line {n}"));
                }
                i += 1
            }
            let last = n + 1 == l.len();
            let fits = |w: &[Seg]| -> bool {
                i + w.len() <= g.len() && same_texts(&g[i..i + w.len()], w, c)
                    && (if last { i + w.len() == g.len() } else { g.get(i + w.len()).is_some_and(|x| x.0 == [0x3F]) })
            };
            let doc = encode_smart(c.trie, line).map_err(|r| format!("machinery: reference rejects {r:?}"))?;
            if fits(&doc) {
                i += doc.len();
                continue;
            }
            let mut ok = false;
            for (k1, k2, id) in [(true, false, "K1"), (false, true, "K2"), (true, true, "K1+K2")] {
                let w = match encode_smart_with(c.trie, line, k1, k2) {
                    Ok(w) => w,
                    Err(_) => continue,
                };
                if fits(&w) {
                    let what = format!("[{}] {line:?} is encoded as {:?} instead of {:?}", c.name(), texts_of(&w), texts_of(&doc));
                    for k in id.split('+') {
                        ctx.known_or_violation(k, what.clone(), || c.replay(&[line.clone()], &what, false));
                    }
                    i += w.len();
                    ok = true;
                    break;
                }
            }
            if !ok {
                let e = g[i..].iter().take_while(|x| x.0 != [0x3F]).take(12).map(|x| x.1.as_str()).collect::<Vec<_>>();
                return Err(format!("line {line:?} is encoded as {e:?} instead of {:?}", texts_of(&doc)));
            }
        }
        if i != g.len() {
            return Err("more tokens than the text has".into());
        }
        Ok(())
    };
    for t in &tables(ctx) {
        for mode in [ACCESSIBLE, PRETTY, TI] {
            if ctx.stopped() {
                return;
            }
            let trie = Trie::new(t, mode);
            let c = Cfg { table: t, trie: &trie, mode, enc: Enc::Smart };
            let txt = |k: &[u8]| t.tokens.get(k).map(|x| x[mode].clone());
            // quote, store, prgm, list marker, A, RED, " and ", "(", 1, Send(, theta, sin(, Str1
            let keys: Vec<Vec<u8>> = [&[0x2A][..], &[0x04], &[0x5F], &[0xEB], &[0x41], &[0xEF, 0x42], &[0x40], &[0x10], &[0x31], &[0xE7], &[0x5B], &[0xC2], &[0xAA, 0x00]]
                .iter().map(|k| k.to_vec()).filter(|k| t.tokens.contains_key(k)).collect();
            let sym: Vec<String> = keys.iter().map(|k| txt(k).unwrap()).collect();
            let primary = t.model == "latest" && mode != TI;
            // lines that some reading of the context rules can not encode are run alone
            let odd = std::sync::Mutex::new(BTreeSet::<String>::new());
            let regular = |l: &str| -> bool {
                let ok = encode_smart(&trie, l).is_ok() && [(true, false), (false, true), (true, true)].iter().all(|k| encode_smart_with(&trie, l, k.0, k.1).is_ok());
                if !ok && l.matches(|_| true).count() > 0 {
                    odd.lock().unwrap().insert(l.to_string());
                }
                ok
            };
            let depth = match (ctx.thorough, primary) {
                (true, true) => 6,
                (true, false) => 5,
                (false, true) => 5,
                (false, false) => 4,
            };
            let n = sym.len();
            // all sequences of up to `depth` symbols
            let chunks = n * n;
            let stuck = replay_all(ctx, &c, chunks, false, &j, |i, f| {
                let pre = [i / n, i % n];
                let f: &mut dyn FnMut(String) = &mut |l| {
                    if regular(&l) {
                        f(l)
                    }
                };
                if i % n == 0 {
                    f(sym[i / n].clone())
                }
                fn go(sym: &[String], cur: &mut String, left: usize, f: &mut dyn FnMut(String)) {
                    f(cur.clone());
                    if left == 0 {
                        return;
                    }
                    for s in sym {
                        let l = cur.len();
                        cur.push_str(s);
                        go(sym, cur, left - 1, f);
                        cur.truncate(l);
                    }
                }
                let mut cur = format!("{}{}", sym[pre[0]], sym[pre[1]]);
                go(&sym, &mut cur, depth - 2, f);
            });
            assert!(stuck.is_empty());
            // every token in every context, followed by something that shows the context after it
            let mut contexts: BTreeSet<String> = BTreeSet::from([String::new()]);
            for a in &keys {
                contexts.insert(txt(a).unwrap());
                for b in &keys {
                    contexts.insert(format!("{}{}", txt(a).unwrap(), txt(b).unwrap()));
                }
            }
            let contexts: Vec<String> = contexts.into_iter().collect();
            let probes: Vec<String> = [&[0xEF, 0x42][..], &[0x04], &[0x40], &[0x41], &[0x2A]].iter().filter_map(|k| txt(k)).collect();
            let full = ctx.thorough || primary;
            let tokens: Vec<&String> = t.tokens.values().map(|x| &x[mode]).filter(|x| !x.contains('\n')).collect();
            let stuck = replay_all(ctx, &c, contexts.len(), false, &j, |i, f| {
                for x in &tokens {
                    let ps: &[String] = if full { &probes } else { &probes[..1] };
                    for p in ps {
                        let l = format!("{}{}{}{}", contexts[i], x, p, p);
                        if regular(&l) {
                            f(l)
                        }
                    }
                }
            });
            assert!(stuck.is_empty());
            ctx.state(contexts.len() as u64);
            ctx.transition((contexts.len() * tokens.len()) as u64 + (n as u64).pow(depth as u32));
            let mut odd: Vec<String> = odd.lock().unwrap().iter().cloned().collect();
            odd.sort_by_key(|x| (x.len(), x.clone()));
            if !ctx.thorough {
                odd.truncate(if primary { 600 } else { 60 })
            }
            ctx.note_add("lines some reading rejects, run alone", odd.len() as u64);
            par(ctx, &odd, |l| {
                let ls = [l.clone()];
                let doc = encode_smart(&trie, l);
                let d = ctx.dir();
                ctx.trace(1);
                let what = match (encode_real(ctx, &c, &ls, &d), &doc) {
                    (Err(e), _) if !e.starts_with("rejected (status 1)") => e,
                    (Err(_), Err(_)) => return,
                    (Err(e), Ok(_)) => match [(true, false, "K1"), (false, true, "K2"), (true, true, "K1")].iter().find(|k| encode_smart_with(&trie, l, k.0, k.1).is_err()) {
                        Some(k) => return ctx.known_or_violation(k.2, format!("[{}] {l:?}: {e}", c.name()), || c.replay(&ls, &e, false)),
                        None => e,
                    },
                    (Ok(got), doc) => {
                        let of = |s: &Result<Vec<Seg>, String>| s.as_ref().ok().map(|s| s.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
                        let got: Option<Vec<String>> = t.split(&got).map(|g| g.iter().map(|k| t.tokens[k][mode].clone()).collect());
                        if got.is_some() && got == of(doc) {
                            return;
                        }
                        match [(true, false, "K1"), (false, true, "K2"), (true, true, "K1")].iter().find(|k| got.is_some() && of(&encode_smart_with(&trie, l, k.0, k.1)) == got) {
                            Some(k) => return ctx.known_or_violation(k.2, format!("[{}] {l:?} is encoded as {got:?}", c.name()), || c.replay(&ls, "", false)),
                            None => format!("encoded as {got:?} instead of {:?}", of(doc)),
                        }
                    }
                };
                let what = format!("[{}] line {l:?}: {what}", c.name());
                ctx.violation(what.clone(), c.replay(&ls, &what, false));
            });
            // contexts end with the line
            let l: Vec<String> = contexts.iter().filter(|x| regular(x)).flat_map(|x| [x.clone(), probes[0].clone() + &probes[1]]).collect();
            batch(ctx, &c, &l, false, &j);
        }
    }
}

/// Decoding: one state per byte position, the outcome of each step depends on one or two bytes
pub fn c02(ctx: &Ctx) {
    ctx.sample("each trace: program file -> convert -d MODE -o z.txt; the text must be the concatenation of the token sheet's texts");
    for &(sig, product, name) in FILE_MODELS.iter() {
        let t = Table::new(model(name).0);
        let keys: Vec<&Vec<u8>> = t.tokens.keys().collect();
        ctx.state(1);
        ctx.transition(65536 + 256);
        let prog = |body: &[u8], ver: u8| {
            let mut p = Prog::new("P", body);
            p.sig = sig.into();
            p.product = product;
            p.version = ver;
            p
        };
        // valid sequences: every ordered pair of tokens
        for mode in [ACCESSIBLE, PRETTY, TI] {
            let mut bodies: Vec<(Vec<u8>, u8)> = vec![(vec![], 0)];
            let mut cur: Vec<u8> = vec![];
            for (i, a) in keys.iter().enumerate() {
                bodies.push((a.to_vec(), 0));
                for b in &keys[i..] {
                    cur.extend(*a);
                    cur.extend(*b);
                    if cur.len() > 65_000 {
                        bodies.push((std::mem::take(&mut cur), 0))
                    }
                }
                // the pair across the end of the row is covered by the following file as well
            }
            bodies.push((cur, 0));
            let all: Vec<u8> = keys.iter().flat_map(|k| k.to_vec()).collect();
            for v in 0..=255u8 {
                if v < 32 || ctx.thorough {
                    bodies.push((all.clone(), v))
                }
            }
            ctx.trace(bodies.len() as u64);
            ctx.note_add("token pairs decoded", (keys.len() * keys.len()) as u64);
            par(ctx, &bodies, |(b, v)| {
                let test = |b: &[u8]| -> Option<String> {
                    let d = ctx.dir();
                    d.write("x.8xp", prog(b, *v).bytes(false));
                    let o = ctx.run(&["convert", "x.8xp", "-d", MODES[mode], "-o", "z.txt"], b"", &d.0);
                    if o.crashed() {
                        return Some(format!("crash or hang (status {})", o.code));
                    }
                    let want = t.decode(b, mode).unwrap();
                    match d.read("z.txt").map(|x| Txt::parse(&x)) {
                        None => Some(format!("rejected (status {}): {}", o.code, o.se().trim())),
                        Some(Err(e)) => Some(format!("no txt file: {e}")),
                        Some(Ok(_)) if o.code != 0 => Some(format!("status {}", o.code)),
                        Some(Ok(x)) if x.body != want => Some(format!("decoded as {}", difference(&want, &x.body))),
                        Some(Ok(x)) if x.model != name || x.mode != MODES[mode] => Some(format!("model {} mode {}", x.model, x.mode)),
                        _ => None,
                    }
                };
                if let Some(w) = test(b) {
                    // find a short token sequence that still fails
                    let mut ts = t.split(b).unwrap();
                    let mut why = w;
                    let mut n = ts.len() / 2;
                    while n > 0 && ts.len() > 1 {
                        let half = [&ts[..n], &ts[ts.len() - n..]].into_iter().find_map(|h| test(&h.concat()).map(|w| (h.to_vec(), w)));
                        match half {
                            Some((h, w)) => {
                                ts = h;
                                why = w;
                                n = ts.len() / 2
                            }
                            None if n == ts.len() - 1 => break,
                            None => n = ((n + ts.len()).div_ceil(2)).min(ts.len() - 1),
                        }
                    }
                    let body = ts.concat();
                    let what = format!("[{name} {}] body {}: {why}", MODES[mode], hex(&body[..body.len().min(60)]));
                    let r = Replay::new(&what).file("x.8xp", &prog(&body, *v).bytes(false)).cmd(&["convert", "x.8xp", "-d", MODES[mode], "-o", "z.txt"], b"").end();
                    ctx.violation(what, r)
                }
            });
        }
        // invalid sequences
        let latest = Table::new("latest");
        let mut bad: Vec<Vec<u8>> = vec![];
        for a in 0..=255u8 {
            if t.tokens.contains_key(&vec![a]) {
                continue;
            }
            bad.push(vec![a]);
            for b in 0..=255u8 {
                let k = vec![a, b];
                if t.tokens.contains_key(&k) {
                    continue;
                }
                if ctx.thorough || name == "latest" || latest.tokens.contains_key(&k) || latest.tokens.contains_key(&k[..1]) && b == 0x41 || b == 0 || b == 255 {
                    bad.push(k)
                }
            }
        }
        ctx.note(&format!("invalid sequences [{name}]"), bad.len() as u64);
        let full = ctx.thorough;
        par(ctx, &bad, |k| {
            let contexts: Vec<(&[u8], &[u8])> = if full { vec![(b"", b""), (b"A", b""), (b"\xBB\x6A", b""), (b"", b"A"), (b"A?", b"?A")] } else { vec![(b"", b""), (b"A?", b"?A")] };
            for (pre, post) in contexts {
                if k.len() == 1 && !post.is_empty() {
                    continue;
                }
                let body = [pre, k, post].concat();
                if t.decode(&body, PRETTY).is_some() {
                    continue;
                }
                ctx.trace(1);
                let d = ctx.dir();
                d.write("x.8xp", prog(&body, 0).bytes(false));
                let a = ["convert", "x.8xp", "-d", MODES[k[0] as usize % 3], "-o", "z.txt"];
                let o = ctx.run(&a, b"", &d.0);
                let w = if o.crashed() {
                    format!("crash or hang (status {})", o.code)
                } else if d.read("z.txt").is_some() {
                    format!("a txt file was written (status {})", o.code)
                } else if o.code == 0 {
                    "status 0".into()
                } else {
                    continue;
                };
                let what = format!("[{name}] body {} is not a token sequence: {w}", hex(&body));
                ctx.violation(what.clone(), Replay::new(&what).file("x.8xp", &prog(&body, 0).bytes(false)).cmd(&a, b"").end());
            }
        });
        if ctx.stopped() {
            return;
        }
    }
}
