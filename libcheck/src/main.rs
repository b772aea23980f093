//! Observes the token table of the real library. Reads requests from stdin, writes facts to stdout; judges nothing.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use ti_tools::calculator::models::Model;
use ti_tools::calculator::tokens::{load_tokens, OsVersion};
use ti_tools::calculator::DisplayMode;

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn os(m: &str, v: &str) -> OsVersion {
    OsVersion::new(Model::from_string(m), v.to_string())
}

fn main() {
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    let mut out = String::new();
    match std::env::args().nth(1).as_deref() {
        // model TAB version -> T model TAB version, then one line per token
        Some("tokens") => {
            for l in input.lines() {
                let (m, v) = l.split_once('\t').unwrap();
                out += &format!("T\t{m}\t{v}\n");
                match load_tokens(&os(m, v)) {
                    Ok(t) => {
                        let s: BTreeMap<_, _> = t.map.iter().map(|(k, x)| (k.to_string(), x)).collect();
                        for (k, x) in s {
                            out += &format!("{}\t{}\t{}\t{}\n", k, esc(&x.display), esc(&x.accessible), esc(&x.ti_ascii));
                        }
                    }
                    Err(_) => out += "error\n",
                }
            }
        }
        // all pairs of the given os versions -> matrix of orderings
        Some("order") => {
            let v: Vec<OsVersion> = input.lines().map(|l| l.split_once('\t').unwrap()).map(|(m, v)| os(m, v)).collect();
            for a in &v {
                for b in &v {
                    out.push(match a.cmp(b) {
                        std::cmp::Ordering::Less => '<',
                        std::cmp::Ordering::Equal => '=',
                        std::cmp::Ordering::Greater => '>',
                    });
                    let p = a.partial_cmp(b) == Some(a.cmp(b)) && (a <= b) == (a.cmp(b) != std::cmp::Ordering::Greater) && (a >= b) == (a.cmp(b) != std::cmp::Ordering::Less);
                    out.push(if p { '.' } else { '!' });
                }
                out.push('\n');
            }
        }
        // model TAB maximal number of tables -> loads tables until every iteration order of every group of tokens with
        // the same text was seen; reports the tokens chosen
        Some("ties") => {
            for l in input.lines() {
                let (m, n) = l.split_once('\t').unwrap();
                let n: usize = n.parse().unwrap();
                let modes = [DisplayMode::Pretty, DisplayMode::Accessible, DisplayMode::TiAscii];
                let mut groups: BTreeMap<(usize, String), BTreeSet<String>> = BTreeMap::new();
                let mut orders: BTreeMap<(usize, String), BTreeSet<Vec<String>>> = BTreeMap::new();
                let mut chosen: BTreeMap<(usize, String, bool), BTreeSet<String>> = BTreeMap::new();
                let mut tables = 0;
                while tables < n {
                    let t = match load_tokens(&os(m, "latest")) {
                        Ok(t) => t,
                        Err(_) => break,
                    };
                    tables += 1;
                    let mut now: BTreeMap<(usize, String), Vec<String>> = BTreeMap::new();
                    for (k, x) in t.map.iter() {
                        for (i, s) in [&x.display, &x.accessible, &x.ti_ascii].into_iter().enumerate() {
                            now.entry((i, s.to_string())).or_default().push(k.to_string());
                        }
                    }
                    for (g, o) in now {
                        if o.len() < 2 {
                            continue;
                        }
                        let e = groups.entry(g.clone()).or_default();
                        e.extend(o.iter().cloned());
                        let new = orders.entry(g.clone()).or_default().insert(o);
                        if new || tables <= 3 {
                            for (min, r) in [(false, t.get_longest_matching_token(&g.1, &modes[g.0])), (true, t.get_shortest_matching_token(&g.1, &modes[g.0]))] {
                                let c = r.map(|x| x.0.to_string()).unwrap_or("none".into());
                                chosen.entry((g.0, g.1.clone(), min)).or_default().insert(c);
                            }
                        }
                    }
                    let full = groups.iter().all(|(g, k)| orders[g].len() >= (1..=k.len().min(5)).product::<usize>());
                    if full && tables >= 3 {
                        break;
                    }
                }
                out += &format!("M\t{m}\t{tables}\n");
                for (g, k) in &groups {
                    out += &format!("G\t{}\t{}\t{}\t{}\n", g.0, esc(&g.1), k.len(), orders[g].len());
                }
                for (g, c) in &chosen {
                    if c.len() > 1 {
                        out += &format!("X\t{}\t{}\t{}\t{}\n", g.0, esc(&g.1), if g.2 { "shortest" } else { "longest" }, c.iter().cloned().collect::<Vec<_>>().join(" / "));
                    }
                }
            }
        }
        _ => std::process::exit(2),
    }
    print!("{out}");
}
