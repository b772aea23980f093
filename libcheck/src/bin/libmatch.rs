//! Matching in arbitrary token tables. Tables on stdin: one line per table, "key=text" entries separated by spaces; then
//! a line "?" and the values to look up, one per line. All orders of insertion; the answers on stdout.
use std::io::Read;
use ti_tools::calculator::tokens::{Map, Translation};
use ti_tools::calculator::DisplayMode;

fn main() {
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    let (tables, values) = input.split_once("?\n").unwrap();
    let values: Vec<&str> = values.lines().collect();
    let mut out = String::new();
    for l in tables.lines() {
        let e: Vec<(&str, &str)> = l.split(' ').filter(|x| !x.is_empty()).map(|x| x.split_once('=').unwrap()).collect();
        // all rotations and their reversals are inserted in that order
        let mut orders: Vec<Vec<(&str, &str)>> = vec![];
        for i in 0..e.len().max(1) {
            let mut r = e.clone();
            if !r.is_empty() {
                r.rotate_left(i);
            }
            orders.push(r.clone());
            r.reverse();
            orders.push(r);
        }
        let maps: Vec<Map> = orders
            .iter()
            .map(|o| {
                let mut m = Map::new();
                for (k, t) in o {
                    // the three texts of a token differ
                    let reversed: String = t.chars().rev().collect();
                    m.insert(k.to_string(), Translation { display: t.to_string(), accessible: format!("A{t}"), ti_ascii: reversed });
                }
                m
            })
            .collect();
        for (i, v) in values.iter().enumerate() {
            for (mi, mode) in [DisplayMode::Pretty, DisplayMode::Accessible, DisplayMode::TiAscii].iter().enumerate() {
                let v = if mi == 1 { format!("A{v}") } else { v.to_string() };
                let mut seen: Vec<String> = vec![];
                for m in &maps {
                    let s = |r: Option<(String, String)>| r.map_or("-".to_string(), |(k, t)| format!("{k}={t}"));
                    let a = format!("{} {}", s(m.get_longest_matching_token(&v, mode)), s(m.get_shortest_matching_token(&v, mode)));
                    if !seen.contains(&a) {
                        seen.push(a);
                    }
                }
                out += &format!("{i}\t{mi}\t{}\n", seen.join("\t"));
            }
        }
        out += ".\n";
    }
    print!("{out}");
}
