//! Drives programs through the public interface of the library. Reads requests from stdin, writes what it observes to the
//! file that is its argument; judges nothing.
//! load TAB kind TAB path TAB mode; op TAB name TAB argument; save TAB path -> R TAB ok|error|none
//! state -> S TAB json of the program TAB escaped text of the program
use std::io::{Read, Write};
use std::path::PathBuf;
use ti_tools::calculator::program::Program;
use ti_tools::calculator::{DisplayMode, EncodeMode};

fn unesc(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.next() {
                Some('n') => r.push('\n'),
                Some('t') => r.push('\t'),
                Some('r') => r.push('\r'),
                Some(c) => r.push(c),
                None => {}
            },
            c => r.push(c),
        }
    }
    r
}

fn main() {
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    let mut out = std::io::BufWriter::new(std::fs::File::create(std::env::args().nth(1).unwrap()).unwrap());
    let mut program: Option<Program> = None;
    for l in input.lines() {
        let f: Vec<String> = l.split('\t').map(unesc).collect();
        let ok = match f[0].as_str() {
            "load" => {
                let path = PathBuf::from(&f[2]);
                let r = match f[1].as_str() {
                    "8xp" => Program::load_from_8xp(path, DisplayMode::from_string(&f[3]).ok().unwrap()),
                    "txt" => Program::load_from_txt(path, &EncodeMode::from_string(&f[3]).ok().unwrap()),
                    _ => Program::load_from_json(path),
                };
                let ok = r.is_ok();
                program = r.ok();
                Some(ok)
            }
            "op" => program.as_mut().map(|p| match f[1].as_str() {
                "rename" => p.metadata.rename(f[2].clone()).is_ok(),
                "comment" => p.header.comment(f[2].clone()).is_ok(),
                x => {
                    match x {
                        "lock" => p.metadata.lock(),
                        "unlock" => p.metadata.unlock(),
                        "archive" => p.metadata.archive(),
                        "unarchive" => p.metadata.unarchive(),
                        _ => std::process::exit(2),
                    }
                    true
                }
            }),
            "save" => program.as_ref().map(|p| p.save_to(&PathBuf::from(&f[1])).is_ok()),
            "state" => {
                match &program {
                    None => writeln!(out, "S\tnone").unwrap(),
                    Some(p) => writeln!(out, "S\t{}\t{}", serde_json::to_string(p).unwrap(), serde_json::to_string(&p.to_string()).unwrap()).unwrap(),
                }
                continue;
            }
            _ => std::process::exit(2),
        };
        writeln!(out, "R\t{}", match ok { Some(true) => "ok", Some(false) => "error", None => "none" }).unwrap();
    }
    out.flush().unwrap();
}
