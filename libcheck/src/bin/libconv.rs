//! The conversions between codes, names and values. Strings to try on stdin, one per line (escaped); facts on stdout.
use std::io::Read;
use ti_tools::calculator::models::{Model, ModelDetails};
use std::os::unix::ffi::OsStrExt;
use ti_tools::calculator::program::{get_file_type, Destination, FileType, Program};
use ti_tools::calculator::{DisplayMode, EncodeMode};

fn main() {
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    let none = || "none".to_string();
    for b in 0..=255u8 {
        println!("type\t{b}\t{}", FileType::from_byte(b).map_or_else(|_| none(), |t| format!("{} {}", t.to_byte(), t.to_string())));
        println!("dest\t{b}\t{}", Destination::from_byte(b).map_or_else(|_| none(), |t| format!("{} {}", t.to_byte(), t.to_string())));
        for sig in ["**TI83F*", "**TI83**", "**TI82**"] {
            let d = ModelDetails::from_byte(b, sig);
            println!("model byte\t{b} {sig}\t{}", d.map_or_else(|_| none(), |d| format!("{} {} {} {}", d.model.to_string(), d.signature, d.product_id, d.language)));
        }
    }
    // files that do not exist, whatever they are called
    for name in [&b"no"[..], b"\xff", b"a\xc3", b"", b"x/\xfe/y"] {
        for ext in ["8xp", "83p", "82p", "txt", "json", "pdf"] {
            let path = || std::path::PathBuf::from(std::ffi::OsStr::from_bytes(&[name, b".", ext.as_bytes()].concat()));
            let loaded = [
                Program::load_from_8xp(path(), DisplayMode::Pretty).is_ok(),
                Program::load_from_txt(path(), &EncodeMode::Max).is_ok(),
                Program::load_from_json(path()).is_ok(),
            ];
            println!("absent\t{} {ext}\t{loaded:?}", name.len());
        }
    }
    for l in input.lines() {
        let s: String = serde_json::from_str(l).unwrap();
        println!("type name\t{l}\t{}", FileType::from_string(&s).map_or_else(|_| none(), |t| format!("{} {}", t.to_byte(), t.to_string())));
        println!("dest name\t{l}\t{}", Destination::from_string(&s).map_or_else(|_| none(), |t| format!("{} {}", t.to_byte(), t.to_string())));
        println!("display\t{l}\t{}", DisplayMode::from_string(&s).map_or_else(|_| none(), |t| t.to_string()));
        let e = match EncodeMode::from_string(&s) {
            Ok(EncodeMode::Min) => "min",
            Ok(EncodeMode::Max) => "max",
            Ok(EncodeMode::Smart) => "smart",
            Err(_) => "none",
        };
        println!("encode\t{l}\t{e}");
        let e = get_file_type(std::path::Path::new(&format!("x.{s}")));
        println!("extension\t{l}\t{}", e.map_or_else(|_| none(), |t| format!("{} {} {} {}", t.to_string(), t.is_8xp(), t.is_txt(), t.is_json())));
        let m = Model::from_string(&s);
        let d = ModelDetails::from_model(&m);
        println!("model\t{l}\t{} {} {} {}", m.to_string(), d.signature, d.product_id, d.language);
        println!("model details\t{l}\t{}", d.model.to_string());
    }
}
