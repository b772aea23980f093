mod cmdline;
mod conc;
mod effects;
mod export;
mod jsonfile;
mod textfile;
mod files;
mod fmt;
mod library;
mod misc;
mod more;
mod spec;
mod tok;
mod util;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("stats") {
        return tok::stats();
    }
    let ctx = util::Ctx::new();
    match ctx.property.as_str() {
        "C01" => tok::c01(&ctx),
        "C02" => tok::c02(&ctx),
        "C04" => tok::c04(&ctx),
        "C05" => tok::c05(&ctx),
        "C03" => files::c03(&ctx),
        "C09" => files::c09(&ctx),
        "C10" => files::c10(&ctx),
        "C07" => files::c07(&ctx),
        "C08" => files::c08(&ctx),
        "C12" => files::c12(&ctx),
        "C13" => files::c13(&ctx),
        "C21" => files::c21(&ctx),
        "C06" => misc::c06(&ctx),
        "C11" => misc::c11(&ctx),
        "C19" => misc::c19(&ctx),
        "C14" => effects::c14(&ctx),
        "C15" => effects::c15(&ctx),
        "C16" => effects::c16(&ctx),
        "C17" => effects::c17(&ctx),
        "C18" => effects::c18(&ctx),
        "C20" => cmdline::c20(&ctx),
        "C22" => conc::c22(&ctx),
        "C23" => more::c23(&ctx),
        "C24" => more::c24(&ctx),
        "C25" => more::c25(&ctx),
        "C26" => more::c26(&ctx),
        "C28" => library::c28(&ctx),
        "C27" => export::c27(&ctx),
        "C30" => jsonfile::c30(&ctx),
        "C29" => textfile::c29(&ctx),
        p => panic!("unknown property {p}"),
    }
    ctx.finish(true);
}
