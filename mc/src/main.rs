mod common;
mod explore;
mod lex;
mod names;
mod p_access;
mod p_builder;
mod p_ctor;
mod p_entity;
mod p_extract;
mod p_field;
mod p_file;
mod p_geom;
mod p_guid;
mod p_header;
mod p_map;
mod p_value;
mod p_variants;
mod plan;
mod report;
mod schema;
mod step;

use report::{Report, Tier};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).map(String::as_str).unwrap_or("");
    let tier = match a.get(2).map(String::as_str) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    report::install_hook();
    let run: (&'static str, fn(&Report) -> &'static str) = match prop {
        "C01" => ("C01", p_entity::c01),
        "C02" => ("C02", p_file::c02),
        "C03" => ("C03", p_file::c03),
        "C04" => ("C04", p_file::c04),
        "C05" => ("C05", p_entity::c05),
        "C06" => ("C06", p_file::c06),
        "C07" => ("C07", p_file::c07),
        "C08" => ("C08", p_map::c08),
        "C09" => ("C09", p_guid::c09),
        "C10" => ("C10", p_value::c10),
        "C11" => ("C11", p_value::c11),
        "C12" => ("C12", p_value::c12),
        "C13" => ("C13", p_header::c13),
        "C14" => ("C14", p_geom::c14),
        "C15" => ("C15", p_builder::c15),
        "C16" => ("C16", p_builder::c16),
        "C17" => ("C17", p_builder::c17),
        "C18" => ("C18", p_builder::c18),
        "C19" => ("C19", p_builder::c19),
        "C20" => ("C20", p_file::c20),
        "C21" => ("C21", p_extract::c21),
        "C22" => ("C22", p_access::c22),
        "C23" => ("C23", p_ctor::c23),
        "C24" => ("C24", p_builder::c24),
        "C25" => ("C25", p_field::c25),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    };
    let rep = std::sync::Arc::new(Report::new(run.0, tier));
    let (tx, rx) = std::sync::mpsc::channel();
    let r = rep.clone();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut note = "";
            report::shield(|| note = (run.1)(&r));
            let _ = tx.send(note);
        })
        .unwrap();
    // a run that makes no progress for a minute hangs in the code under test
    let (mut last, mut since) = (0, std::time::Instant::now());
    loop {
        if let Ok(note) = rx.recv_timeout(std::time::Duration::from_secs(2)) {
            std::process::exit(rep.finish(note));
        }
        let now = rep.progress();
        if now != last {
            (last, since) = (now, std::time::Instant::now());
        } else if since.elapsed().as_secs() >= HANG_S {
            let text = report::longest_load().map(|t| t.1).unwrap_or_default();
            rep.violation("hang", format!("does not end within {HANG_S} s"), text);
            rep.capped.store(true, std::sync::atomic::Ordering::Relaxed);
            std::process::exit(rep.finish("stopped: the code under test does not end"));
        }
    }
}

/// cases take milliseconds; one that takes this long does not end
const HANG_S: u64 = 60;
