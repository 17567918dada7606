#![allow(dead_code)]
mod batch;
mod build;
mod checks;
mod ctl;
mod diag;
mod doc;
mod explore;
mod gen;
mod json;
mod report;
mod runner;
mod schema;
mod ts;
mod valid;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") || a.iter().any(|x| x == "thorough");
    let id = a.first().cloned().unwrap_or_default();
    if id == "schema" {
        // the schema most checks use, to try things by hand
        println!("{}", schema::Schema::sdl(checks::types::SDL).json().dump());
        return;
    }
    match build::build_qlc() {
        Ok(p) => {
            let _ = runner::QLC.set(p);
        }
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(3);
        }
    }
    if id == "setup" {
        return;
    }
    let r = std::panic::catch_unwind(|| checks::run(&id, thorough));
    runner::cleanup();
    let hangs = runner::HANGS.load(std::sync::atomic::Ordering::Relaxed);
    if hangs > 0 {
        eprintln!("{hangs} runs ended by their time limit");
    }
    match r {
        Ok(Some(c)) => std::process::exit(c),
        Ok(None) => {
            eprintln!("no check {id}");
            std::process::exit(3);
        }
        Err(_) => std::process::exit(3),
    }
}
