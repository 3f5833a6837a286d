#[macro_use]
mod core;
mod concur;
mod events;
mod faults;
mod fitting;
mod gen;
mod inputs;
mod listview;
mod model;
mod ptys;
mod render;
mod robust;
mod stdio;
mod styles;
mod table;
mod term;
mod views;
mod writing;

use crate::core::*;

fn checks() -> Vec<Box<dyn Check>> {
    vec![
        Box::new(render::C01),
        Box::new(render::C02),
        Box::new(table::C03),
        Box::new(render::C04),
        Box::new(render::C05),
        Box::new(fitting::C06),
        Box::new(writing::C07),
        Box::new(views::C08),
        Box::new(views::C09),
        Box::new(writing::C10),
        Box::new(listview::C11),
        Box::new(listview::C12),
        Box::new(inputs::C13),
        Box::new(inputs::C14),
        Box::new(inputs::C15),
        Box::new(styles::C16),
        Box::new(styles::C17),
        Box::new(styles::C18),
        Box::new(styles::C19),
        Box::new(stdio::C20),
        Box::new(stdio::C21),
        Box::new(events::C22),
        Box::new(concur::C23),
        Box::new(writing::C24),
        Box::new(writing::C25),
        Box::new(robust::C26),
        Box::new(concur::C27),
        Box::new(robust::C28),
        Box::new(stdio::C29),
        Box::new(faults::C30),
    ]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let checks = checks();
    let find = |id: &str| -> &dyn Check {
        match checks.iter().find(|c| c.id() == id) {
            Some(c) => c.as_ref(),
            None => {
                eprintln!("no check {id}");
                std::process::exit(2);
            }
        }
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("--child") => {
            let job: serde_json::Value = match serde_json::from_str(&args[3]) {
                Ok(j) => j,
                Err(e) => {
                    eprintln!("HARNESS: bad job: {e}");
                    std::process::exit(3);
                }
            };
            match args[2].as_str() {
                "ops" => stdio::child_ops(&job),
                "events" => events::child_events(&job),
                "ask" => stdio::child_ask(&job),
                "faults" => faults::child_faults(&job),
                "ticker" => concur::child_ticker(&job),
                "purity" => concur::child_purity(&job),
                k => {
                    eprintln!("HARNESS: no child {k}");
                    3
                }
            }
        }
        Some("--worker") => worker(find(&args[2]), &args[3..]),
        Some("--list") => {
            for c in &checks {
                println!("{}", c.id());
            }
            0
        }
        Some(id) => {
            let check = find(id);
            if args.get(2).map(|s| s.as_str()) == Some("--replay") {
                replay(check, &args[3])
            } else {
                let tier = match args
                    .get(2)
                    .cloned()
                    .or_else(|| std::env::var("VERIF_TIER").ok())
                    .as_deref()
                {
                    Some("thorough") => Tier::Thorough,
                    _ => Tier::Quick,
                };
                let seed = std::env::var("VERIF_SEED")
                    .ok()
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(1);
                run_check(check, tier, seed)
            }
        }
        None => {
            eprintln!("usage: mon ID [quick|thorough]");
            2
        }
    };
    std::process::exit(code);
}
