//! Runtime monitors for louis-rs
mod case;
mod cli;
mod gen;
mod json;
mod lang;
mod mcheck;
mod model;
mod props;
mod realtab;
mod run;
mod sut;
mod util;

use run::Tier;

#[global_allocator]
static ALLOCATOR: props::san::Counting = props::san::Counting;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn prop(id: &str) -> &'static run::Prop {
    match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            std::process::exit(3);
        }
    }
}

fn read_case(f: &str) -> case::Case {
    let t = std::fs::read_to_string(f).expect("case file");
    case::Case::from_json(&json::parse(&t).expect("json"))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            run::worker(
                prop(&a[2]),
                run::WorkerArgs {
                    tier: tier(&a[3]),
                    seed: a[4].parse().unwrap(),
                    start: a[5].parse().unwrap(),
                    step: a[6].parse().unwrap(),
                    limit: a[7].parse().unwrap(),
                    secs: a[8].parse().unwrap(),
                    out: a[9].clone().into(),
                    prog: a[10].clone().into(),
                },
            );
            0
        }
        Some("crashcheck") => {
            let c = read_case(&a[2]);
            let p = prop(&c.prop);
            sut::install_panic_hook();
            run::set_table_path();
            // the stack of a thread of an ordinary program
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || (p.plain)(&c)).unwrap();
            let _ = h.join();
            0
        }
        Some("check") => run::check(prop(&a[2]), tier(&a[3])),
        Some("replay") => {
            sut::install_panic_hook();
            run::set_table_path();
            let c = read_case(&a[2]);
            let p = prop(&c.prop);
            println!("{}", run::describe(&c));
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let mut st = util::Stats::default();
                    let o = (p.check)(&c, &mut st);
                    match o {
                        run::Outcome::Violation(m) => {
                            println!("violation: {m}");
                            1
                        }
                        o => {
                            println!("{o:?}");
                            0
                        }
                    }
                })
                .unwrap();
            h.join().unwrap_or(2)
        }
        Some("case") => {
            // show a generated case
            let p = prop(&a[2]);
            let idx: u64 = a[3].parse().unwrap();
            let fixed = (p.fixed)(Tier::Quick);
            if let Some(c) = run::make_case(p, run::seed(), idx, Tier::Quick, &fixed) {
                if a.len() > 4 {
                    let _ = std::fs::write(&a[4], c.to_json().to_text());
                } else {
                    println!("{}", run::describe(&c));
                }
            }
            0
        }
        Some("dump") => {
            sut::install_panic_hook();
            println!("{}", props::trace::dump(&read_case(&a[2])));
            0
        }
        Some("san") => props::san::inside(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vmon check ID TIER | replay FILE | case ID N | list");
            3
        }
    };
    std::process::exit(code);
}
