//! treena-mc: bounded exhaustive exploration of the real treena crate against a reference model.

mod explore;
mod model;
mod ops;
mod props;
mod report;
mod shapes;
mod util;

use report::*;

#[global_allocator]
static ALLOC: util::CountingAlloc = util::CountingAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
    };
    util::install_panic_hook();
    util::crumbs_init(get("--crumbs").as_deref());
    let mode = args.get(1).map(String::as_str).unwrap_or("");
    let prop = args.get(2).cloned().unwrap_or_default();
    let tier = get("--tier").unwrap_or_else(|| "quick".into());
    set_run(Run {
        prop: prop.clone(),
        tier: tier.clone(),
        variant: get("--variant").unwrap_or_else(|| "default".into()),
        replay_dir: get("--replay-dir").unwrap_or_else(|| "/tmp".into()),
        out: get("--out").unwrap_or_else(|| "/dev/null".into()),
        known: get("--known")
            .map(|k| k.split(',').filter(|x| !x.is_empty()).map(str::to_owned).collect())
            .unwrap_or_default(),
        start: std::time::Instant::now(),
        budget: get("--budget").and_then(|b| b.parse().ok()).unwrap_or(60.0),
    });
    match mode {
        "check" => {
            util::start_watchdog(props::many_calls, Box::new(|ops, cur| {
                props::on_hang(&ops, cur);
                std::process::exit(finish());
            }));
            if !props::check(&prop) {
                util::harness_error(&format!("unknown property {prop}"));
            }
            std::process::exit(finish());
        }
        // Plays the call in flight of one worker of a crashed run: `mc triage PROP CRUMBS INDEX`.
        "triage" => {
            let file = args.get(3).cloned().unwrap_or_default();
            let idx: usize = args.get(4).and_then(|a| a.parse().ok()).unwrap_or(0);
            let all = util::read_crumbs(&file);
            match all.get(idx) {
                None => std::process::exit(9),
                Some((ops, cur)) => {
                    props::write_crash_replay(ops, *cur);
                    std::thread::scope(|sc| {
                        let run = || props::play(&prop, ops, *cur);
                        let t = std::thread::Builder::new().stack_size(props::stack_of(*cur));
                        let _ = t.spawn_scoped(sc, run).expect("spawn").join();
                    });
                    std::process::exit(0);
                }
            }
        }
        "replay" => {
            let file = args.get(2).cloned().unwrap_or_default();
            let stack = if props::is_program(&file) { util::DEEP_STACK } else { util::STACK };
            let t = std::thread::Builder::new().stack_size(stack);
            let t = t.spawn(move || props::replay_file(&file)).expect("spawn");
            std::process::exit(t.join().unwrap_or(2))
        }
        _ => {
            eprintln!("usage: mc check PROP --tier quick|thorough ... | mc replay FILE");
            std::process::exit(2);
        }
    }
}
