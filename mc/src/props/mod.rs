//! One module per group of properties.

pub mod build;
#[cfg(feature = "cost")]
pub mod cost;
pub mod fault;
pub mod handles;
pub mod ids;
pub mod iter;
pub mod panics;
pub mod print;
pub mod refusals;
pub mod rows;
pub mod structural;
pub mod tracked;
pub mod twins;

use crate::explore::*;
use crate::ops::*;
use crate::report::*;
use crate::shapes;
use crate::util::*;

/// Calls in flight with this low byte belong to a property's own kind of case.
pub const CUSTOM: u64 = 0xFE;

pub fn check(prop: &str) -> bool {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C11" => structural::check(prop),
        "C08" | "C09" | "C10" => iter::check(prop),
        "C12" => build::check(prop),
        "C13" => ids::check(prop),
        "C14" => print::check(prop),
        "C15" => tracked::check(prop),
        "C16" => fault::check(prop),
        "C17" => handles::check(prop),
        "C18" => twins::check(prop),
        "C19" => panics::check(prop),
        #[cfg(feature = "cost")]
        "C20" => cost::check(),
        _ => return false,
    }
    true
}

/// Ids there are for replays.
const REPLAY_IDS: usize = 70_000;

/// Plays a history of forest operations as the property's exploration does.
pub fn play_history(prop: &str, hist: &[Op], last: Option<Op>) -> i32 {
    match prop {
        "C08" | "C09" | "C10" => structural::play(&iter::spec::<_, Val>(prop, "replay", REPLAY_IDS), hist, last),
        "C14" => structural::play(&print::spec("replay", REPLAY_IDS), hist, last),
        "C18" => structural::play(&twins::spec("replay", REPLAY_IDS, true), hist, last),
        "C17" => structural::play(&handles::spec("replay", REPLAY_IDS, 2), hist, last),
        "C16" => structural::play(&fault::spec("replay", REPLAY_IDS, 2), hist, last),
        "C19" => structural::play(&panics::spec("replay", REPLAY_IDS, true), hist, last),
        "C15" => structural::play(&tracked::spec("replay", REPLAY_IDS), hist, last),
        _ => structural::play(&structural::spec::<_, Val>(prop, "replay", REPLAY_IDS), hist, last),
    }
}

/// The operations a property is about.
pub fn kinds(prop: &str) -> fn(Op) -> bool {
    match prop {
        "C08" | "C09" | "C10" | "C14" => |_| false,
        _ => structural::kinds(prop),
    }
}

/// Plays one case of a program-type property; the first word says of what kind it is.
pub fn play_case(prop: &str, words: &[u64]) -> Result<(), String> {
    match words.first() {
        Some(1000..=1999) => build::play(prop, words),
        Some(2000..=2999) => ids::play(prop, words),
        Some(3000..=3999) => print::play(words),
        Some(4000..=4999) => tracked::play(words),
        Some(6000..=6999) => iter::play(words),
        Some(7000..=7999) => match prop {
            "C19" => rows::play(&panics::spec("replay", rows::IDS, true), words),
            _ => rows::play(&structural::spec::<structural::Id, Val>(prop, "replay", rows::IDS), words),
        },
        #[cfg(feature = "cost")]
        Some(5000..=5999) => cost::play(words),
        _ => Err("unknown kind of case".into()),
    }
}

fn case_body(words: &[u64], text: &str) -> String {
    let w: Vec<String> = words.iter().map(|x| x.to_string()).collect();
    format!("case {}\n# {}\n", w.join(" "), text.replace('\n', "\n# "))
}

/// Runs `n` cases, in parallel; each is a list of words that also says how to play it again.
pub fn run_cases(
    n: usize,
    make: impl Fn(usize) -> Vec<u64> + Sync,
    run_one: impl Fn(&[u64], &mut Stats) -> Result<(), String> + Sync,
    text: impl Fn(&[u64]) -> String + Sync,
) -> Stats {
    let mut total = Stats::default();
    if violated() {
        return total;
    }
    let deadline = run().share();
    let started = std::time::Instant::now();
    let capped = std::sync::atomic::AtomicBool::new(false);
    let workers = par_for(DEEP_STACK, n, Stats::default, |st, i| {
        if started.elapsed().as_secs_f64() > deadline {
            capped.store(true, std::sync::atomic::Ordering::Relaxed);
            return;
        }
        let words = make(i);
        crumb_state(&words);
        crumb_call(CUSTOM);
        let go = |st: &mut Stats| match guard(|| run_one(&words, st)) {
            Ok(r) => r,
            Err(p) => Err(format!("a call panicked: {}", p.msg)),
        };
        let r = go(st);
        st.states += 1;
        st.traces += 1;
        if i % 1009 == 7 {
            st.sample(|| text(&words));
        }
        if let Err(what) = r {
            // The same case must fail the same way again.
            if go(&mut Stats::default()).is_err() {
                violation(&format!("{}: {}", text(&words), what), &case_body(&words, &text(&words)));
            } else {
                harness_error(&format!("{}: fails once only: {what}", text(&words)));
            }
        }
        crumb_idle();
    });
    for w in workers {
        total.add(&w);
    }
    if capped.into_inner() {
        total.capped = Some(format!("time: {} of {n} cases run", total.states));
    }
    total
}

/// Whether this is not one call, but a check that makes many.
pub fn many_calls(cur: u64) -> bool {
    cur == STATE_CHECK || cur & 0xFF == CUSTOM
}

fn crash_body(ops: &[u64], cur: u64) -> Option<(bool, String)> {
    let r = run();
    if cur & 0xFF == CUSTOM {
        return Some((true, case_body(ops, "")));
    }
    let hist: Vec<Op> = ops.iter().filter_map(|o| Op::unpack(*o)).collect();
    if cur == STATE_CHECK {
        return Some((true, history_text(&hist, None)));
    }
    let op = Op::unpack(cur)?;
    let mine = kinds(&r.prop)(op);
    Some((mine, history_text(&hist, Some(op))))
}

/// A call did not return.
pub fn on_hang(ops: &[u64], cur: u64) {
    match crash_body(ops, cur) {
        Some((true, body)) => violation("the call (or a query after it) does not return", &body),
        Some((false, body)) => {
            println!("exploration stopped early, a call that belongs to another property does not return:\n{body}");
            let mut s = Stats::default();
            s.capped = Some("a call that belongs to another property does not return".into());
            record("stopped", "", s);
        }
        None => violation("a call does not return", &format!("custom {cur} {ops:?}\n")),
    }
}

/// Writes the replay file for a call during which the process died.
pub fn write_crash_replay(ops: &[u64], cur: u64) {
    if let Some((true, body)) = crash_body(ops, cur) {
        let r = run();
        let path = format!("{}/{}-{}-crash.replay", r.replay_dir, r.prop, r.variant);
        let _ = std::fs::write(
            &path,
            format!("property {}\nvariant {}\n# the process dies in this call\n{body}", r.prop, r.variant),
        );
        println!("CRASH-REPLAY {path}");
    }
}

/// The stack such a call runs on.
pub fn stack_of(cur: u64) -> usize {
    if cur & 0xFF == CUSTOM { DEEP_STACK } else { STACK }
}

/// Whether a replay file is for a property's own kind of case.
pub fn is_program(path: &str) -> bool {
    std::fs::read_to_string(path).is_ok_and(|t| t.lines().any(|l| l.starts_with("case ")))
}

/// Plays a history and a last call, for finding out whether it kills the process.
pub fn play(prop: &str, ops: &[u64], cur: u64) {
    if cur & 0xFF == CUSTOM {
        let _ = guard(|| play_case(prop, ops));
        return;
    }
    let hist: Vec<Op> = ops.iter().filter_map(|o| Op::unpack(*o)).collect();
    play_history(prop, &hist, Op::unpack(cur));
}

pub fn replay_file(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => harness_error(&format!("{path}: {e}")),
    };
    let mut prop = String::new();
    let mut hist = Vec::new();
    let mut last = None;
    for l in text.lines() {
        if let Some(p) = l.strip_prefix("property ") {
            prop = p.to_owned();
        } else if let Some(c) = l.strip_prefix("case ") {
            let words: Vec<u64> = c.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            let r = guard(|| play_case(&prop, &words));
            println!("{r:?}");
            return i32::from(!matches!(r, Ok(Ok(()))));
        } else if let Some(o) = l.strip_prefix("op ") {
            hist.push(Op::parse(o).unwrap_or_else(|| harness_error(&format!("bad op: {o}"))));
        } else if let Some(o) = l.strip_prefix("judge ") {
            last = Op::parse(o);
        }
    }
    play_history(&prop, &hist, last)
}
