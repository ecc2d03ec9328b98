//! Properties of the mutating calls: C01 to C07 and C11.

use crate::explore::*;
use crate::ops::*;
use crate::report::*;
use crate::shapes::*;
use crate::util::*;
/// The ids of most explorations: of different types in the two builds.
#[cfg(debug_assertions)]
pub type Id = treena::dynamic::NodeIdU32;
#[cfg(not(debug_assertions))]
pub type Id = treena::dynamic::NodeIdUsize;

/// The operations a property is about.
pub fn kinds(prop: &str) -> fn(Op) -> bool {
    match prop {
        "C02" => |o| matches!(o, Op::CreateRoot | Op::Create { .. } | Op::Insert { .. }),
        "C03" => |o| !matches!(o, Op::RemovePanic { .. } | Op::CreateRoot),
        "C04" => |o| matches!(o, Op::Detach { .. } | Op::DetachSingle { .. }),
        "C05" => |o| matches!(o, Op::Remove { .. }),
        "C06" => |o| matches!(o, Op::RemovePanic { .. }),
        "C11" => |o| matches!(o, Op::CloneLocal { .. } | Op::CloneForeign { .. } | Op::CloneTwin { .. }),
        _ => |_| true,
    }
}

fn judged(prop: &str, ex: &Expect) -> bool {
    match prop {
        "C02" | "C04" | "C05" | "C11" => ex.valid(),
        "C03" => ex.allowed & (OK | USERPANIC) == 0,
        _ => true,
    }
}

fn relevant(prop: &str, _op: Op, _ex: &Expect, m: &Mismatch) -> bool {
    match prop {
        "C02" | "C04" => {
            matches!(m.aspect, Aspect::Outcome | Aspect::Live | Aspect::Links)
        }
        "C03" => !matches!(m.aspect, Aspect::PanicMsg | Aspect::ValidPanic),
        "C07" => matches!(m.aspect, Aspect::NewId | Aspect::Data | Aspect::Live),
        _ => true,
    }
}

pub fn spec<I: Idt, P: Pay>(prop: &str, name: &str, probes: usize) -> Spec<I, P> {
    let mut s: Spec<I, P> = Spec::new(name, probes);
    let p = prop.to_owned();
    s.kinds = Box::new(kinds(prop));
    s.judged = Box::new(move |_, ex| judged(&p, ex));
    let p = prop.to_owned();
    s.relevant = Box::new(move |o, e, m| relevant(&p, o, e, m));
    if prop == "C01" {
        s.mode = Mode::Observe;
    }
    match prop {
        "C03" => {
            s.followup = Some(Box::new(|_, _| Some(true)));
            s.state_check = Some(Box::new(|c, w, st| super::refusals::reads(c, w, st)));
        }
        "C06" | "C11" => {
            s.followup = Some(Box::new(|_, _| Some(false)));
            s.follow_dead = true;
        }
        _ => {}
    }
    s
}

pub fn closure<I: Idt, P: Pay>(prop: &str, n: usize) -> Spec<I, P> {
    let mut s = spec(prop, &format!("closure-{n}"), n + 14);
    s.creations = n;
    if matches!(prop, "C02" | "C11") {
        s.extra = 6;
    }
    s.bounds = format!(
        "all histories of any length that attempt at most {n} node creations (roots, inserts, tree clones), \
         from the empty forest, to the full closure of reachable concrete states; every judged call form with every \
         argument, including removed and unknown ids"
    );
    s
}

/// Whether the call is expected to panic on account of a violated precondition.
fn panics(ex: &Expect) -> bool {
    ex.allowed & PANIC != 0
}

pub fn check(prop: &str) {
    let t = run().thorough();
    // All call forms, including those that panic (which are slow to run).
    for n in if t { vec![3, 4, 5, 6] } else { vec![3, 5] } {
        let mut s: Spec<Id, Val> = closure(prop, n);
        if n >= 6 && prop != "C06" {
            s.followup = None;
        }
        let st = explore(&s);
        record(&s.name, &s.bounds, st);
        if violated() {
            return;
        }
        if n == 3 {
            super::rows::check(&spec::<Id, Val>(prop, "rows", super::rows::IDS));
            if violated() {
                return;
            }
        }
    }
    let n = if t { 7 } else { 6 };
    let mut s: Spec<Id, Val> = closure(prop, n);
    s.followup = None;
    let p = prop.to_owned();
    s.judged = Box::new(move |_, ex| judged(&p, ex) && !panics(ex));
    s.bounds.push_str("; without the calls whose documented answer is a panic");
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    if violated() {
        return;
    }
    // Every shape beyond the closure.
    let (lo, hi) = if t { (7, 10) } else { (6, 8) };
    let mut s: Spec<Id, Val> = spec(prop, "shapes", 32);
    s.followup = None;
    s.seeds = shape_seeds(lo, hi, &[Order::Pre, Order::Reverse], false);
    s.creations = hi;
    s.depth = 1;
    s.bounds = format!(
        "every forest shape of {lo} to {hi} nodes, built in two different orders, one further call of every judged form"
    );
    if prop == "C01" || prop == "C07" {
        let p = prop.to_owned();
        s.judged = Box::new(move |_, ex| judged(&p, ex) && !panics(ex));
        s.bounds.push_str(" whose documented answer is not a panic");
    }
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    if violated() {
        return;
    }
    let sizes: &[usize] = if t { &[12, 17, 24, 33, 64, 100, 257, 300, 1030, 4100] } else { &[12, 17, 33, 64, 257, 1030] };
    let mut s: Spec<Id, Val> = spec(prop, "large", 9000);
    s.followup = None;
    s.seeds = big_seeds(sizes, &[Order::Pre, Order::Reverse]);
    s.seeds.extend(scarred_seeds(&[13, 26, 40, 70, 600]));
    s.seeds.extend(churn_seeds(&[20, 70, 300, 1100]));
    s.creations = if t { 4200 } else { 1100 };
    s.depth = 1;
    s.bounds = format!(
        "parametric shapes {KINDS:?} of sizes {sizes:?} in two build orders, scarred ones (removed nodes, moved subtrees) of \
         sizes 13 to 600, and histories in which 20 to 1100 nodes come and go; one further call of every judged form; beyond 26 nodes with selected argument nodes (first, middle and last \
         nodes, ends of the widest child list, the deepest chain)"
    );
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    if violated() {
        return;
    }
    if run().variant == "plain" || t {
        let n = 66_000;
        let mut s: Spec<Id, Val> = spec(prop, "huge", n + 20);
        s.followup = None;
        s.state_check = None;
        let kinds: &[&str] = match (t, prop) {
            // Cloning a deep tree takes quadratic time.
            (true, "C11") => &["star", "binary", "ternary", "grove"],
            (true, _) => &KINDS,
            (_, "C11") => &["star", "binary", "ternary"],
            _ => &["chain", "star", "binary", "broom"],
        };
        s.seeds = huge_seeds(n, kinds);
        let mut churn = churn_seeds(&[n]);
        if !t {
            churn.truncate(if prop == "C11" { 0 } else { 3 });
        }
        s.seeds.extend(churn);
        s.creations = if prop == "C11" { n + 20 } else { 20 };
        s.depth = 1;
        s.bounds = format!(
            "parametric shapes {kinds:?} of {n} nodes, and {} histories in which as many nodes come and go; one further call of every \
             judged form with selected argument nodes",
            s.seeds.len() - kinds.len()
        );
        let st = explore(&s);
        record(&s.name, &s.bounds, st);
        if violated() {
            return;
        }
    }
    if t {
        let mut s: Spec<Id, Val> = spec(prop, "shapes-2", 32);
        s.followup = None;
        s.seeds = shape_seeds(8, 8, &[Order::Pre], false);
        s.creations = 1;
        s.depth = 2;
        s.bounds = "every forest shape of 8 nodes, any two further calls".into();
        let st = explore(&s);
        record(&s.name, &s.bounds, st);
    }
}

/// Plays a history: 1 if the violation shows.
pub fn play<P: Pay>(s: &Spec<Id, P>, hist: &[Op], last: Option<Op>) -> i32 {
    let w = match replay(s, hist) {
        Ok(w) => w,
        Err((i, bad)) => {
            println!("the history itself fails at `{}`:", hist[i].text());
            for b in bad {
                println!("  {:?}: {}", b.aspect, b.what);
            }
            return 1;
        }
    };
    println!("forest: [{}]", w.model.text());
    set_history(hist);
    let tell = |what: &str, r: Result<Result<(), String>, Panicked>| {
        println!("{what}: {r:?}");
        i32::from(!matches!(r, Ok(Ok(()))))
    };
    let op = match last {
        Some(o) => o,
        None => {
            return match &s.state_check {
                Some(sc) => tell("state check", guard(|| sc(&s.ctx, &w, &mut Stats::default()))),
                None => 0,
            }
        }
    };
    let ex = expect(&s.ctx, &w.model, op);
    println!("call: {}; must end with {}", op.text(), mask_text(ex.allowed));
    if let (Some(sc), true) = (&s.step_check, (s.kinds)(op)) {
        return tell("check of the call", guard(|| sc(&s.ctx, &w, op, &ex, &mut Stats::default())));
    }
    let again = s.on_bad.as_ref().map(|_| w.clone());
    match step(s, w, op, &ex).0 {
        Step::Bad(bad) => {
            if let (Some(ob), Some(w)) = (&s.on_bad, again) {
                if !bad.iter().any(|b| (s.relevant)(op, &ex, b)) {
                    return tell("check of what the call leaves", Ok(bad_world(s, ob, w, op)));
                }
            }
            for b in &bad {
                println!("  {:?}: {}", b.aspect, b.what);
            }
            1
        }
        Step::Good(w, known) => {
            println!("conforms; forest: [{}] {}", w.model.text(), known.unwrap_or(""));
            i32::from(known.is_some())
        }
        Step::Skip => {
            println!("an argument does not exist");
            0
        }
    }
}
