//! Verdicts, replay files and the evidence of a run.

use crate::util::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub struct Run {
    pub prop: String,
    pub tier: String,
    pub variant: String,
    pub replay_dir: String,
    pub out: String,
    pub known: Vec<String>,
    pub start: Instant,
    /// Seconds this run may explore.
    pub budget: f64,
}

impl Run {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn remaining(&self) -> f64 {
        self.budget - self.start.elapsed().as_secs_f64()
    }
    /// Seconds the next part of the check may take, so that the others get their turn, too.
    pub fn share(&self) -> f64 {
        self.remaining() * if self.thorough() { 0.8 } else { 0.6 }
    }
}

static RUN: OnceLock<Run> = OnceLock::new();
static VIOLATED: AtomicBool = AtomicBool::new(false);

pub fn set_run(r: Run) {
    let _ = RUN.set(r);
}
pub fn run() -> &'static Run {
    RUN.get().expect("run is set")
}

/// One exploration's figures.
#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub max_depth: u64,
    /// Whether the stated space was covered completely.
    pub capped: Option<String>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, (u64, String)>,
}

impl Stats {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_owned(), n);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn add(&mut self, o: &Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.max_depth = self.max_depth.max(o.max_depth);
        if self.capped.is_none() {
            self.capped = o.capped.clone();
        }
        for (k, v) in &o.counts {
            self.count(k, *v);
        }
        for s in &o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s.clone());
            }
        }
        for (k, (n, s)) in &o.known {
            let e = self.known.entry(k.clone()).or_insert((0, s.clone()));
            e.0 += n;
        }
    }
}

#[derive(Default)]
pub struct Evidence {
    pub parts: Vec<(String, String, Stats)>,
}

static EVIDENCE: Mutex<Evidence> = Mutex::new(Evidence { parts: Vec::new() });
static VIOLATION_LINES: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Adds the figures of one finished exploration. `bounds` says what space it covers.
pub fn record(name: &str, bounds: &str, s: Stats) {
    println!(
        "  [{} {:.0} s] {}: {} states, {} transitions, {} traces replayed{}{}",
        run().variant,
        run().start.elapsed().as_secs_f64(),
        name,
        s.states,
        s.transitions,
        s.traces,
        match &s.capped {
            Some(c) => format!(", CAPPED: {c}"),
            None => String::new(),
        },
        {
            let mut t = String::new();
            for (k, v) in &s.counts {
                let _ = write!(t, "; {k}={v}");
            }
            t
        }
    );
    EVIDENCE.lock().expect("evidence").parts.push((name.to_owned(), bounds.to_owned(), s));
}

pub fn violated() -> bool {
    VIOLATED.load(Ordering::SeqCst)
}

/// Reports a violation (the first one only): writes the replay file and asks everything to stop.
pub fn violation(what: &str, body: &str) {
    let mut lines = VIOLATION_LINES.lock().expect("lines");
    if !lines.is_empty() {
        return;
    }
    let r = run();
    let path = format!("{}/{}-{}.replay", r.replay_dir, r.prop, r.variant);
    let text = format!("property {}\nvariant {}\n# {}\n{}", r.prop, r.variant, what.replace('\n', "\n# "), body);
    if let Err(e) = std::fs::write(&path, text) {
        harness_error(&format!("cannot write {path}: {e}"));
    }
    println!("  [{}] {} broken: {}", r.variant, r.prop, what);
    let line = format!("VIOLATION property={} replay={}", r.prop, path);
    lines.push(line);
    VIOLATED.store(true, Ordering::SeqCst);
    request_stop();
}

/// Writes the figures of this run and returns the exit code.
pub fn finish() -> i32 {
    let r = run();
    let ev = EVIDENCE.lock().expect("evidence");
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"property\": {},", json_str(&r.prop));
    let _ = writeln!(o, " \"variant\": {},", json_str(&r.variant));
    let _ = writeln!(o, " \"wall_s\": {:.3},", r.start.elapsed().as_secs_f64());
    let _ = writeln!(o, " \"explorations\": [");
    for (i, (name, bounds, s)) in ev.parts.iter().enumerate() {
        let counts: Vec<String> = s.counts.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
        let samples: Vec<String> = s.samples.iter().map(|x| json_str(x)).collect();
        let _ = writeln!(
            o,
            "  {{\"name\": {}, \"bounds\": {}, \"states\": {}, \"transitions\": {}, \
             \"traces_validated_against_impl\": {}, \"max_depth\": {}, \"exhaustive\": {}, \
             \"cap\": {}, \"counts\": {{{}}}, \"samples\": [{}]}}{}",
            json_str(name),
            json_str(bounds),
            s.states,
            s.transitions,
            s.traces,
            s.max_depth,
            s.capped.is_none(),
            s.capped.as_ref().map_or("null".into(), |c| json_str(c)),
            counts.join(", "),
            samples.join(", "),
            if i + 1 < ev.parts.len() { "," } else { "" }
        );
    }
    let _ = writeln!(o, " ],");
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for (_, _, s) in &ev.parts {
        for (k, (n, t)) in &s.known {
            known.entry(k.clone()).or_insert((0, t.clone())).0 += n;
        }
    }
    let k: Vec<String> = known
        .iter()
        .map(|(k, (n, t))| format!("{{\"key\": {}, \"count\": {n}, \"example\": {}}}", json_str(k), json_str(t)))
        .collect();
    let _ = writeln!(o, " \"known\": [{}],", k.join(", "));
    let lines = VIOLATION_LINES.lock().expect("lines");
    let v: Vec<String> = lines.iter().map(|l| json_str(l)).collect();
    let _ = writeln!(o, " \"violations\": [{}]", v.join(", "));
    o.push_str("}\n");
    if let Err(e) = std::fs::write(&r.out, o) {
        harness_error(&format!("cannot write {}: {e}", r.out));
    }
    for l in lines.iter() {
        println!("{l}");
    }
    i32::from(!lines.is_empty())
}
