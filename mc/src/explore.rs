//! Explicit-state exploration of the real forest, in parallel, breadth first.

use crate::model::*;
use crate::ops::*;
use crate::report::*;
use crate::util::*;
use std::collections::HashSet;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    /// Every call is checked against the model.
    Model,
    /// The forest's own answers are only checked for being a proper forest; the state explored
    /// next is whatever is observed.
    Observe,
    /// Every call is checked against the model; after a difference that does not break the
    /// property under check, the exploration goes on from what the forest itself says.
    Adopt,
}

/// Code of "the per-state check" in breadcrumbs.
pub const STATE_CHECK: u64 = 0xFF;

thread_local! {
    static HISTORY: std::cell::RefCell<Vec<Op>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// The history of the state being expanded, for checks that want to start anew.
pub fn set_history(h: &[Op]) {
    HISTORY.with(|x| *x.borrow_mut() = h.to_vec());
}
pub fn history() -> Vec<Op> {
    HISTORY.with(|x| x.borrow().clone())
}

type StateCheck<I, P> = dyn Fn(&Ctx<I, P>, &World<I, P>, &mut Stats) -> Result<(), String> + Sync;
type StepCheck<I, P> =
    dyn Fn(&Ctx<I, P>, &World<I, P>, Op, &Expect, &mut Stats) -> Result<(), String> + Sync;

pub struct Spec<I: NodeIdLike, P: Pay> {
    pub name: String,
    pub bounds: String,
    pub ctx: Ctx<I, P>,
    pub mode: Mode,
    /// Histories the exploration starts from.
    pub seeds: Vec<Vec<Op>>,
    /// Nodes that may be created after the seed (counted in attempts).
    pub creations: usize,
    /// Nodes that a judged call may create beyond that.
    pub extra: usize,
    /// Longest history after the seed.
    pub depth: usize,
    /// Which operations may be judged, by their looks alone.
    pub kinds: Box<dyn Fn(Op) -> bool + Sync>,
    /// Which operations are judged (given whether the documentation allows the call).
    pub judged: Box<dyn Fn(Op, &Expect) -> bool + Sync>,
    /// Which differences break the property under check; others only end the path.
    pub relevant: Box<dyn Fn(Op, &Expect, &Mismatch) -> bool + Sync>,
    /// Checked in every state.
    pub state_check: Option<Box<StateCheck<I, P>>>,
    /// Checked on every judged (state, operation) pair, instead of the model comparison.
    pub step_check: Option<Box<StepCheck<I, P>>>,
    /// After which judged calls every further basic call is checked too (`true`: only if the
    /// forest's internals changed at all).
    pub followup: Option<Box<dyn Fn(Op, &Expect) -> Option<bool> + Sync>>,
    /// Whether the calls checked after a judged one include those naming dead nodes, which must
    /// panic (slow).
    pub follow_dead: bool,
    /// Checked on the forest (and the ids handed out) after a call whose effect differs from the
    /// model in a way that is not this property's, if it is not a proper forest any more.
    #[allow(clippy::type_complexity)]
    pub on_bad: Option<Box<dyn Fn(&Ctx<I, P>, &World<I, P>) -> Result<(), String> + Sync>>,
    /// A state that the same history does not reach without `Forest::clone` breaks the property.
    pub divergence_is_violation: bool,
    /// A difference for which this holds is another property's.
    #[allow(clippy::type_complexity)]
    pub excuse: Option<Box<dyn Fn(&[Op], Op) -> bool + Sync>>,
    pub max_states: usize,
}

pub trait NodeIdLike: Idt {}
impl<T: Idt> NodeIdLike for T {}

impl<I: Idt, P: Pay> Spec<I, P> {
    pub fn new(name: &str, probes: usize) -> Self {
        Spec {
            name: name.to_owned(),
            bounds: String::new(),
            ctx: Ctx::new(probes),
            mode: Mode::Model,
            seeds: vec![Vec::new()],
            creations: 4,
            extra: 0,
            depth: usize::MAX,
            kinds: Box::new(|_| false),
            judged: Box::new(|_, _| true),
            relevant: Box::new(|_, _, _| true),
            state_check: None,
            step_check: None,
            followup: None,
            follow_dead: false,
            on_bad: None,
            divergence_is_violation: false,
            excuse: None,
            max_states: usize::MAX,
        }
    }
}

/// Node arguments used on a forest of this size.
pub fn pick_args(m: &Model) -> Args {
    let n = m.nodes.len();
    if n <= 26 {
        return Args::All;
    }
    let mut v: Vec<N> = vec![0, 1, 2, (n / 2) as N, n as N - 2, n as N - 1];
    let mut extra = Vec::new();
    if let Some(hub) = m.live().max_by_key(|&x| m.n(x).children.len()) {
        let k = &m.n(hub).children;
        extra.push(hub);
        for i in [0, 1, k.len() / 2, k.len().saturating_sub(2), k.len().saturating_sub(1)] {
            extra.extend(k.get(i));
        }
    }
    let depth = m.depths();
    if let Some(deep) = m.live().max_by_key(|&x| depth[x as usize]) {
        extra.push(deep);
        let mut x = deep;
        while let Some(p) = m.n(x).parent {
            x = p;
            if extra.len() < 12 {
                extra.push(p);
            }
        }
        extra.push(x);
    }
    v.extend(extra);
    if n > 5000 {
        v.truncate(6);
        if let Some(c) = m.live().filter_map(|x| m.n(x).children.last()).max() {
            v.push(*c);
        }
        v.extend(m.live().max_by_key(|&x| depth[x as usize]));
        v.extend(m.live().nth(1));
    }
    v.retain(|&x| (x as usize) < n);
    v.sort_unstable();
    v.dedup();
    Args::Some(v)
}

/// What the forest itself says its structure is, if that is a proper forest.
pub fn observe<I: Idt, P: Pay>(
    ctx: &Ctx<I, P>,
    w: &World<I, P>,
) -> Result<(Model, Vec<I>), String> {
    guard(|| observe_inner(ctx, w)).unwrap_or_else(|p| Err(format!("a query panicked: {}", p.msg)))
}

fn observe_inner<I: Idt, P: Pay>(
    ctx: &Ctx<I, P>,
    w: &World<I, P>,
) -> Result<(Model, Vec<I>), String> {
    let f = &w.forest;
    let mut ids = w.ids.clone();
    // Nodes created by calls that did not return their id.
    ids.extend(ctx.unknown(&w.ids).filter(|p| f.node(*p).is_some()));
    // Index of an id by its hash; linear for small forests.
    let index: Option<std::collections::HashMap<I, N, CheapHash>> = if ids.len() > 24 {
        Some(ids.iter().enumerate().map(|(i, &x)| (x, i as N)).collect())
    } else {
        None
    };
    let find = |x: I| match &index {
        Some(h) => h.get(&x).copied(),
        None => ids.iter().position(|&y| y == x).map(|i| i as N),
    };
    let live = |from: usize, what: &str, x: I| -> Result<N, String> {
        let i = find(x).ok_or_else(|| format!("{what} of #{from} is {x:?}, which was never created"))?;
        if f.node(x).is_none() {
            return Err(format!("{what} of #{from} is #{i}, which is removed"));
        }
        Ok(i)
    };
    let n = ids.len();
    let mut m = Model { nodes: Vec::with_capacity(n), attempts: w.model.attempts };
    // In whose child list a node is.
    let mut listed: Vec<Option<N>> = vec![None; n];
    for (i, &id) in ids.iter().enumerate() {
        let node = match f.node(id) {
            Some(v) => v,
            None => {
                m.nodes.push(None);
                continue;
            }
        };
        let parent = match node.parent_id() {
            Some(p) => Some(live(i, "parent", p)?),
            None => None,
        };
        let prev = match node.prev_sibling_id() {
            Some(p) => Some(live(i, "previous sibling", p)?),
            None => None,
        };
        let next = match node.next_sibling_id() {
            Some(p) => Some(live(i, "next sibling", p)?),
            None => None,
        };
        if parent.is_none() && (prev.is_some() || next.is_some()) {
            return Err(format!("#{i} is a root but has a sibling"));
        }
        let mut children = Vec::new();
        let mut c = node.first_child_id();
        let mut before: Option<I> = None;
        while let Some(x) = c {
            let k = live(i, "child", x)?;
            if listed[k as usize] == Some(i as N) {
                return Err(format!("the child list of #{i} visits #{k} twice"));
            }
            listed[k as usize] = Some(i as N);
            children.push(k);
            let cn = f.node(x).ok_or("dead child")?;
            if cn.parent_id() != Some(id) {
                return Err(format!("#{k} is in the child list of #{i}, but its parent is another"));
            }
            if cn.prev_sibling_id() != before {
                return Err(format!(
                    "#{k} follows {} in the child list of #{i}, but its previous sibling is {}",
                    before.and_then(find).map_or("nothing".into(), |x| format!("#{x}")),
                    cn.prev_sibling_id().and_then(find).map_or("none".into(), |x| format!("#{x}"))
                ));
            }
            before = Some(x);
            c = cn.next_sibling_id();
        }
        if node.last_child_id() != before {
            return Err(format!("the last child of #{i} is not the end of its child list"));
        }
        if node.first_last_child_id() != node.first_child_id().zip(before) {
            return Err(format!("first and last child of #{i} disagree with its child list"));
        }
        m.nodes.push(Some(MNode { parent, children, tag: node.data().tag() }));
    }
    // Nodes known to have a root.
    let mut rooted = vec![false; n];
    for i in m.live() {
        let mut x = i;
        if let Some(p) = m.n(i).parent {
            if listed[i as usize] != Some(p) {
                return Err(format!("#{p} is the parent of #{i}, but does not list it as a child"));
            }
        }
        let mut up = vec![i];
        while let (false, Some(p)) = (rooted[x as usize], m.n(x).parent) {
            x = p;
            up.push(x);
            if up.len() > n + 1 {
                return Err(format!("#{i} has an endless chain of ancestors"));
            }
        }
        for u in up {
            rooted[u as usize] = true;
        }
    }
    Ok((m, ids))
}

/// A breach found: which history, which call.
pub struct Breach {
    pub history: Vec<Op>,
    pub last: Option<Op>,
    pub what: String,
}

pub fn history_text(history: &[Op], last: Option<Op>) -> String {
    let mut o = String::new();
    for h in history {
        o.push_str(&format!("op {}\n", h.text()));
    }
    match last {
        Some(l) => o.push_str(&format!("judge {}\n", l.text())),
        None => o.push_str("judge state\n"),
    }
    o.push_str("\n# The same as plain Rust (ids[i] is the i-th created node):\n");
    o.push_str("# let mut f: Forest<NodeIdUsize, u32> = Forest::new(); let mut ids = Vec::new();\n");
    let mut attempts = 0;
    for h in history.iter().chain(last.iter()) {
        o.push_str(&format!("# {}\n", h.rust(tag_of(attempts))));
        if matches!(h, Op::CreateRoot | Op::Create { .. }) {
            attempts += 1;
        }
    }
    o
}

/// Number of creations a call attempts.
pub fn attempts_of<I: Idt, P: Pay>(ctx: &Ctx<I, P>, m: &Model, op: Op) -> u32 {
    match op {
        Op::CreateRoot => 1,
        Op::Create { via, anchor, .. } => u32::from(via == Via::Forest || m.alive(anchor)),
        Op::CloneLocal { node, .. } | Op::CloneTwin { node, .. } => {
            if m.alive(node) {
                m.size(node) as u32
            } else {
                0
            }
        }
        Op::CloneForeign { node, .. } => ctx.donor.model.size(node) as u32,
        _ => 0,
    }
}

pub enum Step<I: NodeIdLike, P: Pay> {
    /// The call conforms; the world after it.
    Good(World<I, P>, Option<&'static str>),
    /// The call differs from the model, in a way that breaks the property or not.
    Bad(Vec<Mismatch>),
    /// An argument does not exist.
    Skip,
}

/// Runs one call on (a clone of) a world and judges it.
pub fn step<I: Idt, P: Pay>(
    spec: &Spec<I, P>,
    mut w: World<I, P>,
    op: Op,
    ex: &Expect,
) -> (Step<I, P>, u8) {
    let ac = match apply_real(&spec.ctx, &mut w, op) {
        Some(a) => a,
        None => return (Step::Skip, 0),
    };
    match spec.mode {
        Mode::Model => match settle(&spec.ctx, &mut w, op, ex, &ac) {
            Ok(k) => (Step::Good(w, k), ac.outcome),
            Err(bad) => (Step::Bad(bad), ac.outcome),
        },
        Mode::Adopt => {
            let before = (w.model.clone(), w.ids.clone());
            match settle(&spec.ctx, &mut w, op, ex, &ac) {
                Ok(k) => (Step::Good(w, k), ac.outcome),
                Err(bad) if bad.iter().any(|b| (spec.relevant)(op, ex, b)) => (Step::Bad(bad), ac.outcome),
                Err(bad) => {
                    (w.model, w.ids) = before;
                    match adopt(spec, w, op, ex, &ac) {
                        Ok(w) => (Step::Good(w, None), ac.outcome),
                        Err(_) => (Step::Bad(bad), ac.outcome),
                    }
                }
            }
        }
        Mode::Observe => match adopt(spec, w, op, ex, &ac) {
            Ok(w) => (Step::Good(w, None), ac.outcome),
            Err(what) => (Step::Bad(vec![Mismatch { aspect: Aspect::Links, what }]), ac.outcome),
        },
    }
}

/// Takes what the forest says after a call for the truth, if that is a proper forest.
fn adopt<I: Idt, P: Pay>(
    spec: &Spec<I, P>,
    mut w: World<I, P>,
    op: Op,
    ex: &Expect,
    ac: &Actual<I>,
) -> Result<World<I, P>, String> {
    let add = attempts_of(&spec.ctx, &w.model, op);
    if let Some(r) = ac.new_root {
        if let Ok(v) = guard(|| walk(&w.forest, r, 4096)) {
            for x in v {
                if !w.ids.contains(&x) {
                    w.ids.push(x);
                    if ex.pairs.is_some() {
                        let tag = tag_of(w.ids.len() as u32 - 1);
                        let f = &mut w.forest;
                        let _ = guard(|| f.data_mut(x).map(|d| *d = P::make(tag)));
                    }
                }
            }
        }
    }
    let (mut m, ids) = observe(&spec.ctx, &w)?;
    m.attempts = w.model.attempts + add;
    w.model = m.into();
    w.ids = ids;
    Ok(w)
}

/// Histories longer than this are replayed without looking at the forest after each call.
const LONG: usize = 900;
/// ... but for their last calls.
const TAIL: usize = 24;

/// Runs valid calls in a row, with the model stepped along; compares nothing but their outcomes.
fn rush<I: Idt, P: Pay>(ctx: &Ctx<I, P>, history: &[Op]) -> Result<World<I, P>, (usize, Vec<Mismatch>)> {
    let mut w = World::empty();
    let mut seen: HashSet<I, CheapHash> = HashSet::default();
    for (i, &op) in history.iter().enumerate() {
        let ac = apply_real(ctx, &mut w, op).ok_or((i, Vec::new()))?;
        if ac.outcome != OK {
            let what = format!("the call ended with {} ({}), should be success", mask_text(ac.outcome), ac.msg);
            let mut bad = vec![Mismatch { aspect: Aspect::Outcome, what: what.clone() }];
            if ac.outcome == PANIC {
                bad.push(Mismatch { aspect: Aspect::ValidPanic, what });
            }
            return Err((i, bad));
        }
        if !std::sync::Arc::make_mut(&mut w.model).advance(op) {
            return Err((i, Vec::new()));
        }
        if let Some(id) = ac.new_root {
            if !seen.insert(id) {
                let what = format!("the new node's id {id:?} had been handed out before");
                return Err((i, vec![Mismatch { aspect: Aspect::NewId, what }]));
            }
            w.ids.push(id);
        }
    }
    Ok(w)
}

/// The forest after a long history, if the history goes by the model.
pub fn rush_through<I: Idt, P: Pay>(ctx: &Ctx<I, P>, history: &[Op]) -> Option<World<I, P>> {
    let w = rush(ctx, history).ok()?;
    let mut bad = Vec::new();
    compare(ctx, &w.forest, &w.ids, &w.model, &mut bad);
    bad.is_empty().then_some(w)
}

/// Judges the forest after such a row of calls as `step` would after a single one.
fn look<I: Idt, P: Pay>(spec: &Spec<I, P>, mut w: World<I, P>) -> Result<World<I, P>, Vec<Mismatch>> {
    let mut bad = Vec::new();
    if spec.mode != Mode::Observe {
        compare(&spec.ctx, &w.forest, &w.ids, &w.model, &mut bad);
        if bad.is_empty() {
            return Ok(w);
        }
        if spec.mode == Mode::Model {
            return Err(bad);
        }
    }
    match observe(&spec.ctx, &w) {
        Ok((mut m, ids)) => {
            m.attempts = w.model.attempts;
            w.model = m.into();
            w.ids = ids;
            Ok(w)
        }
        Err(what) if bad.is_empty() => Err(vec![Mismatch { aspect: Aspect::Links, what }]),
        Err(_) => Err(bad),
    }
}

/// Replays a history from an empty forest, without ever cloning the forest.
pub fn replay<I: Idt, P: Pay>(spec: &Spec<I, P>, history: &[Op]) -> Result<World<I, P>, (usize, Vec<Mismatch>)> {
    let mut w = World::empty();
    let mut from = 0;
    if history.len() > LONG {
        from = history.len() - TAIL;
        w = rush(&spec.ctx, &history[..from])?;
        w = match look(spec, w) {
            Ok(w) => w,
            Err(bad) => {
                // The shortest history after which the forest is bad.
                let (mut lo, mut hi, mut at_hi) = (0, from, bad);
                while lo + 1 < hi {
                    let mid = (lo + hi) / 2;
                    match look(spec, rush(&spec.ctx, &history[..mid])?) {
                        Ok(_) => lo = mid,
                        Err(b) => (hi, at_hi) = (mid, b),
                    }
                }
                return Err((hi - 1, at_hi));
            }
        };
    }
    for (i, &op) in history.iter().enumerate().skip(from) {
        let ex = expect(&spec.ctx, &w.model, op);
        match step(spec, w, op, &ex).0 {
            Step::Good(x, _) => w = x,
            Step::Bad(b) => return Err((i, b)),
            Step::Skip => return Err((i, Vec::new())),
        }
    }
    Ok(w)
}

/// Hashes of the abstract state alone, and with all the forest's internals.
fn state_key<I: Idt, P: Pay>(w: &World<I, P>) -> (u128, u128) {
    let mut h = Hash128::default();
    h.u64(w.model.attempts as u64);
    for n in &w.model.nodes {
        match n {
            None => h.u64(0),
            Some(n) => {
                h.u64(1 + n.parent.map_or(0, |p| p as u64 + 1) + ((n.tag as u64) << 32));
                h.u64(n.children.len() as u64);
                for &c in &n.children {
                    h.u64(c as u64);
                }
            }
        }
    }
    let abs = h.finish();
    let d = debug_hash(&w.forest);
    h.u64(d as u64);
    h.u64((d >> 64) as u64);
    (abs, h.finish())
}

const SHARDS: usize = 256;

/// Most states that differ in nothing but the forest's internals that are explored. As the crate
/// is, links and payloads determine the internals, but they might come to hold a counter, say.
const ALIKE: u8 = 16;

#[derive(Default)]
struct Shard {
    full: HashSet<u128>,
    alike: std::collections::HashMap<u128, u8>,
}

/// What the others are counted as.
const ENOUGH: &str = "further states that differ from 16 explored ones in internals only, not expanded";

/// Whether a state is to be explored.
enum Visit {
    New,
    Old,
    /// New, but there have been enough that look the same.
    Enough,
}

struct Item<I: NodeIdLike, P: Pay> {
    w: World<I, P>,
    trace: u32,
    budget: usize,
}

unsafe impl<I: NodeIdLike, P: Pay> Send for Item<I, P> {}
unsafe impl<I: NodeIdLike, P: Pay> Sync for Item<I, P> {}

struct Worker<I: NodeIdLike, P: Pay> {
    next: Vec<(World<I, P>, u32, u64, usize)>,
    stats: Stats,
    ops: Vec<Op>,
    outcomes: [u64; 256],
    by_kind: [u64; 16],
}

/// Explores; reports a violation through `report::violation`. Returns the figures.
pub fn explore<I: Idt, P: Pay>(spec: &Spec<I, P>) -> Stats {
    let mut total = Stats::default();
    if violated() {
        return total;
    }
    let visited: Vec<Mutex<Shard>> = (0..SHARDS).map(|_| Mutex::default()).collect();
    let is_new = |(abs, full): (u128, u128)| {
        let mut s = visited[(abs >> 100) as usize % SHARDS].lock().expect("shard");
        if !s.full.insert(full) {
            return Visit::Old;
        }
        let n = s.alike.entry(abs).or_insert(0);
        if *n >= ALIKE {
            return Visit::Enough;
        }
        *n += 1;
        Visit::New
    };
    // (parent, op); a seed has parent u32::MAX and its index.
    let mut trace: Vec<(u32, u64)> = Vec::new();
    let mut frontier: Vec<Item<I, P>> = Vec::new();
    for (i, s) in spec.seeds.iter().enumerate() {
        let packed: Vec<u64> = s.iter().map(|o| o.pack()).collect();
        crumb_state(&packed);
        match replay(spec, s) {
            Ok(w) => {
                if matches!(is_new(state_key(&w)), Visit::New) {
                    trace.push((u32::MAX, i as u64));
                    frontier.push(Item { w, trace: trace.len() as u32 - 1, budget: spec.creations });
                    total.traces += u64::from(!s.is_empty());
                }
            }
            Err((k, bad)) => {
                if judge_bad(spec, &s[..k], s[k], bad) {
                    return total;
                }
                total.count("seeds left out (building them breaks another property)", 1);
            }
        }
    }
    let mut depth = 0;
    let deadline = run().share();
    let started = std::time::Instant::now();
    while !frontier.is_empty() {
        total.states += frontier.len() as u64;
        total.max_depth = depth as u64;
        let last_level = depth + 1 >= spec.depth;
        let frontier_ref = &frontier;
        let trace_ref = &trace;
        let capped_flag = std::sync::atomic::AtomicBool::new(false);
        let workers = par_for(
            STACK,
            frontier.len(),
            || Worker {
                next: Vec::new(),
                stats: Stats::default(),
                ops: Vec::new(),
                outcomes: [0; 256],
                by_kind: [0; 16],
            },
            |wk, i| {
                let over = || {
                    if capped_flag.load(std::sync::atomic::Ordering::Relaxed) {
                        return true;
                    }
                    let o = started.elapsed().as_secs_f64() > deadline;
                    if o {
                        capped_flag.store(true, std::sync::atomic::Ordering::Relaxed);
                    }
                    o
                };
                if over() {
                    return;
                }
                expand(spec, &frontier_ref[i], trace_ref, last_level, &is_new, &over, wk);
            },
        );
        let mut next: Vec<Item<I, P>> = Vec::new();
        for mut wk in workers {
            total.add(&wk.stats);
            for (i, n) in wk.outcomes.iter().enumerate().filter(|(_, n)| **n > 0) {
                total.count(&format!("outcome {}", mask_text(i as u8)), *n);
            }
            for (w, parent, op, budget) in wk.next.drain(..) {
                trace.push((parent, op));
                next.push(Item { w, trace: trace.len() as u32 - 1, budget });
            }
        }
        if violated() {
            return total;
        }
        if capped_flag.load(std::sync::atomic::Ordering::Relaxed) {
            total.capped = Some(format!("time: histories of {depth} operations not all expanded"));
            break;
        }
        if last_level {
            break;
        }
        frontier = next;
        depth += 1;
        if trace.len() > spec.max_states {
            total.states += frontier.len() as u64;
            total.capped = Some(format!(
                "state limit {} reached: histories of up to {} operations fully covered",
                spec.max_states, depth
            ));
            break;
        }
    }
    total
}

fn path<I: Idt, P: Pay>(spec: &Spec<I, P>, trace: &[(u32, u64)], mut t: u32) -> Vec<Op> {
    let mut rev = Vec::new();
    loop {
        let (p, o) = trace[t as usize];
        if p == u32::MAX {
            let mut v = spec.seeds[o as usize].clone();
            rev.reverse();
            v.extend(rev);
            return v;
        }
        rev.push(Op::unpack(o).expect("packed op"));
        t = p;
    }
}

/// Reports a difference if it breaks the property and shows again on replay.
fn judge_bad<I: Idt, P: Pay>(spec: &Spec<I, P>, history: &[Op], op: Op, bad: Vec<Mismatch>) -> bool {
    let again = |w: World<I, P>| -> Option<Mismatch> {
        let ex = expect(&spec.ctx, &w.model, op);
        match step(spec, w, op, &ex).0 {
            Step::Bad(b) => b.into_iter().find(|b| (spec.relevant)(op, &ex, b)),
            _ => None,
        }
    };
    if bad.is_empty() {
        return false;
    }
    match replay(spec, history) {
        Ok(w) => {
            let text = w.model.text();
            if let Some(b) = again(w) {
                if spec.excuse.as_ref().map_or(false, |e| e(history, op)) {
                    return false;
                }
                violation(
                    &format!("in the forest [{}], after `{}`: {}", text, op.text(), b.what),
                    &history_text(history, Some(op)),
                );
                return true;
            }
        }
        // It goes wrong earlier when looked at more closely.
        Err((k, bad)) => return judge_bad(spec, &history[..k], history[k], bad),
    }
    false
}

fn expand<I: Idt, P: Pay>(
    spec: &Spec<I, P>,
    item: &Item<I, P>,
    trace: &[(u32, u64)],
    last_level: bool,
    is_new: &(impl Fn((u128, u128)) -> Visit + Sync),
    over: &(impl Fn() -> bool + Sync),
    wk: &mut Worker<I, P>,
) {
    let hist = path(spec, trace, item.trace);
    let packed: Vec<u64> = hist.iter().map(|o| o.pack()).collect();
    crumb_state(&packed);
    set_history(&hist);
    // The same history without cloning must lead to the same state.
    if trace[item.trace as usize].0 != u32::MAX {
        crumb_call(STATE_CHECK);
        match replay(spec, &hist) {
            Ok(w) if debug_hash(&w.forest) == debug_hash(&item.w.forest) => wk.stats.traces += 1,
            Ok(_) => {
                wk.stats.count("states the bare history reaches with other internals", 1);
            }
            Err((k, bad)) => {
                wk.stats.count("states the bare history reaches differently", 1);
                if spec.divergence_is_violation {
                    violation(
                        "this history leads to another state when the forest is cloned after each call",
                        &history_text(&hist, None),
                    );
                    return;
                }
                if judge_bad(spec, &hist[..k], hist[k], bad) {
                    return;
                }
            }
        }
        crumb_idle();
    }
    if let Some(sc) = &spec.state_check {
        crumb_call(STATE_CHECK);
        let r = match guard(|| sc(&spec.ctx, &item.w, &mut wk.stats)) {
            Ok(r) => r,
            Err(p) => Err(format!("a call panicked: {}", p.msg)),
        };
        crumb_idle();
        if let Err(what) = r {
            violation(
                &format!("in the forest [{}]: {}", item.w.model.text(), what),
                &history_text(&hist, None),
            );
            return;
        }
    }
    if spec.depth == 0 {
        return;
    }
    let args = pick_args(&item.w.model);
    let mut pre_hash: Option<u128> = None;
    let mut ops = std::mem::take(&mut wk.ops);
    enumerate(&spec.ctx, &item.w.model, &args, item.budget + spec.extra, &mut ops);
    for &op in &ops {
        if over() {
            break;
        }
        let kind = (spec.kinds)(op);
        if !kind && (last_level || !basic_kind(op)) {
            continue;
        }
        let ex = expect(&spec.ctx, &item.w.model, op);
        let judged = kind && (spec.judged)(op, &ex);
        if !judged && (last_level || !basic(op, &ex)) {
            continue;
        }
        let beyond = spec.extra > 0 && attempts_of(&spec.ctx, &item.w.model, op) as usize > item.budget;
        if beyond && !judged {
            continue;
        }
        crumb_call(op.pack());
        if judged {
            if let Some(sc) = &spec.step_check {
                let r = match guard(|| sc(&spec.ctx, &item.w, op, &ex, &mut wk.stats)) {
                    Ok(r) => r,
                    Err(p) => Err(format!("a call panicked: {}", p.msg)),
                };
                wk.stats.transitions += 1;
                if let Err(what) = r {
                    crumb_idle();
                    violation(
                        &format!("in the forest [{}], with `{}`: {}", item.w.model.text(), op.text(), what),
                        &history_text(&hist, Some(op)),
                    );
                    return;
                }
                if last_level || beyond || !basic(op, &ex) {
                    continue;
                }
            }
        }
        let before = item.w.model.attempts;
        let (st, outcome) = step(spec, item.w.clone(), op, &ex);
        if spec.step_check.is_none() || !judged {
            wk.stats.transitions += 1;
        }
        wk.outcomes[outcome as usize] += 1;
        wk.by_kind[(op.pack() & 15) as usize] += 1;
        match st {
            Step::Skip => {}
            Step::Good(w, known) => {
                if let Some(k) = known {
                    if judged && run().prop == "C03" {
                        if !run().known.iter().any(|x| x == k) {
                            judge_known(spec, &hist, op, k, &item.w.model);
                            return;
                        }
                        let e = wk.stats.known.entry(k.to_owned()).or_insert((0, op.text()));
                        e.0 += 1;
                    }
                    continue;
                }
                if !w.model.check() {
                    harness_error("the model itself is not a forest");
                }
                if let (true, Some(fu)) = (judged, &spec.followup) {
                    if let Some(only_if_changed) = fu(op, &ex) {
                        if !only_if_changed || debug_hash(&w.forest) != *pre_hash.get_or_insert_with(|| debug_hash(&item.w.forest)) {
                            if follow(spec, &hist, op, &w, item.budget, &mut wk.stats) {
                                return;
                            }
                        }
                    }
                }
                if last_level {
                    continue;
                }
                let spent = (w.model.attempts - before) as usize;
                if spent > item.budget {
                    continue;
                }
                match is_new(state_key(&w)) {
                    Visit::Old => {}
                    Visit::Enough => {
                        wk.stats.count(ENOUGH, 1);
                    }
                    Visit::New => {
                        wk.stats.sample(|| {
                            format!(
                                "[{}] --{}--> [{}]",
                                item.w.model.text(),
                                op.text(),
                                w.model.text()
                            )
                        });
                        wk.next.push((w, item.trace, op.pack(), item.budget - spent));
                    }
                }
            }
            Step::Bad(bad) => {
                crumb_idle();
                if bad.iter().any(|b| (spec.relevant)(op, &ex, b)) && judged_or_all(judged, spec)
                    && judge_bad(spec, &hist, op, bad)
                {
                    return;
                }
                if let Some(ob) = &spec.on_bad {
                    if let Err(what) = bad_world(spec, ob, item.w.clone(), op) {
                        let again = match replay(spec, &hist) {
                            Ok(w) => bad_world(spec, ob, w, op).is_err(),
                            Err(_) => false,
                        };
                        if again {
                            violation(
                                &format!("in the forest [{}], after `{}`: {}", item.w.model.text(), op.text(), what),
                                &history_text(&hist, Some(op)),
                            );
                            return;
                        }
                    }
                }
                wk.stats.count("paths ended by differences that belong to other properties", 1);
            }
        }
    }
    crumb_idle();
    wk.ops = ops;
}

/// In observing mode every call is judged, since every call's effect is.
fn judged_or_all<I: Idt, P: Pay>(judged: bool, spec: &Spec<I, P>) -> bool {
    judged || spec.mode == Mode::Observe
}

/// Runs a call and the check of what it leaves.
#[allow(clippy::type_complexity)]
pub fn bad_world<I: Idt, P: Pay>(
    spec: &Spec<I, P>,
    ob: &(dyn Fn(&Ctx<I, P>, &World<I, P>) -> Result<(), String> + Sync),
    mut w: World<I, P>,
    op: Op,
) -> Result<(), String> {
    if apply_real(&spec.ctx, &mut w, op).is_none() {
        return Ok(());
    }
    match guard(|| ob(&spec.ctx, &w)) {
        Ok(r) => r,
        Err(p) => Err(format!("a call panicked: {}", p.msg)),
    }
}

fn judge_known<I: Idt, P: Pay>(_spec: &Spec<I, P>, hist: &[Op], op: Op, key: &str, m: &Model) {
    violation(
        &format!("in the forest [{}], `{}` returns silently, the documentation says it panics ({key})", m.text(), op.text()),
        &history_text(hist, Some(op)),
    );
}

/// Checks every basic call after a judged one. A difference counts only if the same call conforms
/// on a freshly built forest in the same abstract state.
fn follow<I: Idt, P: Pay>(
    spec: &Spec<I, P>,
    hist: &[Op],
    op: Op,
    w: &World<I, P>,
    budget: usize,
    stats: &mut Stats,
) -> bool {
    let mut ops = Vec::new();
    enumerate(&spec.ctx, &w.model, &pick_args(&w.model), budget.max(1), &mut ops);
    for op2 in ops {
        if !basic_kind(op2) {
            continue;
        }
        let ex = expect(&spec.ctx, &w.model, op2);
        if !basic(op2, &ex) && !(spec.follow_dead && ex.allowed & PANIC != 0) {
            continue;
        }
        stats.count("calls following a judged call", 1);
        if let (Step::Bad(bad), _) = step(spec, w.clone(), op2, &ex) {
            let fresh_ok = rebuild(&spec.ctx, &w.model)
                .map_or(false, |r| matches!(step(spec, r, op2, &ex).0, Step::Good(..)));
            if fresh_ok {
                let mut h = hist.to_vec();
                h.push(op);
                // Confirm without cloning.
                let again = match replay(spec, &h) {
                    Ok(r) => matches!(step(spec, r, op2, &ex).0, Step::Bad(_)),
                    Err(_) => false,
                };
                if again {
                    violation(
                        &format!(
                            "after `{}` the forest is [{}]; then `{}` goes wrong ({}), which it does not on a fresh forest of that shape",
                            op.text(), w.model.text(), op2.text(), bad[0].what
                        ),
                        &history_text(&h, Some(op2)),
                    );
                    return true;
                }
            }
        }
    }
    false
}
