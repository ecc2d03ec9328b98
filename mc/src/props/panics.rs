//! C19: no panic from a valid call, and none but `[precondition]` ones at all, from any call in
//! any reachable state. States in which another property is broken are explored further, with
//! what the forest says of itself for the truth.

use crate::model::N;
use super::build::Judge;
use super::*;
use crate::shapes::*;
use std::fmt::Write;
use treena::dynamic::{ChainTreeBuilder, Forest, NestTreeBuilder};

type Id = structural::Id;
type F = Forest<Id, Val>;

/// Most steps an iterator is followed; many times what any takes on a proper forest.
fn bound(w: &World<Id, Val>) -> usize {
    8 * w.ids.len() + 64
}

/// Takes a stop: writes nothing once `left` bytes have been written.
struct Sink {
    left: usize,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        Ok(())
    }
}

/// Names of the reading requests by id; those past `OPTIONAL` have no result but a panic.
const READS: [&str; 19] = [
    "node",
    "data",
    "node_mut",
    "data_mut",
    "depth_first_traverse",
    "shallow_depth_first_traverse(None)",
    "shallow_depth_first_traverse(Some(0))",
    "shallow_depth_first_traverse(Some(1))",
    "breadth_first_traverse",
    "allocating_breadth_first_traverse",
    "ancestors",
    "ancestors_or_self",
    "children",
    "following_siblings",
    "following_siblings_or_self",
    "preceding_siblings",
    "preceding_siblings_or_self",
    "debug_print, display style",
    "debug_print, debug style",
];
pub const OPTIONAL: usize = 4;
pub const N_READS: usize = READS.len();

pub fn read_name(k: usize) -> &'static str {
    READS[k]
}

fn drain<It: Iterator + Clone + std::fmt::Debug>(it: It, most: usize, peek: impl Fn(&It)) {
    let mut i = it.clone();
    for _ in 0..most {
        peek(&i);
        let _ = i.size_hint();
        let mut c = i.clone();
        let _ = c.nth(1);
        if i.next().is_none() {
            break;
        }
    }
    let _ = (i.next(), i.next());
    peek(&i);
    let _ = format!("{it:?}").len();
}

fn drain_both<It: DoubleEndedIterator + Clone + std::fmt::Debug>(it: It, most: usize, peek: impl Fn(&It)) {
    drain(it.clone(), most, &peek);
    for pattern in [0b1111_1111u8, 0b0101_0101, 0b0011_0011, 0b0111_1111, 0b1111_1110] {
        let mut i = it.clone();
        for k in 0..most {
            peek(&i);
            let x = if pattern >> (k % 8) & 1 == 1 { i.next_back() } else { i.next() };
            if x.is_none() {
                break;
            }
        }
        let _ = (i.next(), i.next_back(), i.next());
        peek(&i);
    }
    let _ = it.clone().nth_back(1).is_some();
}

/// Makes reading request number `k`. Gives whether there was a result.
pub fn read<I: Idt, P: Pay>(f: &mut Forest<I, P>, id: I, k: usize, most: usize) -> bool {
    let depth = match k {
        5 => None,
        6 => Some(0),
        _ => Some(1),
    };
    match k {
        0 => return f.node(id).is_some(),
        1 => return f.data(id).is_some(),
        2 => return f.node_mut(id).is_some(),
        3 => return f.data_mut(id).is_some(),
        4 => drain_both(f.depth_first_traverse(id), most, |i| {
            let _ = (i.peek(), i.peek_back());
        }),
        5..=7 => drain_both(f.shallow_depth_first_traverse(id, depth), most, |i| {
            let _ = (i.peek(), i.peek_back(), i.max_depth());
        }),
        8 => drain(f.breadth_first_traverse(id), most, |_| ()),
        9 => drain(f.allocating_breadth_first_traverse(id), most, |i| {
            let _ = i.peek();
        }),
        10 | 11 => drain(if k == 10 { f.ancestors(id) } else { f.ancestors_or_self(id) }, most, |i| {
            let _ = i.peek();
        }),
        12..=16 => {
            let it = match k {
                12 => f.children(id),
                13 => f.following_siblings(id),
                14 => f.following_siblings_or_self(id),
                15 => f.preceding_siblings(id),
                _ => f.preceding_siblings_or_self(id),
            };
            drain_both(it, most, |i| {
                let _ = (i.peek(), i.peek_back());
            })
        }
        _ => {
            let mut s = Sink { left: 64 * most };
            let p = f.debug_print(id);
            let _ = if k == 17 { write!(s, "{p}") } else { write!(s, "{p:?}") };
        }
    }
    true
}

/// The handle's queries, of a live node.
fn by_handle(f: &mut F, id: Id, most: usize) {
    {
        let n = match f.node(id) {
            Some(n) => n,
            None => return,
        };
        let _ = (n.id(), n.data(), n.parent_id(), n.next_sibling_id(), n.prev_sibling_id());
        let _ = (n.first_child_id(), n.last_child_id(), n.first_last_child_id());
        let _ = (n.parent(), n.next_sibling(), n.prev_sibling(), n.first_child(), n.last_child(), n.first_last_child());
        drain_both(n.depth_first_traverse(), most, |_| ());
        drain_both(n.shallow_depth_first_traverse(Some(2)), most, |_| ());
        drain(n.breadth_first_traverse(), most, |_| ());
        drain(n.allocating_breadth_first_traverse(), most, |_| ());
        drain(n.ancestors(), most, |_| ());
        drain(n.ancestors_or_self(), most, |_| ());
        drain_both(n.children(), most, |_| ());
        drain_both(n.following_siblings(), most, |_| ());
        drain_both(n.following_siblings_or_self(), most, |_| ());
        drain_both(n.preceding_siblings(), most, |_| ());
        drain_both(n.preceding_siblings_or_self(), most, |_| ());
        let mut s = Sink { left: 64 * most };
        let _ = write!(s, "{}{:?}", n.debug_print(), n);
    }
    if let Some(mut m) = f.node_mut(id) {
        let _ = (m.id(), m.node().id(), m.data().tag());
        let _ = m.data_mut();
        let _ = m.forest().node(id);
        let mut s = Sink { left: 64 * most };
        let _ = write!(s, "{}{:?}", m.debug_print(), m);
        let _ = m.into_node().id();
    }
    if let Some(m) = f.node_mut(id) {
        let _ = m.into_data_ref_mut();
    }
}

/// A print into a sink that fails after any number of bytes.
fn failing_sinks(f: &F, id: Id) -> Result<(), String> {
    for debug in [false, true] {
        let p = f.debug_print(id);
        let all = if debug { format!("{p:?}").len() } else { format!("{p}").len() };
        for left in 0..all.min(200) {
            let mut s = Sink { left };
            let r = guard(|| if debug { write!(s, "{p:?}") } else { write!(s, "{p}") });
            match r {
                Ok(_) => {}
                Err(p) => return Err(format!("printing into a writer that fails after {left} bytes panicked: {}", p.msg)),
            }
        }
    }
    Ok(())
}

/// All reading requests and some clones and builders in a state; `deep`: with the schedules of
/// C08 to C10 too.
fn state(ctx: &Ctx<Id, Val>, w: &World<Id, Val>, deep: bool, st: &mut Stats) -> Result<(), String> {
    let mut f = w.forest.clone();
    let most = bound(w);
    let args: Vec<N> = match pick_args(&w.model) {
        Args::All => (0..w.model.nodes.len() as N).collect(),
        Args::Some(v) => v,
    };
    let mut ids: Vec<(String, Id, bool)> =
        args.iter().map(|&x| (format!("#{x}"), w.ids[x as usize], w.model.alive(x))).collect();
    for a in [NEXT, FAR] {
        if let Some(id) = ctx.resolve(w, a) {
            ids.push(("an unknown id".into(), id, false));
        }
    }
    for (name, id, alive) in &ids {
        for k in 0..N_READS {
            st.transitions += 1;
            if let Err(p) = guard(|| read(&mut f, *id, k, most)) {
                if *alive {
                    return Err(format!("{} of {name} panicked: {}", READS[k], p.msg));
                }
                if !p.is_precondition() {
                    return Err(format!("{} of {name}, which is not alive: panic not marked as a precondition: {}", READS[k], p.msg));
                }
            }
        }
        if *alive {
            guard(|| by_handle(&mut f, *id, most)).map_err(|p| format!("a query or iterator of the handle of {name} panicked: {}", p.msg))?;
            failing_sinks(&f, *id).map_err(|e| format!("{name}: {e}"))?;
        }
    }
    guard(|| {
        let _ = format!("{f:?}");
        let mut c: F = Forest::new();
        c.clone_from(&f);
        drop(c);
    })
    .map_err(|p| format!("Debug or clone of the forest panicked: {}", p.msg))?;
    guard(|| {
        let mut b = ChainTreeBuilder::new(&mut f, Val::make(1));
        b.child(Val::make(2)).child(Val::make(3)).sibling(Val::make(4)).parent().sibling(Val::make(5)).child(Val::make(6));
        let _ = (b.try_parent().is_some(), b.root_id(), b.current_id(), b.forest().node(b.root_id()).is_some());
        let mut b = NestTreeBuilder::new(&mut f, Val::make(1));
        b.add_child(Val::make(2));
        b.create_tree(Val::make(3), |b| b.create_tree(Val::make(4), |b| b.add_child(Val::make(5))));
        let _ = b.root();
    })
    .map_err(|p| format!("building a new tree in the forest panicked: {}", p.msg))?;
    if deep {
        for p in ["C08", "C09", "C10"] {
            // The answers are those properties' business.
            match guard(|| iter::of(p, &w.forest, &w.ids, &w.model)) {
                Ok(r) => {
                    if let Ok(n) = r {
                        st.transitions += n;
                    }
                }
                Err(p) => return Err(format!("a step of an iterator of a live node panicked: {}", p.msg)),
            }
        }
    }
    Ok(())
}

/// A forest that is not a proper one any more: what its own queries call alive must still not
/// lead to panics marked as internal errors.
fn wreck(ctx: &Ctx<Id, Val>, w: &World<Id, Val>) -> Result<(), String> {
    let mut f = w.forest.clone();
    let most = bound(w);
    let live: Vec<Id> =
        guard(|| ctx.probes.iter().copied().filter(|p| f.node(*p).is_some()).take(40).collect()).map_err(|p| format!("node() panicked: {}", p.msg))?;
    for &id in &live {
        for k in 0..N_READS {
            guard(|| read(&mut f, id, k, most)).map_err(|p| format!("{} of the live node {id:?} panicked: {}", READS[k], p.msg))?;
        }
        guard(|| by_handle(&mut f, id, most)).map_err(|p| format!("a query or iterator of the handle of {id:?} panicked: {}", p.msg))?;
    }
    let tell = |what: &str, id: Id, r: Result<(), Panicked>| match r {
        Err(p) if !p.is_precondition() => Err(format!("{what} of the live node {id:?}: panic not marked as a precondition: {}", p.msg)),
        _ => Ok(()),
    };
    for &id in &live {
        let mut c = f.clone();
        tell("detach", id, guard(|| c.detach(id)))?;
        let mut c = f.clone();
        tell("detach_single", id, guard(|| c.detach_single(id).map_or((), |()| ())))?;
        let mut c = f.clone();
        tell("remove", id, guard(|| c.remove(id)))?;
        for place in crate::model::PLACES {
            let mut c = f.clone();
            tell("create_insert next to or below", id, guard(|| drop(c.create_insert(Val::make(7), dest(place, id)))))?;
            for &x in &live {
                let mut c = f.clone();
                tell("insert next to or below", id, guard(|| c.insert(x, dest(place, id)).map_or((), |()| ())))?;
            }
        }
    }
    Ok(())
}

pub fn spec(name: &str, probes: usize, deep: bool) -> Spec<Id, Val> {
    let mut s: Spec<Id, Val> = Spec::new(name, probes);
    s.mode = Mode::Adopt;
    s.kinds = Box::new(|_| true);
    s.relevant = Box::new(|_, ex, m| match m.aspect {
        Aspect::PanicMsg => true,
        Aspect::ValidPanic => ex.valid(),
        _ => false,
    });
    s.state_check = Some(Box::new(move |c, w, st| state(c, w, deep, st)));
    s.on_bad = Some(Box::new(wreck));
    s
}

fn go(s: &Spec<Id, Val>) {
    let st = explore(s);
    record(&s.name, &s.bounds, st);
}

pub fn check(_prop: &str) {
    let t = run().thorough();
    for n in if t { vec![3, 4, 5, 6] } else { vec![3, 4, 5] } {
        let mut s = spec(&format!("closure-{n}"), n + 14, n <= 4);
        s.creations = n;
        s.extra = 4;
        s.bounds = format!(
            "all histories of any length with at most {n} node creations; every call form with every argument, also removed and unknown \
             ids; every query, iterator, print, clone and builder in every state{}",
            if n <= 4 { ", iterators under every schedule of front and back steps" } else { "" }
        );
        go(&s);
        if violated() {
            return;
        }
        if n == 4 {
            rows::check(&spec("rows", rows::IDS, false));
            if violated() {
                return;
            }
        }
    }
    let mut s = spec("closure-valid", 20, false);
    s.creations = if t { 7 } else { 6 };
    s.judged = Box::new(|_, ex| ex.allowed & PANIC == 0);
    s.state_check = None;
    s.bounds = format!("all histories with at most {} node creations; every call form that is not documented to panic", s.creations);
    go(&s);
    if violated() {
        return;
    }
    let mut s = spec("shapes", 32, false);
    let (lo, hi) = if t { (6, 9) } else { (6, 8) };
    s.seeds = shape_seeds(lo, hi, &[Order::Pre, Order::Reverse], false);
    s.creations = hi;
    s.depth = 1;
    s.judged = Box::new(|_, ex| ex.allowed & PANIC == 0);
    s.bounds = format!("every forest shape of {lo} to {hi} nodes in two build orders: every query, and every call not documented to panic");
    go(&s);
    if violated() {
        return;
    }
    let mut s = spec("large", 2400, false);
    s.seeds = big_seeds(&[12, 33, 64, 257, 1030], &[Order::Pre, Order::Reverse]);
    s.seeds.extend(scarred_seeds(&[13, 26, 40, 70]));
    s.seeds.extend(churn_seeds(&[70, 1100]));
    s.creations = 1100;
    s.depth = 1;
    s.bounds = "parametric and scarred shapes of 12 to 1030 nodes, selected nodes: every query and every call".into();
    go(&s);
    if violated() {
        return;
    }
    build::chain_programs(Judge::Panics, if t { 7 } else { 5 }, 10);
    build::chain_programs(Judge::Panics, 9, 4);
    let probes = build::ctx(40);
    let cases = build::nest_cases(7, false);
    let s = run_cases(
        cases.len(),
        |i| {
            let mut c = vec![1001];
            c.extend(&cases[i]);
            c
        },
        |c, st| nest(&probes, &c[1..], st),
        |c| build::nest_text(&c[1..]),
    );
    record("nest-7", "every tree shape of up to 7 nodes built by closures, every leaf in both ways, three base forests", s);
    if violated() {
        return;
    }
    ids::fills(Judge::Panics);
}

/// A nested builder program, of which only panics count.
pub fn nest(probes: &Ctx<Id, Val>, words: &[u64], st: &mut Stats) -> Result<(), String> {
    match build::nest(probes, words, st) {
        Err(e) if e.starts_with("a builder call panicked") => Err(e),
        _ => Ok(()),
    }
}
