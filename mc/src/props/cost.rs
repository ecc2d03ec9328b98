//! C20: the number of steps the real code takes, on forests blown up at one or two places.
//!
//! Only in the "cost" build, in which the compiler makes every basic-block edge count a step.

use crate::report::*;
use crate::shapes::*;
use std::collections::BTreeMap;
use treena::dynamic::{AdoptAs, DftEvent, Forest, InsertAs, NestTreeBuilder, Node, NodeIdUsize};
use std::hint::black_box;

type F = Forest<NodeIdUsize, u32>;
type Id = NodeIdUsize;

extern "C" {
    fn treena_mc_steps() -> u64;
}

fn steps() -> u64 {
    unsafe { treena_mc_steps() }
}

/// How one node of a base shape is multiplied.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pump {
    /// The node becomes a chain of that many nodes, with its children at the lower end.
    Chain,
    /// That many leaves (for a root: single-node trees) just before it.
    Before,
    /// The same just after it.
    After,
    /// That many copies of its whole subtree next to each other.
    Copies,
    /// That many leaves before its first child.
    KidsFirst,
    /// That many leaves after its last child.
    KidsLast,
    /// That many leaves after its first child (if any) that are removed again.
    Dead,
}
const PUMPS: [Pump; 7] =
    [Pump::Chain, Pump::Before, Pump::After, Pump::Copies, Pump::KidsFirst, Pump::KidsLast, Pump::Dead];

/// A base shape (preorder depths) and the places that are multiplied.
#[derive(Clone)]
pub struct Case {
    depths: Vec<u8>,
    pumps: Vec<(usize, Pump)>,
}

impl Case {
    fn words(&self) -> Vec<u64> {
        let mut w = vec![5000, self.depths.len() as u64];
        w.extend(self.depths.iter().map(|&d| d as u64));
        for &(n, p) in &self.pumps {
            w.push(n as u64);
            w.push(PUMPS.iter().position(|&q| q == p).unwrap_or(0) as u64);
        }
        w
    }
    fn from_words(w: &[u64]) -> Option<Case> {
        let n = *w.get(1)? as usize;
        let depths = w.get(2..2 + n)?.iter().map(|&d| d as u8).collect();
        let pumps = w[2 + n..]
            .chunks(2)
            .map(|c| (c[0] as usize, PUMPS[c[1] as usize % PUMPS.len()]))
            .collect();
        Some(Case { depths, pumps })
    }
    fn text(&self) -> String {
        let d: Vec<String> = self.depths.iter().map(|d| d.to_string()).collect();
        let p: Vec<String> = self.pumps.iter().map(|(n, p)| format!("{p:?} at node {n}")).collect();
        format!("base forest with preorder depths {}, multiplied: {}", d.join(" "), p.join(", "))
    }
}

/// The blown-up forest: parents in preorder, and what each node comes from: (base node, whether
/// it is an added leaf).
struct Grown {
    parent: Vec<Option<usize>>,
    role: Vec<(usize, bool)>,
    /// Removed right after it was made.
    dead: Vec<bool>,
}

fn grow(case: &Case, factor: usize) -> Grown {
    struct G<'a> {
        case: &'a Case,
        kids: Vec<Vec<usize>>,
        factor: usize,
        out: Grown,
    }
    impl G<'_> {
        fn times(&self, b: usize, p: Pump) -> usize {
            if self.case.pumps.contains(&(b, p)) {
                self.factor
            } else {
                0
            }
        }
        fn leaf(&mut self, b: usize, parent: Option<usize>) {
            self.out.parent.push(parent);
            self.out.role.push((b, true));
            self.out.dead.push(false);
        }
        fn dead(&mut self, b: usize, parent: Option<usize>) {
            for _ in 0..self.times(b, Pump::Dead) {
                self.leaf(b, parent);
                *self.out.dead.last_mut().expect("the leaf") = true;
            }
        }
        fn emit(&mut self, b: usize, parent: Option<usize>) {
            for _ in 0..self.times(b, Pump::Copies).max(1) {
                for _ in 0..self.times(b, Pump::Before) {
                    self.leaf(b, parent);
                }
                let mut at = parent;
                for _ in 0..self.times(b, Pump::Chain).max(1) {
                    self.out.parent.push(at);
                    self.out.role.push((b, false));
                    self.out.dead.push(false);
                    at = Some(self.out.parent.len() - 1);
                }
                for _ in 0..self.times(b, Pump::KidsFirst) {
                    self.leaf(b, at);
                }
                for i in 0..self.kids[b].len() {
                    let k = self.kids[b][i];
                    self.emit(k, at);
                    if i == 0 {
                        self.dead(b, at);
                    }
                }
                if self.kids[b].is_empty() {
                    self.dead(b, at);
                }
                for _ in 0..self.times(b, Pump::KidsLast) {
                    self.leaf(b, at);
                }
                for _ in 0..self.times(b, Pump::After) {
                    self.leaf(b, parent);
                }
            }
        }
    }
    let par = parents(&case.depths);
    let mut kids = vec![Vec::new(); par.len()];
    for (i, p) in par.iter().enumerate() {
        if let Some(p) = p {
            kids[*p].push(i);
        }
    }
    let mut g = G { case, kids, factor, out: Grown { parent: Vec::new(), role: Vec::new(), dead: Vec::new() } };
    for (i, p) in par.iter().enumerate() {
        if p.is_none() {
            g.emit(i, None);
        }
    }
    g.out
}

/// Number of children, depth, and size of the subtree of every node.
struct Measures {
    children: Vec<u64>,
    depth: Vec<u64>,
    size: Vec<u64>,
    /// Sum of the depths below the node (itself counting one) of all nodes of its subtree.
    depths: Vec<u64>,
}

fn measures(g: &Grown) -> Measures {
    let parent = &g.parent;
    let n = parent.len();
    let mut m = Measures { children: vec![0; n], depth: vec![0; n], size: vec![1; n], depths: vec![1; n] };
    for i in 0..n {
        if let Some(p) = parent[i] {
            m.children[p] += !g.dead[i] as u64;
            m.depth[i] = m.depth[p] + 1;
        }
    }
    for i in (0..n).rev() {
        if let (Some(p), false) = (parent[i], g.dead[i]) {
            m.size[p] += m.size[i];
            m.depths[p] += m.depths[i] + m.size[i];
        }
    }
    m
}

/// First, middle and last node of each role.
fn selected(g: &Grown) -> Vec<(usize, String)> {
    let mut by: BTreeMap<(usize, bool), Vec<usize>> = BTreeMap::new();
    for (i, r) in g.role.iter().enumerate().filter(|(i, _)| !g.dead[*i]) {
        by.entry(*r).or_default().push(i);
    }
    let mut out = Vec::new();
    for ((b, leaf), v) in by {
        let what = if leaf { format!("leaf added at {b}") } else { format!("copy of {b}") };
        for (k, name) in [(0, "first"), (v.len() / 2, "middle"), (v.len() - 1, "last")] {
            out.push((v[k], format!("{name} {what}")));
        }
    }
    out
}

/// What was measured: units of work that may be paid for, and steps taken.
type Costs = BTreeMap<String, (u64, u64)>;

fn cost<R>(f: impl FnOnce() -> R) -> (u64, R) {
    let s = steps();
    let r = f();
    (steps() - s, r)
}

fn put(c: &mut Costs, key: String, units: u64, steps: u64) {
    let e = c.entry(key).or_insert((units, 0));
    e.1 = e.1.max(steps);
}

/// Steps of the dearest single step of an iterator, and of all of them.
fn steps_of(mut next: impl FnMut() -> bool) -> (u64, u64, u64) {
    let (mut n, mut sum, mut max) = (0, 0, 0);
    loop {
        let (c, more) = cost(&mut next);
        sum += c;
        max = max.max(c);
        if !more {
            return (n, sum, max);
        }
        n += 1;
    }
}

/// Builds the forest by creations.
fn build(g: &Grown) -> (F, Vec<Id>) {
    let mut f = F::new();
    let mut ids: Vec<Id> = Vec::with_capacity(g.parent.len());
    for (i, p) in g.parent.iter().enumerate() {
        let id = match p {
            None => f.create_root(i as u32),
            Some(p) => f.create_insert(i as u32, InsertAs::LastChildOf(ids[*p])),
        };
        ids.push(id);
        if g.dead[i] {
            f.remove(id);
        }
    }
    (f, ids)
}

fn measure(case: &Case, factor: usize, st: &mut Stats) -> Costs {
    let g = grow(case, factor);
    let n = g.parent.len();
    let m = measures(&g);
    let mut c = Costs::new();

    // Creation, in three ways.
    // Each placement may look at the ancestors of the place.
    let placed: u64 = m.depth.iter().map(|d| d + 1).sum();
    let (k, (f, ids)) = cost(|| build(&g));
    put(&mut c, "building by create_root and create_insert, per node and its ancestors".into(), placed, k);
    let trees = m.depth.iter().filter(|d| **d == 0).count();
    if trees == 1 && !g.dead.contains(&true) {
        let mut f2 = F::new();
        let depth = &m.depth;
        let (k, _) = cost(|| {
            let mut b = treena::dynamic::ChainTreeBuilder::new(&mut f2, 0);
            for i in 1..n {
                let mut at = depth[i - 1];
                if depth[i] > at {
                    b.child(i as u32);
                    continue;
                }
                while at > depth[i] {
                    b.parent();
                    at -= 1;
                }
                b.sibling(i as u32);
            }
        });
        put(&mut c, "building by ChainTreeBuilder, per node and its ancestors".into(), placed, k);
        let deepest = depth.iter().max().copied().unwrap_or(0);
        if deepest <= 4000 {
            let kids: Vec<Vec<usize>> = {
                let mut v = vec![Vec::new(); n];
                for (i, p) in g.parent.iter().enumerate() {
                    if let Some(p) = p {
                        v[*p].push(i);
                    }
                }
                v
            };
            let mut f3 = F::new();
            fn rec(b: &mut NestTreeBuilder<'_, Id, u32>, x: usize, kids: &[Vec<usize>]) {
                for &k in &kids[x] {
                    if kids[k].is_empty() {
                        b.add_child(k as u32);
                    } else {
                        b.create_tree(k as u32, |b| rec(b, k, kids));
                    }
                }
            }
            let (k, _) = cost(|| {
                let mut b = NestTreeBuilder::new(&mut f3, 0);
                rec(&mut b, 0, &kids);
            });
            put(&mut c, "building by NestTreeBuilder, per node and its ancestors".into(), placed, k);
        }
    }
    let (k, copy) = cost(|| f.clone());
    put(&mut c, "Forest::clone, per node".into(), n as u64, k);
    drop(copy);

    for (x, name) in selected(&g) {
        let id = ids[x];
        let (size, kids, depth) = (m.size[x], m.children[x], m.depth[x]);
        st.states += 1;
        // Queries.
        let mut query = |what: &str, f: &mut dyn FnMut()| {
            let (k, ()) = cost(f);
            put(&mut c, format!("{what} of the {name}"), 1, k);
            st.transitions += 1;
        };
        query("node", &mut || _ = black_box(f.node(id).is_some()));
        query("data", &mut || _ = black_box(f.data(id).is_some()));
        if let Some(node) = f.node(id) {
            query("parent", &mut || _ = black_box((node.parent_id(), node.parent().is_some())));
            query("next_sibling", &mut || _ = black_box((node.next_sibling_id(), node.next_sibling().is_some())));
            query("prev_sibling", &mut || _ = black_box((node.prev_sibling_id(), node.prev_sibling().is_some())));
            query("first_child", &mut || _ = black_box((node.first_child_id(), node.first_child().is_some())));
            query("last_child", &mut || _ = black_box((node.last_child_id(), node.last_child().is_some())));
            query("first_last_child", &mut || {
                _ = black_box((node.first_last_child_id(), node.first_last_child().is_some()))
            });
            iterate(node, &name, size, m.depths[x], &mut c, st);
        }
        // Changes, each on a copy of its own.
        let mut change = |what: String, units: u64, f2: &mut dyn FnMut(&mut F)| {
            let mut w = f.clone();
            // The storage's own growth is not the call's.
            _ = w.create_root(0);
            let (k, ()) = cost(|| f2(&mut w));
            put(&mut c, format!("{what} the {name}"), units, k);
            st.transitions += 1;
        };
        let at = [
            ("first child", InsertAs::FirstChildOf(id)),
            ("last child", InsertAs::LastChildOf(id)),
            ("previous sibling", InsertAs::PreviousSiblingOf(id)),
            ("next sibling", InsertAs::NextSiblingOf(id)),
        ];
        let places = if depth == 0 { 2 } else { 4 };
        for (pname, place) in &at[..places] {
            change(format!("creating the {pname} of"), 1 + depth, &mut |w| _ = black_box(w.create_insert(1, *place)));
        }
        for (pname, place) in [("first child", AdoptAs::FirstChild), ("last child", AdoptAs::LastChild)] {
            change(format!("creating by handle the {pname} of"), 1 + depth, &mut |w| {
                if let Some(mut h) = w.node_mut(id) {
                    _ = h.create(1, place);
                }
            });
        }
        change("detaching".into(), 1, &mut |w| w.detach(id));
        change("detaching alone (per child and ancestor)".into(), 1 + kids + depth, &mut |w| _ = black_box(w.detach_single(id)));
        change("removing (per node)".into(), size, &mut |w| w.remove(id));
        change("removing with panic safety (per node)".into(), size, &mut |w| {
            w.remove_hooked_panic_safe(id, drop)
        });
        change("cloning the tree (per node and its ancestors) of".into(), m.depths[x], &mut |w| _ = black_box(w.clone_local_tree(id)));
        change("cloning the tree (per node and its ancestors) into an empty forest, of".into(), m.depths[x], &mut |w| {
            let mut e = F::new();
            if let Some(s) = w.node(id) {
                _ = e.clone_foreign_tree(s);
            }
        });
        // Moving a new leaf, and a node that is elsewhere, to it.
        for (pname, place) in &at[..places] {
            change(format!("inserting a root (per ancestor) as {pname} of"), 1 + depth, &mut |w| {
                let new = w.create_root(0);
                _ = black_box(w.insert(new, *place));
            });
        }
        for (y, yname) in selected(&g) {
            if y == x {
                continue;
            }
            for (pname, place) in &at[1..places] {
                change(
                    format!("inserting the {yname} (per ancestor) as {pname} of"),
                    1 + depth,
                    &mut |w| _ = black_box(w.insert(ids[y], *place)),
                );
            }
        }
    }
    c
}

fn iterate(node: Node<'_, Id, u32>, name: &str, size: u64, depths: u64, c: &mut Costs, st: &mut Stats) {
    let mut all = |what: &str, units: Option<u64>, max: bool, (n, sum, dear): (u64, u64, u64)| {
        put(c, format!("{what} of the {name}, in all per item"), units.unwrap_or(n) + 1, sum);
        if max {
            put(c, format!("{what} of the {name}, dearest step"), 1, dear);
        }
        st.transitions += n + 1;
    };
    macro_rules! made {
        ($what:expr, $make:expr) => {{
            let (k, it) = cost(|| $make);
            all(concat!("creating ", $what), Some(0), false, (0, k, 0));
            it
        }};
    }
    macro_rules! both_ends {
        ($what:expr, $make:expr, $units:expr, $max:expr) => {{
            let mut it = made!($what, $make);
            all(concat!($what, " forwards"), $units, $max, steps_of(|| it.next().is_some()));
            let mut it = $make;
            all(concat!($what, " backwards"), $units, $max, steps_of(|| it.next_back().is_some()));
            let mut it = $make;
            let mut side = false;
            all(
                concat!($what, " from both ends in turn"),
                $units,
                $max,
                steps_of(|| {
                    side = !side;
                    if side { it.next().is_some() } else { it.next_back().is_some() }
                }),
            );
        }};
    }
    both_ends!("depth_first_traverse", node.depth_first_traverse(), None, true);
    both_ends!("shallow_depth_first_traverse(0)", node.shallow_depth_first_traverse(Some(0)), None, false);
    both_ends!("shallow_depth_first_traverse(1)", node.shallow_depth_first_traverse(Some(1)), None, false);
    both_ends!("shallow_depth_first_traverse(3)", node.shallow_depth_first_traverse(Some(3)), None, false);
    both_ends!("shallow_depth_first_traverse(none)", node.shallow_depth_first_traverse(None), None, false);
    both_ends!("children", node.children(), None, true);
    both_ends!("following_siblings", node.following_siblings(), None, true);
    both_ends!("following_siblings_or_self", node.following_siblings_or_self(), None, true);
    both_ends!("preceding_siblings", node.preceding_siblings(), None, true);
    both_ends!("preceding_siblings_or_self", node.preceding_siblings_or_self(), None, true);
    let mut it = made!("ancestors", node.ancestors());
    all("ancestors", None, true, steps_of(|| it.next().is_some()));
    let mut it = made!("ancestors_or_self", node.ancestors_or_self());
    all("ancestors_or_self", None, true, steps_of(|| it.next().is_some()));
    let mut it = made!("allocating_breadth_first_traverse", node.allocating_breadth_first_traverse());
    all("allocating_breadth_first_traverse", None, false, steps_of(|| it.next().is_some()));
    let mut it = node.allocating_breadth_first_traverse();
    all(
        "allocating_breadth_first_traverse with peeks",
        None,
        false,
        steps_of(|| {
            _ = black_box(it.peek());
            it.next().is_some()
        }),
    );
    if size <= 1500 {
        let mut it = made!("breadth_first_traverse", node.breadth_first_traverse());
        all("breadth_first_traverse (per item and node)", Some(size * size), false, steps_of(|| it.next().is_some()));
    }
    if size <= 3000 {
        let (k, ()) = cost(|| {
            use std::fmt::Write;
            struct Sink;
            impl Write for Sink {
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    black_box(s);
                    Ok(())
                }
            }
            _ = write!(Sink, "{}", node.debug_print());
        });
        put(c, format!("printing (per node and its ancestors) the {name}"), depths, k);
    }
    let opens = node.depth_first_traverse().filter(|e| matches!(e, DftEvent::Open(_))).count() as u64;
    if opens != size {
        st.count("subtree of unexpected size", 1);
    }
}

/// Steps per unit may grow by this factor ...
const FACTOR: u64 = 3;
/// ... and this many steps while the forest is blown up further.
const SLACK: u64 = 24;

fn compare(lo: &Costs, hi: &Costs) -> Result<(), String> {
    for (k, &(u1, s1)) in hi {
        let Some(&(u0, s0)) = lo.get(k) else { continue };
        // s1 / u1 <= FACTOR * s0 / u0 + SLACK
        let bound = FACTOR * s0 * u1 / u0.max(1) + SLACK * u1;
        if s1 > bound {
            return Err(format!(
                "{k}: {s0} steps for {u0} units of work, but {s1} steps for {u1} units on the forest blown up further (allowed: {bound})"
            ));
        }
    }
    Ok(())
}

fn run_case(w: &[u64], st: &mut Stats) -> Result<(), String> {
    let case = Case::from_words(w).ok_or("bad case")?;
    let (lo, hi) = factors(&case);
    let a = measure(&case, lo, st);
    let b = measure(&case, hi, st);
    if std::env::var("COST_DUMP").is_ok() {
        for (k, (u, s)) in &b {
            let (u0, s0) = a.get(k).copied().unwrap_or((1, 0));
            println!("{k}: {s0}/{u0} {s}/{u}");
        }
    }
    st.count("costs compared at two sizes", b.len() as u64);
    compare(&a, &b)
}

fn factors(case: &Case) -> (usize, usize) {
    let n = grow(case, 10).parent.len();
    if n < 90 {
        // Nothing is multiplied twice.
        (40, 600)
    } else {
        (10, 80)
    }
}

pub fn play(w: &[u64]) -> Result<(), String> {
    run_case(w, &mut Stats::default())
}

pub fn check() {
    let t = run().thorough();
    let top = if t { 5 } else { 4 };
    let mut cases: Vec<Case> = Vec::new();
    for n in 1..=top {
        for depths in all_forests(n) {
            let places: Vec<(usize, Pump)> = (0..n).flat_map(|i| PUMPS.map(|p| (i, p))).collect();
            for (i, a) in places.iter().enumerate() {
                cases.push(Case { depths: depths.clone(), pumps: vec![*a] });
                for b in &places[i + 1..] {
                    cases.push(Case { depths: depths.clone(), pumps: vec![*a, *b] });
                }
            }
        }
    }
    let st = super::run_cases(
        cases.len(),
        |i| cases[i].words(),
        |w, st| run_case(w, st),
        |w| Case::from_words(w).map_or(String::new(), |c| c.text()),
    );
    record(
        "blown-up forests",
        &format!(
            "every forest of up to {top} nodes, multiplied at every place, and at every pair of places, in every way of {PUMPS:?}, to two \
             sizes; every query, iterator, change and way of building, at the first, middle and last node of each origin; steps per unit \
             of work compared between the sizes"
        ),
        st,
    );
}
