//! C15: the life of every payload value, followed by the identity of the value.

use crate::model::N;
use super::*;
use crate::shapes::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt;
use std::sync::atomic::{AtomicU64, Ordering};
use treena::dynamic::{ChainTreeBuilder, Forest, InsertAs, NestTreeBuilder};

type Id = structural::Id;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Event {
    Made(u64),
    /// Source value, new value.
    Cloned(u64, u64),
    Dropped(u64),
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LOG: RefCell<Vec<Event>> = const { RefCell::new(Vec::new()) };
    /// Number of clones after which the next one panics.
    static FUSE: Cell<u64> = const { Cell::new(u64::MAX) };
    static NEXT: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

static BLOCK: AtomicU64 = AtomicU64::new(1);

fn fresh() -> u64 {
    NEXT.with(|n| {
        let (mut i, mut end) = n.get();
        if i == end {
            i = BLOCK.fetch_add(1, Ordering::Relaxed) << 24;
            end = i + (1 << 24);
        }
        n.set((i + 1, end));
        i
    })
}

fn log(e: Event) {
    let on = ON.try_with(Cell::get).unwrap_or(false);
    if on {
        LOG.with(|l| l.borrow_mut().push(e));
    }
}

/// Runs `f`, whose payloads' `clone` panics after `fuse` clones; gives all that happened to
/// payload values meanwhile.
pub fn window<R>(fuse: u64, f: impl FnOnce() -> R) -> (R, Vec<Event>) {
    FUSE.with(|x| x.set(fuse));
    ON.with(|x| x.set(true));
    let r = f();
    ON.with(|x| x.set(false));
    FUSE.with(|x| x.set(u64::MAX));
    (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}

/// A payload value with an identity.
pub struct Tracked {
    tag: u32,
    inst: u64,
}

impl Clone for Tracked {
    fn clone(&self) -> Self {
        let left = FUSE.with(Cell::get);
        if left == 0 {
            FUSE.with(|f| f.set(u64::MAX));
            user_panic()
        }
        if left != u64::MAX {
            FUSE.with(|f| f.set(left - 1));
        }
        let inst = fresh();
        log(Event::Cloned(self.inst, inst));
        Tracked { tag: self.tag, inst }
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        log(Event::Dropped(self.inst));
    }
}

impl fmt::Debug for Tracked {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.tag)
    }
}

impl fmt::Display for Tracked {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.tag)
    }
}

impl Pay for Tracked {
    fn make(tag: u32) -> Self {
        let inst = fresh();
        log(Event::Made(inst));
        Tracked { tag, inst }
    }
    fn tag(&self) -> u32 {
        self.tag
    }
    fn inst(&self) -> u64 {
        self.inst
    }
}

/// The payload values in the forest: value -> id, of all ids that might be alive.
fn held(ctx: &Ctx<Id, Tracked>, f: &Forest<Id, Tracked>, ids: &[Id], root: Option<Id>) -> Vec<(Id, u64)> {
    let mut all: Vec<Id> = ids.to_vec();
    if let Some(r) = root {
        let fresh = walk(f, r, 100_000);
        match fresh[..] {
            [one] if !ids.contains(&one) => all.push(one),
            _ => {
                let known: HashSet<Id> = ids.iter().copied().collect();
                all.extend(fresh.into_iter().filter(|x| !known.contains(x)));
            }
        }
    }
    let more: Vec<Id> = ctx.unknown(&all).collect();
    all.extend(more);
    all.into_iter().filter_map(|i| f.data(i).map(|d| (i, d.inst))).collect()
}

/// Every value that existed or came to be is now either held by the forest or dropped, and only
/// once.
fn balance(
    born: &BTreeSet<u64>,
    ev: &[Event],
    now: &[(Id, u64)],
) -> Result<BTreeSet<u64>, String> {
    let mut dropped = BTreeSet::new();
    for e in ev {
        if let Event::Dropped(i) = e {
            if !born.contains(i) {
                return Err("a payload value that does not belong to the forest was dropped".into());
            }
            if !dropped.insert(*i) {
                return Err("a payload value was dropped twice".into());
            }
        }
    }
    let now: BTreeSet<u64> = now.iter().map(|x| x.1).collect();
    for i in born {
        if now.contains(i) && dropped.contains(i) {
            return Err("the forest holds a payload value that was dropped".into());
        }
        if !now.contains(i) && !dropped.contains(i) {
            return Err("a payload value is neither held by a live node nor dropped when the call returns".into());
        }
    }
    Ok(dropped)
}

fn end(ctx: &Ctx<Id, Tracked>, f: Forest<Id, Tracked>, ids: &[Id], root: Option<Id>) -> Result<(), String> {
    let now: BTreeSet<u64> = held(ctx, &f, ids, root).into_iter().map(|x| x.1).collect();
    let ((), ev) = window(u64::MAX, || drop(f));
    let mut gone = BTreeSet::new();
    for e in &ev {
        match e {
            Event::Dropped(i) if now.contains(i) && gone.insert(*i) => {}
            e => return Err(format!("dropping the forest: unexpected {}", name(e))),
        }
    }
    if gone.len() != now.len() {
        return Err(format!("dropping the forest drops {} of the {} payloads", gone.len(), now.len()));
    }
    Ok(())
}

fn name(e: &Event) -> &'static str {
    match e {
        Event::Made(_) => "making of a payload",
        Event::Cloned(..) => "clone of a payload",
        Event::Dropped(_) => "drop of a payload",
    }
}

fn is_clone(op: Op) -> bool {
    matches!(op, Op::CloneLocal { .. } | Op::CloneForeign { .. })
}

fn one_call(
    ctx: &Ctx<Id, Tracked>,
    w: &World<Id, Tracked>,
    op: Op,
    ex: &Expect,
    fuse: u64,
) -> Result<(), String> {
    let mut x = w.clone();
    let before: Vec<Option<u64>> = x.ids.iter().map(|i| x.forest.data(*i).map(|d| d.inst)).collect();
    let (ac, ev) = window(fuse, || apply_real(ctx, &mut x, op));
    let ac = match ac {
        Some(a) => a,
        None => return Ok(()),
    };
    let now = held(ctx, &x.forest, &x.ids, ac.new_root);
    let mut born: BTreeSet<u64> = before.iter().flatten().copied().collect();
    let mut clones = Vec::new();
    for e in &ev {
        match *e {
            Event::Made(i) => {
                born.insert(i);
                if ac.outcome == OK {
                    let at = ac.new_root.ok_or("[harness] creation without id")?;
                    if x.forest.data(at).map(|d| d.inst) != Some(i) {
                        return Err("the new node does not hold the payload value it was created with".into());
                    }
                }
            }
            Event::Cloned(s, i) => {
                born.insert(i);
                clones.push((s, i));
            }
            Event::Dropped(_) => {}
        }
    }
    if !clones.is_empty() && !is_clone(op) {
        return Err(format!("the call clones {} payload(s)", clones.len()));
    }
    let dropped = balance(&born, &ev, &now)?;
    for (i, b) in before.iter().enumerate() {
        if let Some(b) = b {
            match x.forest.data(x.ids[i]) {
                Some(d) if d.inst != *b => {
                    return Err(format!("the payload value of node #{i} was replaced"));
                }
                Some(_) => {}
                None => {
                    let hooked = match op {
                        Op::Remove { form, .. } => form != Form::Plain,
                        Op::RemovePanic { .. } => true,
                        _ => false,
                    };
                    let times = ac.hook.iter().filter(|h| h.1 == *b).count();
                    if hooked && times != 1 {
                        return Err(format!("the payload of the removed node #{i} was handed to the callback {times} times"));
                    }
                    if !dropped.contains(b) {
                        return Err(format!("the payload of the removed node #{i} was not dropped"));
                    }
                }
            }
        }
    }
    if is_clone(op) && ac.outcome == OK {
        let pairs = match &ex.pairs {
            Some(p) => p,
            None => return Ok(()), // A refused call that went through: another property.
        };
        let src: BTreeMap<u64, usize> = pairs
            .iter()
            .filter_map(|&(s, _)| match op {
                Op::CloneForeign { .. } => ctx.donor.forest.data(ctx.donor.ids[s as usize]).map(|d| d.inst),
                _ => before[s as usize],
            })
            .map(|i| (i, 1))
            .collect();
        let mut seen: BTreeMap<u64, usize> = BTreeMap::new();
        for (s, _) in &clones {
            *seen.entry(*s).or_default() += 1;
        }
        if seen != src {
            return Err(format!(
                "{} payload clones of {} values were made, should be one for each of the {} copied nodes",
                clones.len(),
                seen.len(),
                src.len()
            ));
        }
        let root = ac.new_root.ok_or("[harness] clone without id")?;
        for n in walk(&x.forest, root, 600) {
            let inst = x.forest.data(n).map(|d| d.inst);
            if !clones.iter().any(|c| Some(c.1) == inst) {
                return Err("a copied node holds a payload value that is not a clone made by the call".into());
            }
        }
    } else if is_clone(op) && ac.outcome == PANIC && !clones.is_empty() {
        return Err("a refused call clones payloads".into());
    }
    end(ctx, x.forest, &x.ids, ac.new_root)
}

/// Queries do nothing to payload values; cloning the forest clones each once.
fn quiet(w: &World<Id, Tracked>) -> Result<(), String> {
    let mut f = w.forest.clone();
    let live: Vec<N> = w.model.live().collect();
    let (_, ev) = window(u64::MAX, || {
        for &i in &live {
            let id = w.ids[i as usize];
            let n = f.node(id).expect("[harness] live");
            let mut c = 0;
            c += n.depth_first_traverse().count() + n.depth_first_traverse().rev().count();
            c += n.shallow_depth_first_traverse(Some(1)).count();
            c += n.breadth_first_traverse().count() + n.allocating_breadth_first_traverse().count();
            c += n.ancestors_or_self().count() + n.children().count();
            c += n.following_siblings_or_self().count() + n.preceding_siblings_or_self().rev().count();
            c += format!("{:?} {}", n.debug_print(), f.debug_print(id)).len();
            c += n.data().tag as usize;
            let mut m = f.node_mut(id).expect("[harness] live");
            c += m.data_mut().tag as usize;
            c += m.into_data_ref_mut().tag as usize;
            c += f.data_mut(id).map_or(0, |d| d.tag as usize);
            std::hint::black_box(c);
        }
        std::hint::black_box(format!("{f:?}").len());
    });
    if let Some(e) = ev.first() {
        return Err(format!("a query is a {}", name(e)));
    }
    let src: BTreeSet<u64> = live.iter().filter_map(|i| f.data(w.ids[*i as usize]).map(|d| d.inst)).collect();
    let (g, ev) = window(u64::MAX, || f.clone());
    let mut seen = BTreeSet::new();
    let mut new = BTreeSet::new();
    for e in &ev {
        match e {
            Event::Cloned(s, i) if src.contains(s) && seen.insert(*s) => {
                new.insert(*i);
            }
            e => return Err(format!("cloning the forest: unexpected {}", name(e))),
        }
    }
    if seen.len() != src.len() {
        return Err(format!("cloning the forest clones {} of {} payloads", seen.len(), src.len()));
    }
    let ((), ev) = window(u64::MAX, || drop(g));
    let gone: BTreeSet<u64> = ev.iter().filter_map(|e| if let Event::Dropped(i) = e { Some(*i) } else { None }).collect();
    if gone != new || ev.len() != new.len() {
        return Err("dropping the clone of the forest does not drop exactly its payloads".into());
    }
    let ((), ev) = window(u64::MAX, || drop(f));
    let gone: BTreeSet<u64> = ev.iter().filter_map(|e| if let Event::Dropped(i) = e { Some(*i) } else { None }).collect();
    if gone != src || ev.len() != src.len() {
        return Err("dropping the forest does not drop exactly its payloads".into());
    }
    Ok(())
}

pub fn spec(name: &str, probes: usize) -> Spec<Id, Tracked> {
    let mut s: Spec<Id, Tracked> = Spec::new(name, probes);
    s.relevant = Box::new(|_, _, _| false);
    s.kinds = Box::new(|o| !matches!(o, Op::CloneTwin { .. }));
    s.state_check = Some(Box::new(|_, w, _| quiet(w)));
    s.step_check = Some(Box::new(|ctx, w, op, ex, st| {
        one_call(ctx, w, op, ex, u64::MAX)?;
        if is_clone(op) && ex.valid() {
            for k in 0..ex.new_nodes as u64 {
                st.count("clone panics injected", 1);
                one_call(ctx, w, op, ex, k).map_err(|e| format!("when the clone of payload {k} panics: {e}"))?;
            }
        }
        Ok(())
    }));
    s
}

const CHAIN: [&str; 7] =
    ["child", "sibling", "try_parent", "detach(current)", "remove(current)", "create_insert(current's first child)", "parent"];

fn account(f: Forest<Id, Tracked>, ev: &[Event], probes: &Ctx<Id, Tracked>, may_drop: bool) -> Result<(), String> {
    let now = held(probes, &f, &[], None);
    let mut born = BTreeSet::new();
    for e in ev {
        match e {
            Event::Made(i) => {
                born.insert(*i);
            }
            Event::Cloned(..) => return Err("a builder call clones a payload".into()),
            Event::Dropped(_) => {}
        }
    }
    let dropped = balance(&born, ev, &now)?;
    if !may_drop && !dropped.is_empty() {
        return Err("a payload was dropped, though nothing was removed or refused".into());
    }
    end(probes, f, &[], None)
}

fn chain(words: &[u64], ctx: &Ctx<Id, Tracked>) -> Result<(), String> {
    let mut f: Forest<Id, Tracked> = Forest::new();
    let (may_drop, ev) = window(u64::MAX, || {
        let mut may_drop = false;
        let mut b = ChainTreeBuilder::new(&mut f, Tracked::make(0));
        for (i, t) in words.iter().enumerate() {
            let tag = i as u32 + 1;
            let r = guard(|| match t {
                0 => drop(b.child(Tracked::make(tag))),
                1 => drop(b.sibling(Tracked::make(tag))),
                2 => drop(b.try_parent().map(|_| ())),
                3 => {
                    let c = b.current_id();
                    b.forest_mut().detach(c);
                }
                4 => {
                    may_drop = true;
                    let c = b.current_id();
                    b.forest_mut().remove(c);
                }
                5 => {
                    let c = b.current_id();
                    let _ = b.forest_mut().create_insert(Tracked::make(tag), InsertAs::FirstChildOf(c));
                }
                _ => drop(b.parent()),
            });
            if r.is_err() {
                may_drop = true;
            }
        }
        may_drop
    });
    account(f, &ev, ctx, may_drop)
}

/// words: panic point, depths.
fn nest(words: &[u64], ctx: &Ctx<Id, Tracked>) -> Result<(), String> {
    struct Prog<'a> {
        depths: &'a [u64],
        left: Cell<u64>,
    }
    impl Prog<'_> {
        fn point(&self) {
            if self.left.get() == 0 {
                user_panic()
            }
            self.left.set(self.left.get() - 1);
        }
        fn fill(&self, b: &mut NestTreeBuilder<'_, Id, Tracked>, i: usize) {
            let d = self.depths[i];
            for k in i + 1..self.depths.len() {
                if self.depths[k] <= d {
                    break;
                }
                if self.depths[k] == d + 1 {
                    self.point();
                    if self.depths.get(k + 1).map_or(false, |x| *x > d + 1) {
                        b.create_tree(Tracked::make(k as u32), |b| self.fill(b, k));
                    } else {
                        b.add_child(Tracked::make(k as u32));
                    }
                }
            }
            self.point();
        }
    }
    let mut f: Forest<Id, Tracked> = Forest::new();
    let p = Prog { depths: &words[1..], left: Cell::new(words[0]) };
    let (_, ev) = window(u64::MAX, || {
        guard(|| {
            let mut b = NestTreeBuilder::new(&mut f, Tracked::make(0));
            p.fill(&mut b, 0);
        })
    });
    account(f, &ev, ctx, false)
}

fn text_of(w: &[u64]) -> String {
    let p: Vec<String> = w[1..].iter().map(|x| x.to_string()).collect();
    if w[0] == 4000 {
        let p: Vec<&str> = w[1..].iter().map(|t| CHAIN[*t as usize]).collect();
        format!("chain builder: new(); {}", p.join("; "))
    } else {
        format!("nested builder whose closure panics before builder call {}, preorder depths {}", p[0], p[1..].join(" "))
    }
}

pub fn play(words: &[u64]) -> Result<(), String> {
    let ctx = Ctx::new(40);
    match words[0] {
        4000 => chain(&words[1..], &ctx),
        _ => nest(&words[1..], &ctx),
    }
}

pub fn check(_prop: &str) {
    let t = run().thorough();
    for n in [3, 5, 6] {
        if n == 6 && !t {
            // The calls that panic are slow to run; leave them out at this depth.
            let mut s = spec("closure-6", 20);
            s.creations = 6;
            s.extra = 6;
            s.judged = Box::new(|_, ex| ex.allowed & PANIC == 0);
            s.bounds = "all histories of at most 6 creations, every call whose documented answer is not a panic".into();
            let st = explore(&s);
            record(&s.name, &s.bounds, st);
            continue;
        }
        let mut s = spec(&format!("closure-{n}"), n + 14);
        s.creations = n;
        s.extra = 6;
        s.bounds = format!(
            "all histories of at most {n} creations; every call form with every argument, and every payload clone panicking; every query"
        );
        let st = explore(&s);
        record(&s.name, &s.bounds, st);
        if violated() {
            return;
        }
    }
    let mut s = spec("shapes", 32);
    let hi = if t { 9 } else { 8 };
    s.seeds = shape_seeds(6, hi, &[Order::Pre], false);
    s.creations = hi;
    s.depth = 1;
    s.judged = Box::new(|_, ex| ex.allowed & PANIC == 0);
    s.bounds = format!("every forest shape of 6 to {hi} nodes, one further call whose documented answer is not a panic");
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    if violated() {
        return;
    }
    let mut s = spec("large", 1200);
    s.seeds = big_seeds(&[17, 64, 257], &[Order::Pre]);
    s.seeds.extend(scarred_seeds(&[26, 40]));
    s.seeds.extend(churn_seeds(&[70, 300]));
    s.creations = 320;
    s.depth = 1;
    s.kinds = Box::new(|o| !matches!(o, Op::Insert { .. } | Op::CloneTwin { .. }) && (basic_kind(o) || matches!(o, Op::Remove { .. })));
    s.judged = Box::new(|_, ex| ex.allowed & PANIC == 0);
    s.bounds = "parametric shapes of 17 to 257 nodes, one removal, clone, creation or detachment".into();
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    let ctx = Ctx::new(40);
    let len = if t { 7 } else { 6 };
    let mut total = Stats::default();
    for l in 0..=len {
        let n = CHAIN.len().pow(l);
        total.add(&run_cases(
            n,
            |i| {
                let mut c = vec![4000];
                let mut r = i;
                for _ in 0..l {
                    c.push((r % CHAIN.len()) as u64);
                    r /= CHAIN.len();
                }
                c
            },
            |c, st| {
                st.transitions += c.len() as u64;
                chain(&c[1..], &ctx)
            },
            text_of,
        ));
    }
    record(&format!("chain-{len}"), &format!("every chain builder program of up to {len} calls out of {CHAIN:?}"), total);
    let mut cases = Vec::new();
    for n in 1..=if t { 8 } else { 7 } {
        for d in all_trees(n) {
            for k in (0..2 * n as u64).chain([999]) {
                let mut c = vec![4001, k];
                c.extend(d.iter().map(|x| *x as u64));
                cases.push(c);
            }
        }
    }
    let st = run_cases(
        cases.len(),
        |i| cases[i].clone(),
        |c, st| {
            st.transitions += c.len() as u64;
            nest(&c[1..], &ctx)
        },
        text_of,
    );
    record("nest", "every tree shape of up to 7 nodes (thorough: 8) by the nested builder, with every panic point of its closures", st);
}
