//! C17: the forest, the shared handle and the mutable handle against each other.

use super::*;
use crate::model::*;
use crate::shapes::*;
use treena::dynamic::{Forest, Node};

type Id = structural::Id;
type F = Forest<Id, Val>;

/// Everything the id-returning queries of a handle say.
#[derive(PartialEq, Eq, Debug, Clone)]
struct Said {
    id: Id,
    data: u32,
    parent: Option<Id>,
    next: Option<Id>,
    prev: Option<Id>,
    first: Option<Id>,
    last: Option<Id>,
    both: Option<(Id, Id)>,
}

fn said(n: &Node<'_, Id, Val>) -> Said {
    Said {
        id: n.id(),
        data: n.data().tag(),
        parent: n.parent_id(),
        next: n.next_sibling_id(),
        prev: n.prev_sibling_id(),
        first: n.first_child_id(),
        last: n.last_child_id(),
        both: n.first_last_child_id(),
    }
}

fn said_by_handles(n: &Node<'_, Id, Val>) -> Said {
    Said {
        id: n.id(),
        data: n.data().tag(),
        parent: n.parent().map(|x| x.id()),
        next: n.next_sibling().map(|x| x.id()),
        prev: n.prev_sibling().map(|x| x.id()),
        first: n.first_child().map(|x| x.id()),
        last: n.last_child().map(|x| x.id()),
        both: n.first_last_child().map(|(a, b)| (a.id(), b.id())),
    }
}

fn agree<T: PartialEq + std::fmt::Debug>(x: N, what: &str, a: T, b: T) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("#{x}: {what}: {a:?} and {b:?}"))
    }
}

/// Both iterators give the same, forward and backward.
fn same_iter<A, T: PartialEq + std::fmt::Debug>(x: N, what: &str, a: A, b: A, key: impl Fn(A::Item) -> T) -> Result<(), String>
where
    A: Iterator + Clone,
{
    agree(x, &format!("{what} by handle and by forest, size hint"), a.size_hint(), b.size_hint())?;
    let v: Vec<T> = a.map(&key).collect();
    let w: Vec<T> = b.map(&key).collect();
    agree(x, &format!("{what} by handle and by forest"), v, w)
}

fn queries(w: &World<Id, Val>, ctx: &Ctx<Id, Val>) -> Result<(), String> {
    let mut f: F = w.forest.clone();
    // Handles exist exactly for live nodes.
    let unknown: Vec<Id> = ctx.probes.iter().copied().filter(|p| !w.ids.contains(p)).take(4).chain(ctx.probes.last().copied()).collect();
    for (i, &id) in w.ids.iter().enumerate() {
        let alive = w.model.alive(i as N);
        let got = (f.node(id).is_some(), f.data(id).is_some());
        let got_mut = (f.node_mut(id).is_some(), f.data_mut(id).is_some());
        if got != (alive, alive) || got_mut != (alive, alive) {
            return Err(format!(
                "#{i} is {}: node(), data() are some: {got:?}; node_mut(), data_mut(): {got_mut:?}",
                if alive { "alive" } else { "removed" }
            ));
        }
    }
    for id in unknown {
        if w.ids.contains(&id) {
            continue;
        }
        let got = (f.node(id).is_some(), f.data(id).is_some(), f.node_mut(id).is_some(), f.data_mut(id).is_some());
        if got != (false, false, false, false) {
            return Err(format!("id {id:?} was never handed out: node(), data(), node_mut(), data_mut() are some: {got:?}"));
        }
    }
    let args = match pick_args(&w.model) {
        Args::All => w.model.live().collect::<Vec<_>>(),
        Args::Some(v) => v.into_iter().filter(|x| w.model.alive(*x)).collect(),
    };
    for x in args {
        let id = w.ids[x as usize];
        let ptr = &f as *const F;
        {
            let n = f.node(id).expect("[harness] live");
            agree(x, "Node::id and the id asked for", n.id(), id)?;
            let a = said(&n);
            agree(x, "Node::data and Forest::data", Some(n.data()), f.data(id))?;
            agree(x, "id-returning and handle-returning queries", a.clone(), said_by_handles(&n))?;
            agree(x, "first_last_child_id and the two single queries", a.both, a.first.zip(a.last))?;
            let c = n;
            #[allow(clippy::clone_on_copy)]
            let d = n.clone();
            agree(x, "a copied handle and the original", said(&c), a.clone())?;
            agree(x, "a cloned handle and the original", said(&d), a.clone())?;
            if !std::ptr::eq(n.forest(), ptr) {
                return Err(format!("#{x}: Node::forest() is another forest"));
            }
            for (what, y) in [
                ("parent", n.parent()),
                ("next_sibling", n.next_sibling()),
                ("prev_sibling", n.prev_sibling()),
                ("first_child", n.first_child()),
                ("last_child", n.last_child()),
            ] {
                if let Some(y) = y {
                    agree(x, &format!("payload by {what}() and by id"), Some(y.data()), f.data(y.id()))?;
                    let z = f.node(y.id()).ok_or_else(|| format!("#{x}: {what}() is not alive"))?;
                    agree(x, &format!("answers of {what}() and of the handle by id"), said(&y), said(&z))?;
                }
            }
            let k = |n: Node<'_, Id, Val>| (n.id(), n.data().tag());
            same_iter(x, "ancestors", n.ancestors(), f.ancestors(id), k)?;
            same_iter(x, "ancestors_or_self", n.ancestors_or_self(), f.ancestors_or_self(id), k)?;
            for (what, a, b) in [
                ("children", n.children(), f.children(id)),
                ("following_siblings", n.following_siblings(), f.following_siblings(id)),
                ("following_siblings_or_self", n.following_siblings_or_self(), f.following_siblings_or_self(id)),
                ("preceding_siblings", n.preceding_siblings(), f.preceding_siblings(id)),
                ("preceding_siblings_or_self", n.preceding_siblings_or_self(), f.preceding_siblings_or_self(id)),
            ] {
                same_iter(x, what, a.clone(), b.clone(), k)?;
                same_iter(x, &format!("{what}, reversed"), a.rev(), b.rev(), k)?;
            }
            let e = |e: treena::dynamic::DftEvent<Node<'_, Id, Val>>| e.map(|n| (n.id(), n.data().tag()));
            same_iter(x, "depth_first_traverse", n.depth_first_traverse(), f.depth_first_traverse(id), e)?;
            same_iter(x, "depth_first_traverse, reversed", n.depth_first_traverse().rev(), f.depth_first_traverse(id).rev(), e)?;
            for lim in [None, Some(0), Some(1), Some(2), Some(usize::MAX)] {
                let (a, b) = (n.shallow_depth_first_traverse(lim), f.shallow_depth_first_traverse(id, lim));
                let e = |(v, d): (treena::dynamic::DftEvent<Node<'_, Id, Val>>, usize)| (e(v), d);
                same_iter(x, "shallow_depth_first_traverse", a.clone(), b.clone(), e)?;
                same_iter(x, "shallow_depth_first_traverse, reversed", a.rev(), b.rev(), e)?;
            }
            let kd = |(n, d): (Node<'_, Id, Val>, usize)| (n.id(), n.data().tag(), d);
            same_iter(x, "breadth_first_traverse", n.breadth_first_traverse(), f.breadth_first_traverse(id), kd)?;
            same_iter(
                x,
                "allocating_breadth_first_traverse",
                n.allocating_breadth_first_traverse(),
                f.allocating_breadth_first_traverse(id),
                kd,
            )?;
            agree(x, "print by handle and by forest", n.debug_print().to_string(), f.debug_print(id).to_string())?;
            agree(
                x,
                "debug print by handle and by forest",
                format!("{:?}", n.debug_print()),
                format!("{:?}", f.debug_print(id)),
            )?;
        }
        let a = said(&f.node(id).expect("[harness] live"));
        let print = f.debug_print(id).to_string();
        let dprint = format!("{:?}", f.debug_print(id));
        let old = a.data;
        let mut m = f.node_mut(id).expect("[harness] live");
        agree(x, "NodeMut::id and the id asked for", m.id(), id)?;
        if !std::ptr::eq(m.forest(), ptr) {
            return Err(format!("#{x}: NodeMut::forest() is another forest"));
        }
        agree(x, "NodeMut::data and Node::data", m.data().tag(), old)?;
        agree(x, "answers of NodeMut::node() and of Node", said(&m.node()), a.clone())?;
        agree(x, "print by mutable handle and by forest", m.debug_print().to_string(), print)?;
        agree(x, "debug print by mutable handle and by forest", format!("{:?}", m.debug_print()), dprint)?;
        // Writing.
        agree(x, "NodeMut::data_mut and Node::data", m.data_mut().tag(), old)?;
        *m.data_mut() = Val::make(old + 1000);
        agree(x, "NodeMut::data after writing", m.data().tag(), old + 1000)?;
        agree(x, "NodeMut::node().data() after writing", m.node().data().tag(), old + 1000)?;
        agree(x, "Forest::data after writing by handle", m.forest().data(id).map(Pay::tag), Some(old + 1000))?;
        let n = m.into_node();
        if !std::ptr::eq(n.forest(), ptr) {
            return Err(format!("#{x}: NodeMut::into_node().forest() is another forest"));
        }
        agree(x, "NodeMut::into_node() after writing", said(&n), Said { data: old + 1000, ..a.clone() })?;
        *f.node_mut(id).expect("[harness] live").into_data_ref_mut() = Val::make(old + 2000);
        agree(x, "Forest::data after into_data_ref_mut", f.data(id).map(Pay::tag), Some(old + 2000))?;
        *f.data_mut(id).ok_or("no data_mut of a live node")? = Val::make(old);
        let mut bad = Vec::new();
        compare(ctx, &f, &w.ids, &w.model, &mut bad);
        if let Some(b) = bad.first() {
            return Err(format!("after writing to the payload of #{x} and back: {}", b.what));
        }
    }
    Ok(())
}

fn outcome(ac: &Actual<Id>) -> u8 {
    ac.outcome
}

/// The forest forms that a handle call must match.
fn forest_form(op: Op) -> Option<Op> {
    let via = Via::Forest;
    Some(match op {
        Op::Create { via: Via::Handle, place, anchor } => Op::Create { via, place, anchor },
        Op::Insert { via: IVia::TryAdopt | IVia::Adopt, node, place, anchor } => {
            Op::Insert { via: IVia::Insert, node, place, anchor }
        }
        Op::Detach { via: Via::Handle, node } => Op::Detach { via, node },
        Op::DetachSingle { via: Via::Handle, node } => Op::DetachSingle { via, node },
        Op::Remove { form, via: Via::Handle, node } => Op::Remove { form, via, node },
        Op::RemovePanic { via: Via::Handle, node, k } => Op::RemovePanic { via, node, k },
        _ => return None,
    })
}

fn both_forms(ctx: &Ctx<Id, Val>, w: &World<Id, Val>, op: Op, st: &mut Stats) -> Result<(), String> {
    let other = match forest_form(op) {
        Some(o) => o,
        None => return Ok(()),
    };
    let (mut a, mut b) = (w.clone(), w.clone());
    let (ra, rb) = match (apply_real(ctx, &mut a, op), apply_real(ctx, &mut b, other)) {
        (Some(x), Some(y)) => (x, y),
        _ => return Ok(()),
    };
    if ra.outcome == NOHANDLE {
        return Ok(()); // Whether a handle exists is checked per state.
    }
    st.count("pairs of forms compared", 1);
    let (mut oa, mut ob) = (outcome(&ra), outcome(&rb));
    if matches!(op, Op::Insert { via: IVia::Adopt, .. }) && ob != OK {
        // No error return: it panics instead.
        oa = if oa == PANIC { PANIC } else { oa };
        ob = PANIC;
    }
    if oa != ob {
        return Err(format!(
            "`{}` ends with {}{}, `{}` with {}{}",
            op.text(),
            mask_text(ra.outcome),
            ra.msg,
            other.text(),
            mask_text(rb.outcome),
            rb.msg
        ));
    }
    if ra.new_root != rb.new_root {
        return Err(format!("`{}` returns {:?}, `{}` {:?}", op.text(), ra.new_root, other.text(), rb.new_root));
    }
    if ra.hook != rb.hook {
        return Err(format!("`{}` hands out {:?}, `{}` {:?}", op.text(), ra.hook, other.text(), rb.hook));
    }
    equal_worlds(ctx, &a, &b).map_err(|e| format!("after `{}` and after `{}`: {e}", op.text(), other.text()))
}

/// Both forests answer the same about every id, and go on the same.
pub fn equal_worlds(ctx: &Ctx<Id, Val>, a: &World<Id, Val>, b: &World<Id, Val>) -> Result<(), String> {
    for id in a.ids.iter().chain(&ctx.probes) {
        let of = |w: &World<Id, Val>| guard(|| w.forest.node(*id).map(|n| said(&n)));
        let (x, y) = (of(a), of(b));
        if x != y {
            return Err(format!("node {id:?} answers {x:?} in the one, {y:?} in the other"));
        }
    }
    // The next creation.
    let next = |w: &World<Id, Val>| {
        let mut f = w.forest.clone();
        guard(|| f.create_root(Val::make(1))).ok()
    };
    if next(a) != next(b) {
        return Err("the next id differs".into());
    }
    Ok(())
}

/// One call through a mutable handle that is kept.
#[derive(Clone, Copy, Debug)]
enum Kept {
    Create(Place),
    TryAdopt(N, Place),
    Adopt(N, Place),
    Detach,
    DetachSingle,
    Write,
}

fn kept_calls(m: &Model) -> Vec<Kept> {
    let mut v = vec![Kept::Detach, Kept::DetachSingle, Kept::Write];
    for p in PLACES {
        v.push(Kept::Create(p));
        for n in m.live() {
            v.push(Kept::TryAdopt(n, p));
            v.push(Kept::Adopt(n, p));
        }
    }
    v
}

#[derive(PartialEq, Debug)]
enum Gave {
    Nothing,
    New(Id),
    Res(u8),
    Panicked,
}

fn by_handle(h: &mut treena::dynamic::NodeMut<'_, Id, Val>, ids: &[Id], c: Kept, tag: u32) -> Gave {
    let r = guard(|| match c {
        Kept::Create(p) => Gave::New(h.create(Val::make(tag), adopt_as(p))),
        Kept::TryAdopt(n, p) => Gave::Res(err_mask(h.try_adopt(ids[n as usize], adopt_as(p)))),
        Kept::Adopt(n, p) => {
            h.adopt(ids[n as usize], adopt_as(p));
            Gave::Nothing
        }
        Kept::Detach => {
            h.detach();
            Gave::Nothing
        }
        Kept::DetachSingle => Gave::Res(err_mask(h.detach_single())),
        Kept::Write => {
            *h.data_mut() = Val::make(h.data().tag() + 7000);
            Gave::Nothing
        }
    });
    r.unwrap_or(Gave::Panicked)
}

fn by_forest(f: &mut F, id: Id, ids: &[Id], c: Kept, tag: u32) -> Gave {
    let r = guard(|| match c {
        Kept::Create(p) => Gave::New(f.create_insert(Val::make(tag), dest(p, id))),
        Kept::TryAdopt(n, p) => Gave::Res(err_mask(f.insert(ids[n as usize], dest(p, id)))),
        Kept::Adopt(n, p) => match f.insert(ids[n as usize], dest(p, id)) {
            Ok(()) => Gave::Nothing,
            Err(_) => Gave::Panicked,
        },
        Kept::Detach => {
            f.detach(id);
            Gave::Nothing
        }
        Kept::DetachSingle => Gave::Res(err_mask(f.detach_single(id))),
        Kept::Write => {
            if let Some(d) = f.data_mut(id) {
                *d = Val::make(d.tag() + 7000);
            }
            Gave::Nothing
        }
    });
    r.unwrap_or(Gave::Panicked)
}

/// Sequences of calls through one handle against the same through the forest.
fn kept(ctx: &Ctx<Id, Val>, w: &World<Id, Val>, len: usize, st: &mut Stats) -> Result<(), String> {
    let calls = kept_calls(&w.model);
    for x in w.model.live() {
        let id = w.ids[x as usize];
        let n = calls.len().pow(len as u32);
        for i in 0..n {
            let mut r = i;
            let seq: Vec<Kept> = (0..len)
                .map(|_| {
                    let c = calls[r % calls.len()];
                    r /= calls.len();
                    c
                })
                .collect();
            // A refused call changes nothing, and panicking ones are slow: at most the last.
            let mut a = w.clone();
            let mut b = w.clone();
            st.count("call sequences through one handle", 1);
            {
                let mut h = a.forest.node_mut(id).ok_or("no handle")?;
                for (k, &c) in seq.iter().enumerate() {
                    let tag = 9000 + k as u32;
                    let (ga, gb) = (by_handle(&mut h, &w.ids, c, tag), by_forest(&mut b.forest, id, &w.ids, c, tag));
                    let at = || format!("the calls {:?} through one handle of #{x} and through the forest", &seq[..=k]);
                    if ga != gb {
                        return Err(format!("{}: give {ga:?} and {gb:?}", at()));
                    }
                    let (sa, sb) = (said(&h.node()), b.forest.node(id).map(|n| said(&n)));
                    if Some(sa) != sb || h.id() != id || Some(h.data()) != b.forest.data(id) {
                        return Err(format!("{}: the handle then answers otherwise than the forest", at()));
                    }
                    if ga == Gave::Panicked {
                        break;
                    }
                }
                let n = h.into_node();
                if Some(said(&n)) != b.forest.node(id).map(|n| said(&n)) {
                    return Err(format!("after the calls {seq:?} through the handle of #{x}: into_node() answers otherwise than the forest"));
                }
            }
            equal_worlds(ctx, &a, &b).map_err(|e| format!("after the calls {seq:?} through one handle of #{x} and through the forest: {e}"))?;
        }
    }
    Ok(())
}

pub fn spec(name: &str, probes: usize, seq: usize) -> Spec<Id, Val> {
    let mut s: Spec<Id, Val> = Spec::new(name, probes);
    s.relevant = Box::new(|_, _, _| false);
    s.kinds = Box::new(|o| forest_form(o).is_some());
    s.state_check = Some(Box::new(move |ctx, w, st| {
        queries(w, ctx)?;
        if seq > 0 && w.model.nodes.len() <= 6 {
            kept(ctx, w, seq, st)?;
        }
        Ok(())
    }));
    s.step_check = Some(Box::new(|ctx, w, op, _, st| both_forms(ctx, w, op, st)));
    s
}

pub fn check(_prop: &str) {
    let t = run().thorough();
    let plan: &[(usize, usize)] = if t { &[(3, 3), (4, 3), (5, 2), (6, 1)] } else { &[(3, 3), (4, 2), (5, 1)] };
    for &(n, seq) in plan {
        let mut s = spec(&format!("closure-{n}"), n + 14, seq);
        s.creations = n;
        s.extra = 2;
        s.bounds = format!(
            "all histories of at most {n} creations; every query on every node by forest, shared and mutable handle; every call with \
             every argument in both forms; every sequence of {seq} call(s) through one mutable handle"
        );
        let st = explore(&s);
        record(&s.name, &s.bounds, st);
        if violated() {
            return;
        }
    }
    let mut s = spec("shapes", 32, 0);
    let (lo, hi) = if t { (6, 9) } else { (5, 8) };
    s.seeds = shape_seeds(lo, hi, &[Order::Level], false);
    s.creations = 1;
    s.depth = 1;
    s.judged = Box::new(|_, ex| ex.allowed & PANIC == 0);
    s.bounds = format!("every forest shape of {lo} to {hi} nodes: every query, and every call that is not documented to panic in both forms");
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    if violated() {
        return;
    }
    let mut s = spec("large", 2400, 0);
    s.seeds = big_seeds(&[12, 33, 64, 257, 1030], &[Order::Pre, Order::Reverse]);
    s.seeds.extend(scarred_seeds(&[13, 26, 40, 70]));
    s.seeds.extend(churn_seeds(&[70, 1100]));
    s.creations = 1100;
    s.depth = 1;
    s.judged = Box::new(|_, ex| ex.allowed & PANIC == 0);
    s.bounds = "parametric shapes of 12 to 1030 nodes and ones in which nodes came and went, selected nodes: every query, and every call that is not documented to panic in both forms".into();
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
}
