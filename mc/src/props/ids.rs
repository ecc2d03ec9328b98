//! C13: id types. The closure of all small histories for every id type, and every fill level up
//! to the capacity. Also the exhaustion part of C19.

use super::build::Judge;
use super::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use treena::dynamic::{
    ChainTreeBuilder, Forest, InternalNodeId, NestTreeBuilder, NodeId, NodeIdU16, NodeIdU32, NodeIdU64, NodeIdU8,
    NodeIdUsize,
};
use treena::impl_dynamic_node_id;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tuple8(NodeIdU8);
impl_dynamic_node_id!(Tuple8, NodeIdU8, 0);

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Named16 {
    inner: NodeIdU16,
}
impl_dynamic_node_id!(Named16, NodeIdU16, inner);

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Generic<T>(T);
impl_dynamic_node_id!(Generic<NodeIdUsize>, NodeIdUsize, 0);

/// Implements the trait by hand, with more in it than the internal id.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Manual {
    mark: u16,
    inner: NodeIdU32,
}
impl NodeId for Manual {
    type Internal = NodeIdU32;
    fn from_internal(id: NodeIdU32) -> Self {
        Manual { mark: 0x5A5A, inner: id }
    }
    fn to_internal(self) -> NodeIdU32 {
        self.inner
    }
}

pub const TYPES: [&str; 9] = [
    "NodeIdU8",
    "NodeIdU16",
    "NodeIdU32",
    "NodeIdU64",
    "NodeIdUsize",
    "tuple struct over NodeIdU8",
    "struct over NodeIdU16",
    "generic struct over NodeIdUsize",
    "hand-written impl over NodeIdU32",
];

macro_rules! dispatch {
    ($t:expr, $f:ident, $($a:expr),*) => {
        match $t {
            0 => $f::<NodeIdU8>($($a),*),
            1 => $f::<NodeIdU16>($($a),*),
            2 => $f::<NodeIdU32>($($a),*),
            3 => $f::<NodeIdU64>($($a),*),
            4 => $f::<NodeIdUsize>($($a),*),
            5 => $f::<Tuple8>($($a),*),
            6 => $f::<Named16>($($a),*),
            7 => $f::<Generic<NodeIdUsize>>($($a),*),
            _ => $f::<Manual>($($a),*),
        }
    };
}

/// Maximum of the underlying integer, if small enough to be reached.
fn max_of(t: u64) -> Option<usize> {
    match t {
        0 | 5 => Some(u8::MAX as usize),
        1 | 6 => Some(u16::MAX as usize),
        _ => None,
    }
}

// ------------------------------------------------------------------- closures

fn closure<I: Idt>(n: usize, name: &str) {
    let mut s: Spec<I, u32> = structural::spec("C13", &format!("closure-{n} {name}"), n + 6);
    s.creations = n;
    s.relevant = Box::new(|_, _, m| !matches!(m.aspect, Aspect::PanicMsg));
    // A difference that `NodeIdUsize` shows as well is not one of the id type.
    let base: Spec<NodeIdUsize, u32> = structural::spec("C13", "usize", n + 6);
    s.excuse = Some(Box::new(move |hist, op| match replay(&base, hist) {
        Err(_) => true,
        Ok(w) => {
            let ex = expect(&base.ctx, &w.model, op);
            !matches!(step(&base, w, op, &ex).0, Step::Good(..))
        }
    }));
    s.state_check = Some(Box::new(|_, w, st| {
        // Traversals agree with the model (those of `NodeIdUsize` are C08 to C10's business).
        st.transitions += 1;
        let fast = traversals(&w.forest, &w.ids, &w.model);
        if fast.is_err() {
            let c: Ctx<NodeIdUsize, u32> = Ctx::new(1);
            if let Some(t) = rebuild(&c, &w.model) {
                if traversals(&t.forest, &t.ids, &t.model).is_ok() {
                    return fast;
                }
            }
        }
        Ok(())
    }));
    s.bounds = format!(
        "id type {name}: all histories with at most {n} node creations, every call form and argument, answers equal to the model's \
         wherever those of NodeIdUsize are; all traversals of every state"
    );
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
}

/// One run of each traversal from each node, and the print.
fn traversals<I: Idt>(f: &Forest<I, u32>, ids: &[I], m: &crate::model::Model) -> Result<(), String> {
    use treena::dynamic::DftEvent;
    for x in m.live() {
        let id = ids[x as usize];
        let pre: Vec<I> = m.preorder(x).iter().map(|&y| ids[y as usize]).collect();
        let post: Vec<I> = m.postorder(x).iter().map(|&y| ids[y as usize]).collect();
        let (mut a, mut b) = (Vec::new(), Vec::new());
        for e in f.depth_first_traverse(id) {
            match e {
                DftEvent::Open(n) => a.push(n.id()),
                DftEvent::Close(n) => b.push(n.id()),
            }
        }
        if a != pre || b != post {
            return Err(format!("depth-first traversal of #{x} opens {a:?}, closes {b:?}"));
        }
        let (mut a, mut b) = (Vec::new(), Vec::new());
        for (e, _) in f.shallow_depth_first_traverse(id, None).rev() {
            match e {
                DftEvent::Open(n) => a.push(n.id()),
                DftEvent::Close(n) => b.push(n.id()),
            }
        }
        a.reverse();
        b.reverse();
        if a != pre || b != post {
            return Err(format!("backward depth-first traversal of #{x} opens {a:?}, closes {b:?}"));
        }
        let b1: Vec<I> = f.breadth_first_traverse(id).map(|(n, _)| n.id()).collect();
        let b2: Vec<I> = f.allocating_breadth_first_traverse(id).map(|(n, _)| n.id()).collect();
        let mut s1 = b1.clone();
        let mut s2 = pre.clone();
        let key = |i: &I| ids.iter().position(|y| y == i);
        s1.sort_by_key(key);
        s2.sort_by_key(key);
        if b1 != b2 || s1 != s2 {
            return Err(format!("breadth-first traversals of #{x} give {b1:?} and {b2:?}"));
        }
        let kids: Vec<I> = m.n(x).children.iter().map(|&y| ids[y as usize]).collect();
        if f.children(id).map(|n| n.id()).ne(kids.iter().copied()) {
            return Err(format!("children of #{x}"));
        }
        let up: Vec<I> = std::iter::successors(Some(x), |&y| m.n(y).parent).map(|y| ids[y as usize]).collect();
        if f.ancestors_or_self(id).map(|n| n.id()).ne(up.iter().copied()) {
            return Err(format!("ancestors of #{x}"));
        }
        let lines = f.debug_print(id).to_string().lines().count();
        if lines != pre.len() {
            return Err(format!("print of #{x} has {lines} lines"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- fill levels

const FILLS: [&str; 6] = [
    "roots",
    "children of one root",
    "a chain",
    "nodes removed right after creation, but for each tenth",
    "a bushy tree, by handles in all four places",
    "copies of a tree of three",
];

const WAYS: [&str; 19] = [
    "create_root",
    "create_insert first child",
    "create_insert last child",
    "create_insert previous sibling",
    "create_insert next sibling",
    "handle create first child",
    "handle create last child",
    "handle create previous sibling",
    "handle create next sibling",
    "clone_local_tree of a leaf",
    "clone_local_tree of three nodes",
    "clone_local_tree_with_id_mapping of three nodes",
    "clone_foreign_tree of one node",
    "clone_foreign_tree of three nodes",
    "clone_foreign_tree_with_id_mapping of five nodes",
    "ChainTreeBuilder::new, child, sibling",
    "ChainTreeBuilder::new, child, parent, child, child",
    "NestTreeBuilder::new, create_tree(add_child)",
    "NestTreeBuilder::new, add_child, add_child, create_tree",
];

fn need(way: usize) -> usize {
    match way {
        10 | 11 | 13 | 15 | 17 => 3,
        14 => 5,
        16 | 18 => 4,
        _ => 1,
    }
}

/// Every answer about one id.
type Row<I> = (bool, Option<u32>, [Option<I>; 5]);

fn row<I: Idt>(f: &Forest<I, u32>, id: I) -> Row<I> {
    match f.node(id) {
        None => (false, f.data(id).copied(), [None; 5]),
        Some(n) => (
            true,
            f.data(id).copied(),
            [n.parent_id(), n.prev_sibling_id(), n.next_sibling_id(), n.first_child_id(), n.last_child_id()],
        ),
    }
}

struct Filled<I: Idt> {
    f: Forest<I, u32>,
    ids: Vec<I>,
    /// A live node with a parent, and the top of a tree of exactly three nodes, if there are such.
    inner: Option<I>,
    three: Option<I>,
    leaf: Option<I>,
}

fn fill<I: Idt>(shape: usize, level: usize) -> Result<Filled<I>, (usize, String)> {
    let mut f: Forest<I, u32> = Forest::new();
    let mut ids: Vec<I> = Vec::with_capacity(level);
    let mut inner = None;
    let mut three = None;
    // The first nodes: always a tree of three and a leaf.
    let mut made = 0;
    let mut go = || -> Result<(), Panicked> {
        guard(|| {
            while made < level {
                let tag = made as u32;
                let via_three = level >= 4 && made < 3;
                let id = if via_three {
                    match made {
                        0 => f.create_root(tag),
                        1 => f.create_insert(tag, dest(crate::model::Place::Last, ids[0])),
                        _ => f.create_insert(tag, dest(crate::model::Place::Next, ids[1])),
                    }
                } else {
                    let prev = *ids.get(if level >= 4 { 3 } else { 0 }).unwrap_or(&probe::<I>());
                    let first = made == if level >= 4 { 3 } else { 0 };
                    if first {
                        f.create_root(tag)
                    } else {
                        match shape {
                            0 => f.create_root(tag),
                            1 => f.create_insert(tag, dest(crate::model::Place::Last, prev)),
                            2 => f.create_insert(tag, dest(crate::model::Place::First, ids[made - 1])),
                            3 => {
                                let id = f.create_insert(tag, dest(crate::model::Place::First, prev));
                                if made % 10 != 0 {
                                    f.remove(id);
                                }
                                id
                            }
                            4 => {
                                let base = if level >= 4 { 3 } else { 0 };
                                let a = ids[base + (made - base) / 2];
                                let place = crate::model::PLACES[made % 4];
                                let mut h = f.node_mut(a).expect("[harness] anchor");
                                let rooted = h.node().parent_id().is_none();
                                h.create(tag, adopt_as(if rooted { crate::model::Place::Last } else { place }))
                            }
                            _ => {
                                if level - made >= 3 && level >= 4 {
                                    let c = f.clone_local_tree(ids[0]);
                                    for (k, x) in walk(&f, c, 3).into_iter().enumerate() {
                                        if k > 0 {
                                            ids.push(x);
                                            made += 1;
                                        } else {
                                            ids.push(c);
                                        }
                                    }
                                    made += 1;
                                    continue;
                                }
                                f.create_root(tag)
                            }
                        }
                    }
                };
                ids.push(id);
                made += 1;
            }
        })
    };
    // A copy may fail when only some of its nodes fit.
    let slack = if shape == 5 { 2 } else { 0 };
    let r = go();
    r.map_err(|p| (made + slack, p.msg))?;
    if level >= 4 {
        three = Some(ids[0]);
        inner = Some(ids[1]);
    }
    let leaf = ids.iter().rev().copied().find(|&i| f.node(i).map_or(false, |n| n.first_child_id().is_none()));
    Ok(Filled { f, ids, inner, three, leaf })
}

fn probe<I: Idt>() -> I {
    let mut f: Forest<I, u32> = Forest::new();
    f.create_root(0)
}

/// The forest's answers about all its ids must form a proper forest (for large forests).
fn proper<I: Idt>(f: &Forest<I, u32>, ids: &[I]) -> Result<(), String> {
    let index: std::collections::HashMap<I, usize> = ids.iter().enumerate().map(|(i, &x)| (x, i)).collect();
    if index.len() != ids.len() {
        return Err("two nodes have the same id".into());
    }
    let mut listed = vec![0u8; ids.len()];
    let mut roots = 0usize;
    let mut live = 0usize;
    let mut inner = 0usize;
    for (i, &id) in ids.iter().enumerate() {
        let n = match f.node(id) {
            None => continue,
            Some(n) => n,
        };
        live += 1;
        if n.parent_id().is_none() {
            roots += 1;
            if n.prev_sibling_id().is_some() || n.next_sibling_id().is_some() {
                return Err(format!("#{i} is a root with a sibling"));
            }
        }
        let mut before = None;
        let mut c = n.first_child_id();
        while let Some(x) = c {
            let k = *index.get(&x).ok_or_else(|| format!("a child of #{i} is unknown: {x:?}"))?;
            let cn = f.node(x).ok_or_else(|| format!("child #{k} of #{i} is dead"))?;
            listed[k] += 1;
            inner += 1;
            if listed[k] > 1 {
                return Err(format!("#{k} stands in child lists twice"));
            }
            if cn.parent_id() != Some(id) || cn.prev_sibling_id() != before {
                return Err(format!("#{k}'s parent or previous sibling disagrees with the child list of #{i}"));
            }
            before = Some(x);
            c = cn.next_sibling_id();
        }
        if n.last_child_id() != before {
            return Err(format!("last child of #{i} is not the end of its child list"));
        }
    }
    if roots + inner != live {
        return Err("a node is neither a root nor listed as a child".into());
    }
    Ok(())
}

/// `words` = type, shape, level, way.
fn fill_case<I: Idt>(words: &[u64], judge: Judge, st: &mut Stats) -> Result<(), String> {
    let (t, shape, level, way) = (words[0], words[1] as usize, words[2] as usize, words[3] as usize);
    let max = max_of(t);
    let panics = |msg: &str| -> Result<(), String> {
        if judge == Judge::Panics && !msg.contains("[precondition]") {
            return Err(format!("panic not marked as a precondition: {msg}"));
        }
        Ok(())
    };
    let mut w = match fill::<I>(shape, level) {
        Ok(w) => w,
        Err((made, msg)) => {
            // Creating was refused before the level was reached.
            if max.map_or(true, |m| made < m - 1) {
                return Err(format!("creation panicked when the forest had had {made} nodes: {msg}"));
            }
            st.count("fill levels beyond the capacity", 1);
            return panics(&msg);
        }
    };
    st.transitions += level as u64;
    let result = judge == Judge::Result;
    if result && max.map_or(false, |m| level > m) {
        return Err(format!("{level} nodes were created, more than the maximum of the integer"));
    }
    if w.ids.len() != level {
        return if result { Err(format!("{} ids for {level} nodes", w.ids.len())) } else { Ok(()) };
    }
    if result {
        let all: HashSet<I> = w.ids.iter().copied().collect();
        if all.len() != level {
            return Err("an id was handed out twice while filling".into());
        }
    }
    let before: Vec<Row<I>> = w.ids.iter().map(|&i| row(&w.f, i)).collect();
    let tag = 7_000_000;
    let mut fresh: Vec<I> = Vec::new();
    let place = crate::model::PLACES[if way == 0 { 0 } else { (way - 1) % 4 }];
    let child = place.child();
    let anchor = if child { w.leaf } else { w.inner };
    let mut donor: Forest<I, u32> = Forest::new();
    let d = donor.create_root(tag);
    let d1 = donor.create_insert(tag + 1, dest(crate::model::Place::Last, d));
    let _ = donor.create_insert(tag + 2, dest(crate::model::Place::Last, d1));
    let e = donor.create_root(tag);
    for k in 1..5u32 {
        let _ = donor.create_insert(tag + k, dest(crate::model::Place::Last, e));
    }
    let single = donor.create_root(tag);
    let f = &mut w.f;
    let fr = &mut fresh;
    let mut mapped = 0;
    let (leaf, three) = (w.leaf, w.three);
    let r: Result<bool, Panicked> = guard(|| {
        match way {
            0 => fr.push(f.create_root(tag)),
            1..=4 => match anchor {
                Some(a) => fr.push(f.create_insert(tag, dest(place, a))),
                None => return false,
            },
            5..=8 => match anchor {
                Some(a) => fr.push(f.node_mut(a).expect("[harness] live").create(tag, adopt_as(place))),
                None => return false,
            },
            9 => match leaf {
                Some(l) => {
                    let c = f.clone_local_tree(l);
                    fr.extend(walk(f, c, 8));
                }
                None => return false,
            },
            10 | 11 => match three {
                Some(l) => {
                    let c = if way == 10 {
                        f.clone_local_tree(l)
                    } else {
                        f.clone_local_tree_with_id_mapping(l, |_, _| mapped += 1)
                    };
                    fr.extend(walk(f, c, 8));
                }
                None => return false,
            },
            12..=14 => {
                let s = donor.node(if way == 12 { single } else if way == 13 { d } else { e }).expect("[harness] donor");
                let c = if way == 14 {
                    f.clone_foreign_tree_with_id_mapping(s, |_, _| mapped += 1)
                } else {
                    f.clone_foreign_tree(s)
                };
                fr.extend(walk(f, c, 8));
            }
            15 => {
                let mut b = ChainTreeBuilder::new(f, tag);
                fr.push(b.root_id());
                fr.push(b.child(tag + 1).current_id());
                fr.push(b.sibling(tag + 2).current_id());
            }
            16 => {
                let mut b = ChainTreeBuilder::new(f, tag);
                fr.push(b.root_id());
                fr.push(b.child(tag + 1).current_id());
                fr.push(b.parent().child(tag + 2).current_id());
                fr.push(b.child(tag + 3).current_id());
            }
            17 => {
                let mut b = NestTreeBuilder::new(f, tag);
                b.create_tree(tag + 1, |b| b.add_child(tag + 2));
                let r = b.root();
                fr.extend(walk(f, r, 8));
            }
            _ => {
                let mut b = NestTreeBuilder::new(f, tag);
                b.add_child(tag + 1);
                b.add_child(tag + 2);
                b.create_tree(tag + 3, |_| {});
                let r = b.root();
                fr.extend(walk(f, r, 8));
            }
        }
        true
    });
    st.transitions += 1;
    let need = need(way);
    let succeeded = match &r {
        Ok(false) => return Ok(()), // no such anchor at this level
        Ok(true) => true,
        Err(p) => {
            panics(&p.msg)?;
            false
        }
    };
    match (succeeded, max) {
        (false, None) => return Err(format!("panicked though ids are not exhausted: {}", r.err().map_or(String::new(), |p| p.msg))),
        (false, Some(m)) if level + need <= m - 1 => {
            return Err(format!("panicked with {level} nodes so far, though {} more must fit: {}", m - 1 - level, r.err().map_or(String::new(), |p| p.msg)))
        }
        (true, Some(m)) if result && level + need > m => {
            return Err(format!("succeeded, with {} nodes in total, more than the maximum {m}", level + need))
        }
        _ => {}
    }
    st.count(if succeeded { "creations done" } else { "creations refused" }, 1);
    if !result {
        return if succeeded { Ok(()) } else { after_refusal(&mut w, Vec::new(), Vec::new(), judge) };
    }
    // What was there before, but for the links next to the new node.
    for (i, &id) in w.ids.iter().enumerate() {
        let now = row(&w.f, id);
        let b = &before[i];
        let links_changed = now.2 != b.2;
        let near = succeeded && (1..=8).contains(&way) && (Some(id) == anchor || touches(&w.f, id, fresh[0]));
        if now.0 != b.0 || now.1 != b.1 || (links_changed && !near) {
            return Err(format!("#{i} answered {b:?} before the call and {now:?} after it"));
        }
    }
    let mut all = w.ids.clone();
    if succeeded {
        if fresh.len() != need {
            return Err(format!("{} new nodes, should be {need}", fresh.len()));
        }
        let old: HashSet<I> = w.ids.iter().copied().collect();
        for (k, id) in fresh.iter().enumerate() {
            if old.contains(id) || fresh[..k].contains(id) {
                return Err(format!("id {id:?} was handed out before"));
            }
            if w.f.data(*id).is_none() {
                return Err("a new node is not alive".into());
            }
        }
        all.extend(&fresh);
        proper(&w.f, &all)?;
        if w.f.data(fresh[0]) == Some(&tag) || (9..=11).contains(&way) {
            return Ok(());
        }
        return Err("the new node does not hold its payload".into());
    }
    after_refusal(&mut w, all, before, judge)
}

/// Whether a node is next to the new one.
fn touches<I: Idt>(f: &Forest<I, u32>, id: I, new: I) -> bool {
    f.node(id).map_or(false, |n| {
        [n.prev_sibling_id(), n.next_sibling_id(), n.first_child_id(), n.last_child_id()].contains(&Some(new))
    })
}

/// After a refused creation: further ones end in panics, too, at last; nothing old changes, and
/// the forest can still be restructured and emptied.
fn after_refusal<I: Idt>(w: &mut Filled<I>, mut all: Vec<I>, before: Vec<Row<I>>, judge: Judge) -> Result<(), String> {
    let mut refused = 0;
    for k in 0..12u32 {
        let anchor = w.leaf;
        let f = &mut w.f;
        let r = guard(|| match (k % 4, anchor) {
            (0, Some(a)) => f.create_insert(8_000_000 + k, dest(crate::model::Place::First, a)),
            (1, Some(a)) => f.clone_local_tree(a),
            _ => f.create_root(8_000_000 + k),
        });
        match r {
            Ok(id) => {
                if judge == Judge::Result && all.contains(&id) {
                    return Err(format!("after a refused creation, id {id:?} was handed out again"));
                }
                all.push(id);
            }
            Err(p) => {
                if judge == Judge::Panics && !p.is_precondition() {
                    return Err(format!("panic not marked as a precondition: {}", p.msg));
                }
                refused += 1;
            }
        }
    }
    if judge == Judge::Panics {
        return Ok(());
    }
    if refused < 6 {
        return Err(format!("after a refused creation, {} of 12 further ones succeeded", 12 - refused));
    }
    // Orphans of refused creations are nodes as well.
    let known: HashSet<I> = all.iter().copied().collect();
    if all.len() <= 256 {
        let mut pf: Forest<I, u32> = Forest::new();
        let _ = guard(|| {
            for _ in 0..256 {
                let p = pf.create_root(0);
                if !known.contains(&p) && w.f.node(p).is_some() {
                    all.push(p);
                }
            }
        });
    }
    for (i, b) in before.iter().enumerate() {
        let now = row(&w.f, w.ids[i]);
        // The anchor of the further creations may have got children.
        if now.0 != b.0 || now.1 != b.1 || (now.2 != b.2 && Some(w.ids[i]) != w.leaf) {
            return Err(format!("#{i} answered {b:?} before a refused creation and {now:?} after it"));
        }
    }
    if all.len() <= 300 {
        proper(&w.f, &all)?;
    }
    // Still usable.
    let live: Vec<I> = all.iter().copied().filter(|&i| w.f.node(i).is_some()).collect();
    if live.len() >= 2 {
        let (a, b) = (live[0], live[live.len() - 1]);
        let f = &mut w.f;
        let r = guard(|| {
            f.detach(b);
            f.insert(b, dest(crate::model::Place::First, a)).is_ok() && f.node(a).and_then(|n| n.first_child_id()) == Some(b)
        });
        match r {
            Ok(true) => {}
            Ok(false) => return Err("after a refused creation, moving the last node below the first fails".into()),
            Err(p) => return Err(format!("after a refused creation, moving a node panicked: {}", p.msg)),
        }
        if all.len() <= 300 {
            proper(&w.f, &all)?;
        }
        let f = &mut w.f;
        let r = guard(|| {
            let mut n = 0usize;
            f.remove_hooked(a, |_| n += 1);
            n
        });
        let dead = live.iter().filter(|&&i| w.f.node(i).is_none()).count();
        match r {
            Ok(n) if n == dead && n >= 2 => {}
            Ok(n) => return Err(format!("after a refused creation, removing a tree hands out {n} payloads, {dead} nodes died")),
            Err(p) => return Err(format!("after a refused creation, removing a tree panicked: {}", p.msg)),
        }
        if all.len() <= 300 {
            proper(&w.f, &all)?;
        }
    }
    Ok(())
}

fn fill_text(w: &[u64]) -> String {
    format!(
        "id type {}, forest filled with {} nodes ({}), then {}",
        TYPES[w[0] as usize], w[2], FILLS[w[1] as usize], WAYS[w[3] as usize]
    )
}

pub fn fills(judge: Judge) {
    let t = run().thorough();
    let mut cases: Vec<Vec<u64>> = Vec::new();
    for ty in 0..TYPES.len() as u64 {
        let levels: Vec<u64> = match max_of(ty) {
            Some(255) => (0..=257).collect(),
            Some(_) => {
                let mut v: Vec<u64> = vec![254, 255, 256, 257];
                v.extend(65529..=65536);
                v
            }
            None => vec![254, 255, 256, 257, 65533, 65534, 65535, 65536, 65537, 70000],
        };
        let big = max_of(ty) != Some(255);
        for &level in &levels {
            let shapes: Vec<u64> = if !big || t { (0..6).collect() } else { vec![0, 1, 3, 5] };
            for shape in shapes {
                for way in 0..WAYS.len() as u64 {
                    if big && !t && max_of(ty).is_none() && way % 3 != 0 {
                        continue;
                    }
                    if judge == Judge::Panics && (max_of(ty).is_none() || level + 8 < max_of(ty).unwrap_or(0) as u64) {
                        continue;
                    }
                    cases.push(vec![2000, ty, shape, level, way]);
                }
            }
        }
    }
    let s = run_cases(
        cases.len(),
        |i| cases[i].clone(),
        |c, st| dispatch!(c[1], fill_case, &c[1..], judge, st),
        |c| fill_text(&c[1..]),
    );
    record(
        "fill-levels",
        &format!(
            "id types {TYPES:?}; histories {FILLS:?}; every number of nodes 0..=257 for the 8-bit types, numbers around 255 and 65535 for \
             the others; each way to create: {WAYS:?}"
        ),
        s,
    );
}

// ------------------------------------------------------------- eq, hash, order

fn h<T: Hash>(v: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut s);
    s.finish()
}

fn relations<I: Idt + Ord>(n: usize, st: &mut Stats) -> Result<(), String> {
    let mut f: Forest<I, ()> = Forest::new();
    let mut g: Forest<I, ()> = Forest::new();
    let mut ids = Vec::new();
    let mut twin = Vec::new();
    guard(|| {
        for _ in 0..n {
            ids.push(f.create_root(()));
            twin.push(g.create_root(()));
        }
    })
    .map_err(|p| format!("creating {n} nodes panicked: {}", p.msg))?;
    let pick: Vec<usize> = (0..n)
        .filter(|i| n <= 300 || i % 997 == 0 || (0..17).any(|b| (1usize << b).abs_diff(*i) <= 2) || i + 3 > n)
        .collect();
    for &i in &pick {
        let a = ids[i];
        for j in 0..n {
            let b = ids[j];
            st.transitions += 1;
            let eq = a == b;
            if eq != (i == j) || (a != b) == eq {
                return Err(format!("ids number {i} and {j}: == is {eq}"));
            }
            let (c, d) = (a.cmp(&b), b.cmp(&a));
            if (c == std::cmp::Ordering::Equal) != eq || c != d.reverse() || a.partial_cmp(&b) != Some(c) {
                return Err(format!("ids number {i} and {j}: cmp is {c:?}, the other way {d:?}, partial_cmp {:?}", a.partial_cmp(&b)));
            }
            if (a < b) != c.is_lt() || (a > b) != c.is_gt() || (a <= b) != c.is_le() || (a >= b) != c.is_ge() {
                return Err(format!("ids number {i} and {j}: comparison operators disagree with cmp"));
            }
            if a.max(b) != (if c.is_gt() { a } else { b }) || a.min(b) != (if c.is_gt() { b } else { a }) {
                return Err(format!("ids number {i} and {j}: min or max disagree with cmp"));
            }
        }
        // The same value from another forest, if forests number alike.
        if twin[i] == a && h(&twin[i]) != h(&a) {
            return Err(format!("ids number {i} of two forests are equal, their hashes are not"));
        }
        let copy = I::from_internal(a.to_internal());
        if copy != a || h(&copy) != h(&a) || copy.cmp(&a) != std::cmp::Ordering::Equal {
            return Err(format!("id number {i} turned to its internal id and back is not equal to itself"));
        }
    }
    // Transitivity: sorting yields one chain in which every earlier id is smaller.
    let mut sorted: Vec<I> = if n <= 300 { ids.clone() } else { pick.iter().map(|&i| ids[i]).collect() };
    sorted.sort();
    for i in 0..sorted.len() {
        for j in i + 1..sorted.len() {
            st.transitions += 1;
            if sorted[i] >= sorted[j] {
                return Err("the order of ids is not transitive".into());
            }
        }
    }
    let set: HashSet<I> = ids.iter().copied().collect();
    let tree: std::collections::BTreeSet<I> = ids.iter().copied().collect();
    if set.len() != n || tree.len() != n || ids.iter().any(|i| !set.contains(i) || !tree.contains(i)) {
        return Err("a hash set or ordered set of all ids loses some".into());
    }
    Ok(())
}

fn relation_case(w: &[u64], st: &mut Stats) -> Result<(), String> {
    let n = w[1] as usize;
    dispatch!(w[0], relations, n, st)
}

/// Checks that ids of the internal types can be used through the generic bound.
#[allow(dead_code)]
fn bound<I: InternalNodeId>() {}

pub fn check(_prop: &str) {
    let t = run().thorough();
    let cases: Vec<Vec<u64>> = (0..TYPES.len() as u64)
        .map(|ty| vec![2001, ty, match max_of(ty) { Some(m) => m as u64 - 1, None => 66_000 }])
        .collect();
    let s = run_cases(
        cases.len(),
        |i| cases[i].clone(),
        |c, st| relation_case(&c[1..], st),
        |c| format!("equality, hash and order of the first {} ids of {}", c[2], TYPES[c[1] as usize]),
    );
    record("relations", "every pair of ids of the 8-bit types; for the others every id with those next to powers of two and each 997th", s);
    fills(Judge::Result);
    let n = if t { 5 } else { 4 };
    for ty in 0..TYPES.len() {
        if ty == 4 {
            continue;
        }
        if violated() {
            return;
        }
        dispatch!(ty, closure, n, TYPES[ty]);
    }
}

pub fn play(prop: &str, words: &[u64]) -> Result<(), String> {
    let mut st = Stats::default();
    let judge = if prop == "C19" { Judge::Panics } else { Judge::Result };
    match words[0] {
        2000 => dispatch!(words[1], fill_case, &words[1..], judge, &mut st),
        _ => relation_case(&words[1..], &mut st),
    }
}
