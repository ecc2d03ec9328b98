//! C12: every program of builder calls. Also the builder part of C16 and C19.

use super::*;
use crate::model::*;
use crate::shapes::*;
use treena::dynamic::{ChainTreeBuilder, Forest, NestTreeBuilder};

type Id = super::structural::Id;

/// Which findings count.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Judge {
    /// The tree, the root and the position.
    Result,
    /// Panics of valid calls, and panics without the precondition mark.
    Panics,
}

pub const CHAIN_TOKENS: [&str; 10] = [
    "child",
    "sibling",
    "parent",
    "try_parent",
    "forest_mut().detach(current)",
    "forest_mut().remove(current)",
    "forest_mut().insert(root, last child of base node 1)",
    "forest_mut().insert(current, first child of root)",
    "forest_mut().create_insert(first child of current)",
    "forest_mut().detach_single(current)",
];

pub fn ctx(probes: usize) -> Ctx<Id, Val> {
    Ctx::new(probes)
}

/// Base forests builders work on.
pub fn base(ctx: &Ctx<Id, Val>, which: u64) -> World<Id, Val> {
    let via = Via::Forest;
    let ops: Vec<Op> = match which {
        0 => vec![],
        1 => vec![
            Op::CreateRoot,
            Op::Create { via, place: Place::Last, anchor: 0 },
            Op::Create { via, place: Place::Last, anchor: 0 },
            Op::Create { via, place: Place::Last, anchor: 1 },
            Op::Remove { form: Form::Plain, via, node: 2 },
            Op::CreateRoot,
        ],
        _ => vec![
            Op::CreateRoot,
            Op::CreateRoot,
            Op::Create { via, place: Place::First, anchor: 1 },
            Op::Create { via, place: Place::Prev, anchor: 2 },
            Op::Remove { form: Form::Plain, via, node: 0 },
            Op::Detach { via, node: 2 },
            Op::Insert { via: IVia::Insert, node: 1, place: Place::First, anchor: 2 },
        ],
    };
    let mut w = World::empty();
    for op in ops {
        let ex = expect(ctx, &w.model, op);
        let ac = apply_real(ctx, &mut w, op);
        if let Some(ac) = ac {
            if settle(ctx, &mut w, op, &ex, &ac).is_err() {
                // Another property's business; work on what there is.
                break;
            }
        }
    }
    w
}

pub fn check_world<P: Pay>(ctx: &Ctx<Id, P>, f: &Forest<Id, P>, ids: &[Id], m: &Model) -> Result<(), String> {
    let mut bad = Vec::new();
    compare(ctx, f, ids, m, &mut bad);
    match bad.first() {
        None => Ok(()),
        Some(b) => Err(format!("{} (the forest should be [{}])", b.what, m.text())),
    }
}

/// Finds the id of the orphan a refused creation may leave.
fn find_orphan(ctx: &Ctx<Id, Val>, f: &Forest<Id, Val>, ids: &[Id]) -> Option<Id> {
    guard(|| ctx.probes.iter().copied().find(|p| !ids.contains(p) && f.node(*p).is_some())).ok().flatten()
}

/// Runs one chain builder program; `words` = base, tokens.
pub fn chain(ctx: &Ctx<Id, Val>, words: &[u64], judge: Judge, st: &mut Stats) -> Result<(), String> {
    let mut w = base(ctx, words[0]);
    let result = judge == Judge::Result;
    let mut m = std::mem::take(&mut w.model);
    let mut ids = std::mem::take(&mut w.ids);
    let tag0 = tag_of(m.attempts);
    let mut b = match guard(|| ChainTreeBuilder::new(&mut w.forest, Val::make(tag0))) {
        Ok(b) => b,
        Err(p) => return Err(format!("ChainTreeBuilder::new panicked: {}", p.msg)),
    };
    let root = std::sync::Arc::make_mut(&mut m).add_root(tag0);
    std::sync::Arc::make_mut(&mut m).attempts += 1;
    ids.push(b.root_id());
    let mut cur = root;
    st.transitions += words.len() as u64;
    for (k, &t) in words[1..].iter().enumerate() {
        let at = || {
            let p: Vec<&str> = words[1..=k + 1].iter().map(|t| CHAIN_TOKENS[*t as usize]).collect();
            format!("on base forest {}, new(), {}", words[0], p.join(", "))
        };
        let alive = m.alive(cur);
        let parent = if alive { m.n(cur).parent } else { None };
        let tag = tag_of(m.attempts);
        // Some(true): done, Some(false): answered with `None`.
        let (ok, r) = match t {
            0 => (alive, guard(|| b.child(Val::make(tag))).map(|_| true)),
            1 => (parent.is_some(), guard(|| b.sibling(Val::make(tag))).map(|_| true)),
            2 => (parent.is_some(), guard(|| b.parent()).map(|_| true)),
            3 => (alive, guard(|| b.try_parent().is_some())),
            _ => {
                let via = Via::Forest;
                let op = match t {
                    4 => Op::Detach { via, node: cur },
                    5 => Op::Remove { form: Form::Plain, via, node: cur },
                    6 => Op::Insert {
                        via: IVia::Insert,
                        node: root,
                        place: Place::Last,
                        anchor: if words[0] == 0 { cur } else { 1 },
                    },
                    7 => Op::Insert { via: IVia::Insert, node: cur, place: Place::First, anchor: root },
                    8 => Op::Create { via, place: Place::First, anchor: cur },
                    _ => Op::DetachSingle { via, node: cur },
                };
                let ex = expect(ctx, &m, op);
                let mut x = World {
                    forest: std::mem::take(b.forest_mut()),
                    ids: std::mem::take(&mut ids),
                    model: std::mem::take(&mut m),
                };
                let ac = apply_real(ctx, &mut x, op);
                let r = match &ac {
                    Some(ac) => settle(ctx, &mut x, op, &ex, ac).map(|_| ()),
                    None => Ok(()),
                };
                *b.forest_mut() = x.forest;
                ids = x.ids;
                m = x.model;
                if r.is_err() {
                    // The forest's own calls are other properties' business.
                    st.count("programs ended by another property", 1);
                    return Ok(());
                }
                continue;
            }
        };
        match &r {
            Err(p) if ok => return Err(format!("{}: the last call panicked: {}", at(), p.msg)),
            Err(p) if !result && !p.is_precondition() => {
                return Err(format!("{}: panic not marked as a precondition: {}", at(), p.msg))
            }
            Ok(_) if !ok && result => return Err(format!("{}: the last call is impossible, but succeeded", at())),
            Ok(_) if !ok => return Ok(()),
            Ok(moved) if t == 3 && *moved != parent.is_some() && result => {
                return Err(format!("{}: try_parent() gave {}", at(), if *moved { "some" } else { "none" }))
            }
            _ => {}
        }
        match (t, ok) {
            (0 | 1, true) => {
                let n = std::sync::Arc::make_mut(&mut m).add_root(tag);
                std::sync::Arc::make_mut(&mut m).attempts += 1;
                ids.push(b.current_id());
                if t == 0 {
                    std::sync::Arc::make_mut(&mut m).attach(n, Place::Last, cur);
                } else {
                    std::sync::Arc::make_mut(&mut m).attach(n, Place::Next, cur);
                }
                cur = n;
            }
            (0 | 1, false) => {
                std::sync::Arc::make_mut(&mut m).attempts += 1;
                if let Some(o) = find_orphan(ctx, b.forest(), &ids) {
                    ids.push(o);
                    std::sync::Arc::make_mut(&mut m).add_root(tag);
                }
            }
            (2 | 3, true) => {
                if let Some(p) = parent {
                    cur = p;
                }
            }
            _ => {}
        }
        if result {
            if b.current_id() != ids[cur as usize] {
                let got = ids.iter().position(|x| *x == b.current_id());
                return Err(format!("{}: current_id() is {:?}, should be #{cur} (known: {got:?})", at(), b.current_id()));
            }
            if b.root_id() != ids[root as usize] {
                return Err(format!("{}: root_id() is {:?}, should be #{root}", at(), b.root_id()));
            }
            if k + 2 == words.len() {
                check_world(ctx, b.forest(), &ids, &m).map_err(|e| format!("{}: {e}", at()))?;
            }
        }
    }
    drop(b);
    if result {
        check_world(ctx, &w.forest, &ids, &m)?;
    }
    Ok(())
}

pub fn chain_text(words: &[u64]) -> String {
    let p: Vec<&str> = words[1..].iter().map(|t| CHAIN_TOKENS[*t as usize]).collect();
    format!("chain builder on base forest {}: new(); {}", words[0], p.join("; "))
}

// ----------------------------------------------------------------------- nest

fn parents_of(depths: &[usize]) -> Vec<Option<usize>> {
    let mut last: Vec<usize> = Vec::new();
    let mut out = Vec::new();
    for (i, &d) in depths.iter().enumerate() {
        last.truncate(d);
        out.push(last.last().copied());
        last.push(i);
    }
    out
}

/// The nested program of a tree shape: `words` = base, mask, panic point (or 255), depths.
/// Bit i of mask: the i-th leaf is made by `create_tree` with an empty closure.
/// From `RESUME` on: the panic is caught around the innermost `create_tree` it leaves, and the
/// surrounding closure goes on.
const RESUME: u64 = 300;

struct Nest<'a> {
    depths: Vec<usize>,
    as_tree: Vec<bool>,
    /// The panic is raised after this many builder calls.
    panic_at: u64,
    resume: bool,
    /// A panic was caught inside.
    caught: std::cell::Cell<bool>,
    calls: std::cell::Cell<u64>,
    tag0: u32,
    log: std::cell::RefCell<Vec<String>>,
    roots: std::cell::RefCell<Vec<(usize, Id)>>,
    _p: std::marker::PhantomData<&'a ()>,
}

impl Nest<'_> {
    fn point(&self) {
        if self.calls.get() == self.panic_at {
            user_panic()
        }
        self.calls.set(self.calls.get() + 1);
    }
    fn kids(&self, i: usize) -> Vec<usize> {
        let d = self.depths[i];
        let mut v = Vec::new();
        for j in i + 1..self.depths.len() {
            if self.depths[j] <= d {
                break;
            }
            if self.depths[j] == d + 1 {
                v.push(j);
            }
        }
        v
    }
    fn fill<'f>(&self, b: &mut NestTreeBuilder<'f, Id, Val>, i: usize) {
        let root = b.root();
        self.roots.borrow_mut().push((i, root));
        for k in self.kids(i) {
            self.point();
            if self.as_tree[k] {
                let t = self.tag0 + k as u32;
                if !self.resume {
                    b.create_tree(Val::make(t), |b| self.fill(b, k));
                } else if guard(|| b.create_tree(Val::make(t), |b| self.fill(b, k))).is_err() {
                    self.caught.set(true);
                }
            } else {
                b.add_child(Val::make(self.tag0 + k as u32));
            }
            if b.root() != root && !self.caught.get() {
                self.log.borrow_mut().push(format!("root() changes in the course of building node {i}"));
            }
        }
        self.point();
    }
}

pub fn nest(ctx: &Ctx<Id, Val>, words: &[u64], st: &mut Stats) -> Result<(), String> {
    let mut w = base(ctx, words[0]);
    let depths: Vec<usize> = words[3..].iter().map(|x| *x as usize).collect();
    let n = depths.len();
    let leaf = |i: usize| i + 1 >= n || depths[i + 1] <= depths[i];
    let mut li = 0;
    let as_tree: Vec<bool> = (0..n)
        .map(|i| {
            if leaf(i) {
                li += 1;
                words[1] >> ((li - 1) % 64) & 1 == 1
            } else {
                true
            }
        })
        .collect();
    let tag0 = tag_of(w.model.attempts);
    let prog = Nest {
        depths: depths.clone(),
        as_tree,
        panic_at: match words[2] {
            255 => u64::MAX,
            k => k % RESUME,
        },
        resume: words[2] >= RESUME,
        caught: Default::default(),
        calls: std::cell::Cell::new(0),
        tag0,
        log: Default::default(),
        roots: Default::default(),
        _p: std::marker::PhantomData,
    };
    st.transitions += n as u64;
    let mut top = None;
    let f = &mut w.forest;
    let r = guard(|| {
        let mut b = NestTreeBuilder::new(f, Val::make(tag0));
        top = Some(b.root());
        prog.fill(&mut b, 0);
        b.root()
    });
    let before = w.model.nodes.len();
    match r {
        Ok(root) => {
            if words[2] != 255 && !prog.caught.get() {
                return Ok(()); // The panic point lies beyond the end.
            }
            if Some(root) != top && words[2] == 255 {
                return Err("root() at the end is not the one of the beginning".into());
            }
        }
        Err(p) if p.user => {}
        // What a builder does after a panic that went through it is its own affair.
        Err(_) if prog.caught.get() => {}
        Err(p) => return Err(format!("a builder call panicked: {}", p.msg)),
    }
    if let Some(l) = prog.log.borrow().first() {
        return Err(l.clone());
    }
    let par = parents_of(&depths);
    let top = top.ok_or("no root")?;
    if words[2] == 255 {
        // The tree, by the model.
        for (i, p) in par.iter().enumerate() {
            let x = std::sync::Arc::make_mut(&mut w.model).add_root(tag0 + i as u32);
            if let Some(p) = p {
                std::sync::Arc::make_mut(&mut w.model).attach(x, Place::Last, (before + p) as N);
            }
        }
        let ids = match guard(|| walk(&w.forest, top, n)) {
            Ok(v) => v,
            Err(p) => return Err(format!("walking the tree panicked: {}", p.msg)),
        };
        if ids.len() != n {
            return Err(format!("the tree has {} nodes, should have {n}", ids.len()));
        }
        if w.ids.iter().any(|i| ids.contains(i)) {
            return Err("the tree contains nodes that were there before".into());
        }
        w.ids.extend(ids);
        check_world(ctx, &w.forest, &w.ids, &w.model)?;
        for (i, r) in prog.roots.borrow().iter() {
            if *r != w.ids[before + i] {
                return Err(format!("root() while building node {i} is {r:?}"));
            }
        }
        return Ok(());
    }
    // A panic in the middle: the old nodes are as before, and all nodes form a proper forest.
    check_partial(ctx, &mut w, tag0, 1, st)
}

/// After a panic inside a cloning or building call: old nodes unchanged, new ones a proper part of
/// the forest; every further basic call does what it does on a fresh forest of that shape, and a
/// fresh id comes out of the next creation.
pub fn check_partial<P: Pay>(
    ctx: &Ctx<Id, P>,
    w: &mut World<Id, P>,
    tag0: u32,
    follow: usize,
    st: &mut Stats,
) -> Result<(), String> {
    let old = w.model.clone();
    let (mut m, ids) = observe(ctx, w)?;
    let same = (0..old.nodes.len()).all(|i| m.nodes[i] == old.nodes[i]);
    if !same {
        return Err(format!("nodes that existed before changed: [{}] became [{}]", old.text(), m.text()));
    }
    m.attempts = old.attempts + 64;
    // Payloads of the new nodes are made unique, through the public access.
    for i in old.nodes.len()..m.nodes.len() {
        if m.alive(i as N) {
            let tag = tag0 + 5000 + i as u32;
            m.nm(i as N).tag = tag;
            let f = &mut w.forest;
            if !guard(|| f.data_mut(ids[i]).map(|d| *d = P::make(tag)).is_some()).unwrap_or(false) {
                return Err(format!("new node #{i} has no payload"));
            }
        }
    }
    w.model = m.into();
    w.ids = ids;
    check_world(ctx, &w.forest, &w.ids, &w.model)?;
    let mut spec: Spec<Id, P> = Spec::new("after", 1);
    spec.ctx = Ctx::new(ctx.probes.len());
    let mut hist = Vec::new();
    follow_up(&spec, w, &w.model.clone(), follow, &mut hist, st)
}

/// Every basic call, up to `depth` of them in a row. A difference counts only if it does not show
/// on a fresh forest of the shape there was at first.
fn follow_up<P: Pay>(
    spec: &Spec<Id, P>,
    w: &World<Id, P>,
    first: &Model,
    depth: usize,
    hist: &mut Vec<Op>,
    st: &mut Stats,
) -> Result<(), String> {
    if depth == 0 {
        return Ok(());
    }
    let mut ops = Vec::new();
    enumerate(&spec.ctx, &w.model, &pick_args(&w.model), 4, &mut ops);
    for op in ops {
        if !basic_kind(op) {
            continue;
        }
        let ex = expect(&spec.ctx, &w.model, op);
        if !basic(op, &ex) {
            continue;
        }
        st.count("calls after a panic", 1);
        hist.push(op);
        match step(spec, w.clone(), op, &ex).0 {
            Step::Good(x, _) => follow_up(spec, &x, first, depth - 1, hist, st)?,
            Step::Bad(bad) => {
                let mut x = rebuild(&spec.ctx, first);
                for h in hist.iter() {
                    x = x.and_then(|x| {
                        let ex = expect(&spec.ctx, &x.model, *h);
                        match step(spec, x, *h, &ex).0 {
                            Step::Good(y, _) => Some(y),
                            _ => None,
                        }
                    });
                }
                if x.is_some() {
                    let h: Vec<String> = hist.iter().map(|o| o.text()).collect();
                    return Err(format!(
                        "after the panic the forest is [{}]; then the last call of `{}` goes wrong ({}), which it does not on a fresh \
                         forest of that shape",
                        first.text(),
                        h.join("; "),
                        bad[0].what
                    ));
                }
            }
            Step::Skip => {}
        }
        hist.pop();
    }
    Ok(())
}

pub fn nest_text(words: &[u64]) -> String {
    let d: Vec<String> = words[3..].iter().map(|x| x.to_string()).collect();
    format!(
        "nested builder on base forest {}, tree with preorder depths {}, leaf mask {:b} (1: leaf by create_tree){}",
        words[0],
        d.join(" "),
        words[1],
        match words[2] {
            255 => String::new(),
            k if k < RESUME => format!(", the closure panics before builder call {k}"),
            k => format!(
                ", the closure panics before builder call {}, which is caught around the innermost create_tree, and building goes on",
                k - RESUME
            ),
        }
    )
}

/// All nested programs of up to `max` nodes; with all panic points, if asked for.
pub fn nest_cases(max: usize, with_panics: bool) -> Vec<Vec<u64>> {
    let mut out = Vec::new();
    for n in 1..=max {
        for d in all_trees(n) {
            let leaves = (0..n).filter(|&i| i + 1 >= n || d[i + 1] <= d[i]).count();
            for mask in 0..1u64 << leaves {
                for base in 0..3u64 {
                    let mut c = vec![base, mask, 255];
                    c.extend(d.iter().map(|x| *x as u64));
                    if with_panics {
                        // A panic point before each call and at the end of each closure.
                        for k in 0..2 * n as u64 {
                            c[2] = k;
                            out.push(c.clone());
                            c[2] = RESUME + k;
                            out.push(c.clone());
                        }
                    } else {
                        out.push(c);
                    }
                }
            }
        }
    }
    out
}

pub fn chain_programs(judge: Judge, len: usize, tokens: u64) {
    let probes = ctx(len + 16);
    for base in 0..3u64 {
        let mut total = Stats::default();
        for l in 0..=len as u32 {
            if violated() {
                break;
            }
            let n = tokens.pow(l) as usize;
            let s = run_cases(
                n,
                |i| {
                    let mut c = vec![1000, base];
                    let mut r = i as u64;
                    for _ in 0..l {
                        c.push(r % tokens);
                        r /= tokens;
                    }
                    c
                },
                |c, st| chain(&probes, &c[1..], judge, st),
                |c| chain_text(&c[1..]),
            );
            total.add(&s);
        }
        record(
            &format!("chain-{len}x{tokens}-base{base}"),
            &format!(
                "every program of up to {len} calls out of {:?} on base forest {base} (0: empty; 1 and 2: with removed and moved nodes)",
                &CHAIN_TOKENS[..tokens as usize]
            ),
            total,
        );
    }
}

pub fn check(_prop: &str) {
    let t = run().thorough();
    chain_programs(Judge::Result, if t { 7 } else { 6 }, 10);
    chain_programs(Judge::Result, if t { 12 } else { 9 }, 4);
    let probes = ctx(40);
    let max = if t { 9 } else { 8 };
    let cases = nest_cases(max, false);
    let s = run_cases(
        cases.len(),
        |i| {
            let mut c = vec![1001];
            c.extend(&cases[i]);
            c
        },
        |c, st| nest(&probes, &c[1..], st),
        |c| nest_text(&c[1..]),
    );
    record(
        &format!("nest-{max}"),
        &format!("every tree shape of up to {max} nodes, every leaf made by add_child or create_tree, three base forests"),
        s,
    );
    if !violated() {
        big_programs(if t { &[40, 70, 140, 270, 520, 1030, 4100] } else { &[40, 70, 140, 270, 1030] });
    }
}

/// Chain builder and nested programs for large shapes.
fn big_programs(sizes: &[usize]) {
    let probes = ctx(sizes.iter().max().copied().unwrap_or(0) + 40);
    let mut cases: Vec<Vec<u64>> = Vec::new();
    for &n in sizes {
        for kind in KINDS.iter().filter(|k| **k != "grove") {
            let depths = big_depths(kind, n);
            for base in 0..3 {
                let mut c = vec![1000, base];
                let mut at = 0;
                for &d in &depths[1..] {
                    if d > at {
                        c.push(0);
                    } else {
                        c.extend(std::iter::repeat(2).take(at - d));
                        c.push(1);
                    }
                    at = d;
                }
                // Up to the root, and once more.
                let mut up = c.clone();
                up.extend(std::iter::repeat(3).take(at + 1));
                cases.extend([c, up]);
                for mask in [0, u64::MAX, 0x5555_5555_5555_5555, 0x8000_0000_0000_0001] {
                    let mut c = vec![1001, base, mask, 255];
                    c.extend(depths.iter().map(|d| *d as u64));
                    cases.push(c);
                }
            }
        }
    }
    let s = run_cases(
        cases.len(),
        |i| cases[i].clone(),
        |c, st| {
            if c[0] == 1000 {
                chain(&probes, &c[1..], Judge::Result, st)
            } else {
                nest(&probes, &c[1..], st)
            }
        },
        |c| {
            let mut t = if c[0] == 1000 { chain_text(&c[1..]) } else { nest_text(&c[1..]) };
            t.truncate(2000);
            t
        },
    );
    record(
        "large programs",
        &format!("the programs that build the parametric shapes {KINDS:?} (but the grove) of sizes {sizes:?}, by both builders, on three base forests"),
        s,
    );
}

/// Plays a case; first word: kind.
pub fn play(prop: &str, words: &[u64]) -> Result<(), String> {
    let c = ctx(64 + words.len());
    let mut st = Stats::default();
    match words[0] {
        1000 => chain(&c, &words[1..], if prop == "C19" { Judge::Panics } else { Judge::Result }, &mut st),
        _ if prop == "C19" => super::panics::nest(&c, &words[1..], &mut st),
        _ => nest(&c, &words[1..], &mut st),
    }
}
