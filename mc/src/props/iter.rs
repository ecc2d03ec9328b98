//! C08, C09, C10: every traversal from every node of every reached forest, under every
//! interleaving of front and back steps, against the sequences the model gives.

use crate::explore::*;
use crate::model::*;
use crate::ops::*;
use crate::report::*;
use crate::shapes::*;
use crate::util::*;
use std::collections::HashSet;
use std::fmt::Debug;
use super::{run_cases, CUSTOM};
use treena::dynamic::{DftEvent, Forest, InsertAs, Node};

/// Longest sequence whose interleavings are all run one by one.
const FULL: usize = 10;
/// Longest sequence whose interleavings are all run with equal iterator states merged.
const MERGED: usize = 40;
/// From here on only a few schedules.
const HUGE: usize = 5000;

/// What an iterator item is compared by: open/close, node number, depth.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Item {
    kind: char,
    node: u32,
    depth: usize,
}

pub struct Names<'m, I> {
    pub ids: &'m [I],
    pub model: &'m Model,
    index: Option<std::collections::HashMap<I, u32, CheapHash>>,
}

impl<'m, I: Idt> Names<'m, I> {
    pub fn new(ids: &'m [I], model: &'m Model) -> Self {
        let index = if ids.len() > 16 {
            Some(ids.iter().enumerate().map(|(i, &x)| (x, i as u32)).collect())
        } else {
            None
        };
        Names { ids, model, index }
    }
    /// Number of a node an iterator gave; a number nothing expects if it is not the node it says.
    pub fn num<P: Pay>(&self, n: &Node<'_, I, P>) -> u32 {
        let id = n.id();
        let i = match &self.index {
            Some(h) => h.get(&id).copied(),
            None => self.ids.iter().position(|&x| x == id).map(|i| i as u32),
        };
        match i {
            Some(i) if self.model.alive(i as N) && n.data().tag() == self.model.n(i as N).tag => i,
            _ => u32::MAX,
        }
    }
}

fn text(v: &[Item]) -> String {
    let mut o = String::new();
    for (i, x) in v.iter().enumerate() {
        if i == 400 {
            o.push_str(&format!(" ... ({} items)", v.len()));
            break;
        }
        if !o.is_empty() {
            o.push(' ');
        }
        match x.kind {
            'n' => {}
            k => o.push(k),
        }
        o.push_str(&format!("#{}", x.node));
        if x.depth != usize::MAX {
            o.push_str(&format!("@{}", x.depth));
        }
    }
    o
}

/// The exploration of one iterator.
struct Walk<'a, It: Iterator, K, PF, PB> {
    label: &'a str,
    want: &'a [Item],
    key: K,
    peek: Option<PF>,
    peek_back: Option<PB>,
    /// Whether taking a step must not allocate.
    no_alloc: bool,
    steps: u64,
    _it: std::marker::PhantomData<It>,
}

impl<'a, It, K, PF, PB> Walk<'a, It, K, PF, PB>
where
    It: Iterator + Clone,
    K: Fn(It::Item) -> Item,
    PF: Fn(&It) -> Option<Item>,
    PB: Fn(&It) -> Option<Item>,
{
    fn fail(&self, at: &str, got: Option<Item>, want: Option<Item>) -> Result<(), String> {
        let t = |x: Option<Item>| x.map_or("nothing".to_owned(), |x| text(&[x]));
        Err(format!(
            "{}, {at}: gives {}, should give {} (whole sequence: {})",
            self.label,
            t(got),
            t(want),
            text(self.want)
        ))
    }

    /// Everything that can be asked of an iterator that stands at `[i, j)` without moving it.
    fn stand(&self, it: &It, i: usize, j: usize, at: &dyn Fn() -> String) -> Result<(), String> {
        let rem = &self.want[i..j];
        if let Some(p) = &self.peek {
            let got = p(it);
            if got != rem.first().copied() {
                return self.fail(&format!("{}, peek", at()), got, rem.first().copied());
            }
        }
        if let Some(p) = &self.peek_back {
            let got = p(it);
            if got != rem.last().copied() {
                return self.fail(&format!("{}, peek_back", at()), got, rem.last().copied());
            }
        }
        let (lo, hi) = it.size_hint();
        if lo > rem.len() || hi.map_or(false, |h| h < rem.len()) {
            return Err(format!(
                "{}, {}: size hint ({lo}, {hi:?}) with {} items left (whole sequence: {})",
                self.label,
                at(),
                rem.len(),
                text(self.want)
            ));
        }
        Ok(())
    }

    fn step(&mut self, it: &mut It) -> (Option<Item>, u64) {
        self.steps += 1;
        let a = alloc_count();
        let x = it.next();
        let a = alloc_count() - a;
        (x.map(&self.key), a)
    }

    fn forward(&mut self, it: It) -> Result<(), String> {
        let mut it = it;
        let n = self.want.len();
        for i in 0..=n + 2 {
            let i0 = i.min(n);
            let at = || format!("after {i} forward steps");
            self.stand(&it, i0, n, &at)?;
            let want = self.want.get(i).copied();
            // A clone goes on as the original does.
            if n <= FULL || i % (if n > HUGE { n / 3 } else { 16 }) == 0 {
                let a0 = alloc_count();
                let mut c = it.clone();
                let a0 = alloc_count() - a0;
                if self.no_alloc && a0 > 0 {
                    return Err(format!("{}, {}: cloning the iterator allocates", self.label, at()));
                }
                let got = self.step(&mut c).0;
                if got != want {
                    return self.fail(&format!("{}, on a clone", at()), got, want);
                }
                for k in 0..=(n - i0).min(FULL) {
                    let mut c = it.clone();
                    let got = c.nth(k).map(&self.key);
                    let w = self.want.get(i + k).copied();
                    if got != w {
                        return self.fail(&format!("{}, nth({k})", at()), got, w);
                    }
                    let got = c.next().map(&self.key);
                    let w = self.want.get(i + k + 1).copied();
                    if got != w {
                        return self.fail(&format!("{}, next after nth({k})", at()), got, w);
                    }
                    self.steps += 2;
                }
                let got = it.clone().last().map(&self.key);
                let w = if i < n { self.want.last().copied() } else { None };
                if got != w {
                    return self.fail(&format!("{}, last()", at()), got, w);
                }
                let c = it.clone().count();
                if c != n - i0 {
                    return Err(format!("{}, {}: count() is {c}, should be {}", self.label, at(), n - i0));
                }
                let key = &self.key;
                let mut all = Vec::new();
                it.clone().for_each(|x| all.push(key(x)));
                if all != self.want[i0..] {
                    return Err(format!(
                        "{}, {}: for_each gives {}, should give {}",
                        self.label,
                        at(),
                        text(&all),
                        text(&self.want[i0..])
                    ));
                }
            }
            let (got, a) = self.step(&mut it);
            if got != want {
                return self.fail(&format!("forward step {}", i + 1), got, want);
            }
            if self.no_alloc && a > 0 {
                return Err(format!("{}, {}: the step allocates", self.label, at()));
            }
        }
        Ok(())
    }
}

impl<'a, It, K, PF, PB> Walk<'a, It, K, PF, PB>
where
    It: DoubleEndedIterator + Clone + Debug,
    K: Fn(It::Item) -> Item,
    PF: Fn(&It) -> Option<Item>,
    PB: Fn(&It) -> Option<Item>,
{
    fn sched(s: &[bool]) -> String {
        let mut o = String::from("after steps ");
        if s.is_empty() {
            o.push_str("(none)");
        }
        if s.len() > 400 {
            let back = s.iter().filter(|b| **b).count();
            return format!("after {} steps from the front and {back} from the back", s.len() - back);
        }
        for b in s {
            o.push(if *b { 'B' } else { 'F' });
        }
        o
    }

    /// One step from `[i, j)`; checks it.
    fn one(&mut self, it: &mut It, i: usize, j: usize, back: bool, s: &[bool]) -> Result<(), String> {
        self.steps += 1;
        let got = if back { it.next_back() } else { it.next() }.map(&self.key);
        let want = if i == j {
            None
        } else if back {
            Some(self.want[j - 1])
        } else {
            Some(self.want[i])
        };
        if got != want {
            let at = format!("{}, {}", Self::sched(s), if back { "next_back" } else { "next" });
            return self.fail(&at, got, want);
        }
        Ok(())
    }

    /// At the end in any way: nothing more, from either side, ever.
    fn ended(&mut self, it: &It, s: &[bool]) -> Result<(), String> {
        for p in 0..8u8 {
            let mut c = it.clone();
            for k in 0..3 {
                self.one(&mut c, 0, 0, p >> k & 1 == 1, s)?;
            }
            self.stand(&c, 0, 0, &|| format!("{} and three more", Self::sched(s)))?;
        }
        Ok(())
    }

    fn nths(&mut self, it: &It, i: usize, j: usize, s: &[bool]) -> Result<(), String> {
        for k in 0..=j - i {
            let (mut a, mut b) = (it.clone(), it.clone());
            let rem = &self.want[i..j];
            let got = a.nth(k).map(&self.key);
            if got != rem.get(k).copied() {
                return self.fail(&format!("{}, nth({k})", Self::sched(s)), got, rem.get(k).copied());
            }
            let (ni, nj) = ((i + k + 1).min(j), j);
            self.one(&mut a, ni, nj, true, s)?;
            let wb = if k < rem.len() { Some(rem[rem.len() - 1 - k]) } else { None };
            let got = b.nth_back(k).map(&self.key);
            if got != wb {
                return self.fail(&format!("{}, nth_back({k})", Self::sched(s)), got, wb);
            }
            let nj = if k < rem.len() { j - k - 1 } else { i };
            self.one(&mut b, i, nj, false, s)?;
            self.steps += 2;
        }
        let key = &self.key;
        let all: Vec<Item> = it.clone().map(key).collect();
        let mut rev: Vec<Item> = it.clone().rev().map(key).collect();
        let mut rf = Vec::new();
        it.clone().rfold((), |(), x| rf.push(key(x)));
        rev.reverse();
        rf.reverse();
        if all != self.want[i..j] || rev != all || rf != all {
            return Err(format!(
                "{}, {}: collect gives {}, rev (turned) {}, rfold (turned) {}, should be {}",
                self.label,
                Self::sched(s),
                text(&all),
                text(&rev),
                text(&rf),
                text(&self.want[i..j])
            ));
        }
        Ok(())
    }

    fn full(&mut self, it: &It, i: usize, j: usize, s: &mut Vec<bool>) -> Result<(), String> {
        self.stand(it, i, j, &|| Self::sched(s))?;
        if i == j {
            return self.ended(it, s);
        }
        if s.len() < 2 || j - i <= 2 {
            self.nths(it, i, j, s)?;
        }
        for back in [false, true] {
            let mut c = it.clone();
            self.one(&mut c, i, j, back, s)?;
            s.push(back);
            if back {
                self.full(&c, i, j - 1, s)?;
            } else {
                self.full(&c, i + 1, j, s)?;
            }
            s.pop();
        }
        Ok(())
    }

    fn merged(&mut self, it: &It) -> Result<(), String> {
        let n = self.want.len();
        let mut seen: HashSet<(usize, usize, u128)> = HashSet::new();
        let mut todo = vec![(it.clone(), 0, n, Vec::new())];
        while let Some((it, i, j, s)) = todo.pop() {
            self.stand(&it, i, j, &|| Self::sched(&s))?;
            if i == j {
                self.ended(&it, &s)?;
                continue;
            }
            if s.len() < 2 || j - i <= 2 {
                self.nths(&it, i, j, &s)?;
            }
            for back in [false, true] {
                let mut c = it.clone();
                self.one(&mut c, i, j, back, &s)?;
                let (ni, nj) = if back { (i, j - 1) } else { (i + 1, j) };
                if seen.insert((ni, nj, debug_hash(&c))) {
                    let mut s = s.clone();
                    s.push(back);
                    todo.push((c, ni, nj, s));
                }
            }
        }
        Ok(())
    }

    /// All schedules with at most one change of side, and the alternating ones.
    fn one_switch(&mut self, it: &It) -> Result<(), String> {
        let n = self.want.len();
        let stride = if n > HUGE { n / 3 } else { (n / 60).max(1) };
        let ends = if n > HUGE { 2 } else { 8 };
        for first_back in [false, true] {
            let mut base = it.clone();
            let (mut i, mut j) = (0, n);
            let mut s = Vec::new();
            while i < j {
                self.stand(&base, i, j, &|| Self::sched(&s))?;
                if s.len() % stride == 0 || j - i < ends || s.len() < ends {
                    let mut c = base.clone();
                    let (mut ci, mut cj) = (i, j);
                    let mut cs = s.clone();
                    while ci < cj {
                        self.one(&mut c, ci, cj, !first_back, &cs)?;
                        if first_back {
                            ci += 1
                        } else {
                            cj -= 1
                        }
                        cs.push(!first_back);
                        self.stand(&c, ci, cj, &|| Self::sched(&cs))?;
                    }
                    self.ended(&c, &cs)?;
                }
                self.one(&mut base, i, j, first_back, &s)?;
                if first_back {
                    j -= 1
                } else {
                    i += 1
                }
                s.push(first_back);
            }
            self.ended(&base, &s)?;
        }
        for period in [1, 2, 3] {
            let mut c = it.clone();
            let (mut i, mut j) = (0, n);
            let mut s = Vec::new();
            while i < j {
                let back = s.len() % (2 * period) >= period;
                self.one(&mut c, i, j, back, &s)?;
                if back {
                    j -= 1
                } else {
                    i += 1
                }
                s.push(back);
                self.stand(&c, i, j, &|| Self::sched(&s))?;
            }
            self.ended(&c, &s)?;
        }
        Ok(())
    }

    fn both_ends(&mut self, it: It) -> Result<(), String> {
        let n = self.want.len();
        if n <= FULL {
            self.full(&it, 0, n, &mut Vec::new())
        } else if n <= MERGED {
            self.merged(&it)
        } else {
            self.one_switch(&it)
        }
    }
}

// ------------------------------------------------------------- model sequences

fn dft(m: &Model, root: N, limit: usize, shown_depth: bool) -> Vec<Item> {
    let mut out = Vec::new();
    let mut st = vec![(root, 0usize, false)];
    while let Some((x, d, close)) = st.pop() {
        let depth = if shown_depth { d } else { usize::MAX };
        if close {
            out.push(Item { kind: ')', node: x as u32, depth });
            continue;
        }
        out.push(Item { kind: '(', node: x as u32, depth });
        st.push((x, d, true));
        if d < limit {
            st.extend(m.n(x).children.iter().rev().map(|&c| (c, d + 1, false)));
        }
    }
    out
}

fn bft(m: &Model, root: N) -> Vec<Item> {
    let mut out = Vec::new();
    let mut level = vec![root];
    let mut depth = 0;
    while !level.is_empty() {
        out.extend(level.iter().map(|&x| Item { kind: 'n', node: x as u32, depth }));
        level = level.iter().flat_map(|&x| m.n(x).children.iter().copied()).collect();
        depth += 1;
    }
    out
}

fn plain(v: impl Iterator<Item = N>) -> Vec<Item> {
    v.map(|x| Item { kind: 'n', node: x as u32, depth: usize::MAX }).collect()
}

fn height(m: &Model, root: N) -> usize {
    bft(m, root).last().map_or(0, |x| x.depth)
}

fn ev<I: Idt, P: Pay>(nm: &Names<'_, I>, e: DftEvent<Node<'_, I, P>>, depth: usize) -> Item {
    let x = match e {
        DftEvent::Open(n) => Item { kind: '(', node: nm.num(&n), depth },
        DftEvent::Close(n) => Item { kind: ')', node: nm.num(&n), depth },
    };
    // The same through `DftEvent::map`.
    let open = match e.map(|n| n.id()) {
        DftEvent::Open(id) => ('(', id),
        DftEvent::Close(id) => (')', id),
    };
    let id = match e {
        DftEvent::Open(n) | DftEvent::Close(n) => n.id(),
    };
    if open == (x.kind, id) { x } else { Item { kind: '?', ..x } }
}

fn nd<I: Idt, P: Pay>(nm: &Names<'_, I>, n: &Node<'_, I, P>, depth: usize) -> Item {
    Item { kind: 'n', node: nm.num(n), depth }
}

type NoPeek<It> = fn(&It) -> Option<Item>;

// ------------------------------------------------------------------ per state

/// Nodes to start from.
fn starts(m: &Model) -> Vec<N> {
    match pick_args(m) {
        Args::All => m.live().collect(),
        Args::Some(v) => v.into_iter().filter(|&x| m.alive(x)).collect(),
    }
}

pub fn depth_first<I: Idt, P: Pay>(f: &Forest<I, P>, ids: &[I], m: &Model) -> Result<u64, String> {
    let nm = Names::new(ids, m);
    let mut steps = 0;
    let none = usize::MAX;
    for x in starts(m) {
        let id = ids[x as usize];
        let node = f.node(id).ok_or("live node without handle")?;
        let want = dft(m, x, none, false);
        let label = format!("depth_first_traverse of #{x}");
        let mut w = Walk {
            label: &label,
            want: &want,
            key: |e| ev(&nm, e, none),
            peek: Some(|it: &treena::dynamic::DepthFirstTraverse<'_, I, P>| it.peek().map(|e| ev(&nm, e, none))),
            peek_back: Some(|it: &treena::dynamic::DepthFirstTraverse<'_, I, P>| {
                it.peek_back().map(|e| ev(&nm, e, none))
            }),
            no_alloc: false,
            steps: 0,
            _it: std::marker::PhantomData,
        };
        w.both_ends(node.depth_first_traverse())?;
        w.forward(f.depth_first_traverse(id))?;
        if want.len() <= HUGE {
            w.one_switch(&f.depth_first_traverse(id))?;
        }
        steps += w.steps;
        let h = height(m, x);
        let mut limits: Vec<Option<usize>> = if h <= 10 {
            (0..=h + 1).map(Some).collect()
        } else {
            [0, 1, 2, h / 2, h - 1, h, h + 1].into_iter().map(Some).collect()
        };
        limits.extend([None, Some(usize::MAX - 1), Some(usize::MAX)]);
        if ids.len() <= 5 || ids.len() > 26 {
            let far = [0xFF, 0x100, 0x101, 0xFFFF, 0x1_0000, 0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0001, 1 << 63];
            limits.extend(far.into_iter().filter(|l| *l > h + 1).map(Some));
        }
        if ids.len() > HUGE {
            limits = vec![Some(1), Some(h / 2), Some(h.saturating_sub(1)), Some(h), None];
        }
        for limit in limits {
            if ids.len() > HUGE {
                // Another call, for the watchdog.
                crumb_call(STATE_CHECK);
            }
            let want = dft(m, x, limit.unwrap_or(none), true);
            let label = format!("shallow_depth_first_traverse of #{x} to depth {limit:?}");
            let mut w = Walk {
                label: &label,
                want: &want,
                key: |(e, d)| ev(&nm, e, d),
                peek: Some(|it: &treena::dynamic::ShallowDepthFirstTraverse<'_, I, P>| {
                    it.peek().map(|(e, d)| ev(&nm, e, d))
                }),
                peek_back: Some(|it: &treena::dynamic::ShallowDepthFirstTraverse<'_, I, P>| {
                    it.peek_back().map(|(e, d)| ev(&nm, e, d))
                }),
                no_alloc: false,
                steps: 0,
                _it: std::marker::PhantomData,
            };
            let it = node.shallow_depth_first_traverse(limit);
            let md = it.max_depth();
            if md != limit && !(limit >= Some(usize::MAX - 1) && md.map_or(true, |d| d >= usize::MAX - 1)) {
                return Err(format!("{label}: max_depth() is {md:?}"));
            }
            if limit.map_or(false, |l| l > h) && limit != Some(h + 1) && (ids.len() > 8 || limit < Some(usize::MAX - 1)) {
                // Same sequence as without a limit.
                w.forward(it)?;
                w.one_switch(&node.shallow_depth_first_traverse(limit))?;
            } else {
                w.both_ends(it)?;
            }
            if want.len() <= HUGE {
                w.forward(f.shallow_depth_first_traverse(id, limit))?;
                w.one_switch(&f.shallow_depth_first_traverse(id, limit))?;
            }
            steps += w.steps;
        }
    }
    Ok(steps)
}

pub fn breadth_first<I: Idt, P: Pay>(f: &Forest<I, P>, ids: &[I], m: &Model) -> Result<u64, String> {
    let nm = Names::new(ids, m);
    let mut steps = 0;
    for x in starts(m) {
        let id = ids[x as usize];
        let node = f.node(id).ok_or("live node without handle")?;
        let want = bft(m, x);
        let label = format!("breadth_first_traverse of #{x}");
        let mut w = Walk {
            label: &label,
            want: &want,
            key: |(n, d)| nd(&nm, &n, d),
            peek: None::<NoPeek<treena::dynamic::BreadthFirstTraverse<'_, I, P>>>,
            peek_back: None::<NoPeek<treena::dynamic::BreadthFirstTraverse<'_, I, P>>>,
            no_alloc: true,
            steps: 0,
            _it: std::marker::PhantomData,
        };
        let a = alloc_count();
        let it = node.breadth_first_traverse();
        let it2 = f.breadth_first_traverse(id);
        if alloc_count() != a {
            return Err(format!("{label}: making the iterator allocates"));
        }
        if want.len() <= HUGE || want.len() * want.last().map_or(0, |x| x.depth) < 10_000_000 {
            w.forward(it)?;
            w.forward(it2)?;
        }
        steps += w.steps;
        let label = format!("allocating_breadth_first_traverse of #{x}");
        let mut w = Walk {
            label: &label,
            want: &want,
            key: |(n, d)| nd(&nm, &n, d),
            peek: Some(|it: &treena::dynamic::AllocatingBreadthFirstTraverse<'_, I, P>| {
                it.peek().map(|(n, d)| nd(&nm, &n, d))
            }),
            peek_back: None::<NoPeek<treena::dynamic::AllocatingBreadthFirstTraverse<'_, I, P>>>,
            no_alloc: false,
            steps: 0,
            _it: std::marker::PhantomData,
        };
        w.forward(node.allocating_breadth_first_traverse())?;
        w.forward(f.allocating_breadth_first_traverse(id))?;
        steps += w.steps;
    }
    Ok(steps)
}

pub fn lines<I: Idt, P: Pay>(f: &Forest<I, P>, ids: &[I], m: &Model) -> Result<u64, String> {
    let nm = Names::new(ids, m);
    let none = usize::MAX;
    let mut steps = 0;
    for x in starts(m) {
        let id = ids[x as usize];
        let node = f.node(id).ok_or("live node without handle")?;
        let up: Vec<N> = std::iter::successors(Some(x), |&y| m.n(y).parent).collect();
        let sibs: Vec<N> = m.n(x).parent.map_or(vec![x], |p| m.n(p).children.clone());
        let at = sibs.iter().position(|&s| s == x).expect("listed");
        let anc = [
            ("ancestors", plain(up[1..].iter().copied()), node.ancestors(), f.ancestors(id)),
            ("ancestors_or_self", plain(up.iter().copied()), node.ancestors_or_self(), f.ancestors_or_self(id)),
        ];
        for (name, want, a, b) in anc {
            let label = format!("{name} of #{x}");
            let mut w = Walk {
                label: &label,
                want: &want,
                key: |n| nd(&nm, &n, none),
                peek: Some(|it: &treena::dynamic::Ancestors<'_, I, P>| it.peek().map(|n| nd(&nm, &n, none))),
                peek_back: None::<NoPeek<treena::dynamic::Ancestors<'_, I, P>>>,
                no_alloc: false,
                steps: 0,
                _it: std::marker::PhantomData,
            };
            w.forward(a)?;
            w.forward(b)?;
            steps += w.steps;
        }
        let sib = [
            ("children", plain(m.n(x).children.iter().copied()), node.children(), f.children(id)),
            (
                "following_siblings",
                plain(sibs[at + 1..].iter().copied()),
                node.following_siblings(),
                f.following_siblings(id),
            ),
            (
                "following_siblings_or_self",
                plain(sibs[at..].iter().copied()),
                node.following_siblings_or_self(),
                f.following_siblings_or_self(id),
            ),
            (
                "preceding_siblings",
                plain(sibs[..at].iter().copied()),
                node.preceding_siblings(),
                f.preceding_siblings(id),
            ),
            (
                "preceding_siblings_or_self",
                plain(sibs[..=at].iter().copied()),
                node.preceding_siblings_or_self(),
                f.preceding_siblings_or_self(id),
            ),
        ];
        for (name, want, a, b) in sib {
            let label = format!("{name} of #{x}");
            let mut w = Walk {
                label: &label,
                want: &want,
                key: |n| nd(&nm, &n, none),
                peek: Some(|it: &treena::dynamic::Siblings<'_, I, P>| it.peek().map(|n| nd(&nm, &n, none))),
                peek_back: Some(|it: &treena::dynamic::Siblings<'_, I, P>| {
                    it.peek_back().map(|n| nd(&nm, &n, none))
                }),
                no_alloc: false,
                steps: 0,
                _it: std::marker::PhantomData,
            };
            w.both_ends(a)?;
            w.forward(b.clone())?;
            w.one_switch(&b)?;
            steps += w.steps;
        }
    }
    Ok(steps)
}

pub fn of<I: Idt, P: Pay>(prop: &str, f: &Forest<I, P>, ids: &[I], m: &Model) -> Result<u64, String> {
    match prop {
        "C08" => depth_first(f, ids, m),
        "C09" => breadth_first(f, ids, m),
        _ => lines(f, ids, m),
    }
}

pub fn spec<I: Idt, P: Pay>(prop: &str, name: &str, probes: usize) -> Spec<I, P> {
    let mut s: Spec<I, P> = Spec::new(name, probes);
    s.relevant = Box::new(|_, _, _| false);
    let p = prop.to_owned();
    s.state_check = Some(Box::new(move |_, w, st| {
        let n = of(&p, &w.forest, &w.ids, &w.model)?;
        st.count("iterator steps", n);
        st.transitions += n;
        Ok(())
    }));
    s
}

pub fn check(prop: &str) {
    let t = run().thorough();
    for n in if t { vec![3, 5, 6] } else if prop == "C08" { vec![3, 5] } else { vec![3, 5, 6] } {
        let mut s: Spec<super::structural::Id, Val> = spec(prop, &format!("closure-{n}"), n + 6);
        s.creations = n;
        s.bounds = format!(
            "every forest state reachable by any history with at most {n} node creations; every traversal from every \
             live node; all interleavings of front and back steps (sequences to {FULL} one by one, to {MERGED} with equal \
             iterator states merged, beyond that at most one change of side and periodic alternation)"
        );
        let st = explore(&s);
        record(&s.name, &s.bounds, st);
        if violated() {
            return;
        }
    }
    let hi = match (t, prop) {
        (true, "C08") => 9,
        (true, _) => 10,
        (false, "C08") => 8,
        (false, _) => 9,
    };
    let mut s: Spec<super::structural::Id, Val> = spec(prop, "shapes", 32);
    s.seeds = shape_seeds(6, hi, &[Order::Level], true);
    s.seeds.extend(shape_seeds(6, 7, &[Order::Reverse], false));
    s.depth = 0;
    s.bounds = format!("every tree shape of 6 to {hi} nodes and every forest shape of 6 to 7, every start node and limit, as above");
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    if violated() {
        return;
    }
    let sizes: &[usize] = if t { &[12, 17, 24, 33, 64, 129, 300, 700] } else { &[12, 17, 33, 64, 150, 300] };
    let mut s: Spec<super::structural::Id, Val> = spec(prop, "large", 2400);
    s.seeds = big_seeds(sizes, &[Order::Pre, Order::Reverse]);
    s.seeds.extend(scarred_seeds(&[13, 26, 40, 70]));
    s.seeds.extend(churn_seeds(&[70, 1100]));
    s.depth = 0;
    s.bounds = format!("parametric shapes {KINDS:?} of sizes {sizes:?} in two build orders, scarred ones, and ones in which nodes came and went; beyond 26 nodes selected start nodes");
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    if violated() || !(t || run().variant == "plain") {
        return;
    }
    let n = 66_000;
    let kinds: &[&str] = if t { &KINDS } else { &["chain", "star", "binary", "broom"] };
    let mut s: Spec<super::structural::Id, Val> = spec(prop, "huge", n + 20);
    s.seeds = huge_seeds(n, kinds);
    s.depth = 0;
    s.bounds = format!(
        "parametric shapes {kinds:?} of {n} nodes, selected start nodes; schedules from one end, with one change of side at six places, and \
         periodic ones; the non-allocating breadth-first traversal only where items times levels stay below 10^7"
    );
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    if prop == "C09" && run().variant == "plain" && !violated() {
        deepest();
    }
}

/// The breadth-first traversal that keeps no list, on trees deep enough to overflow 16-bit depths; it takes time quadratic in the depth.
fn deepest_case(c: &[u64], st: &mut Stats) -> Result<(), String> {
    let depth = c[1] as usize;
    let mut f: Forest<super::structural::Id, Val> = Forest::new();
    // From below, so that building takes linear time; one node of the last levels has two more children.
    let mut top = f.create_root(Val::make(0));
    let mut want = vec![top];
    for i in 1..depth {
        let r = f.create_root(Val::make(i as u32));
        f.insert(top, InsertAs::LastChildOf(r)).map_err(|e| e.to_string())?;
        if i == c[2] as usize {
            want.push(f.create_insert(Val::make(7), InsertAs::FirstChildOf(r)));
        }
        want.push(r);
        top = r;
    }
    want.reverse();
    let mut n = 0;
    let mut level = usize::MAX;
    for (k, (node, d)) in f.breadth_first_traverse(top).take(want.len() + 2).enumerate() {
        if k % 256 == 0 {
            crumb_call(CUSTOM);
        }
        let Some(&w) = want.get(k) else { return Err(format!("an item too many, at depth {d}")) };
        // The list is in preorder: the extra leaf comes right before the rest of its level.
        level = level.wrapping_add(1);
        if c[2] > 0 && k == depth - c[2] as usize + 1 {
            level -= 1;
        }
        if node.id() != w || d != level {
            return Err(format!("item {k}: {:?} at depth {d}; must be {w:?} at depth {level}", node.id()));
        }
        n = k + 1;
    }
    st.transitions += n as u64;
    if n != want.len() {
        return Err(format!("the traversal ends after {n} of {} nodes", want.len()));
    }
    Ok(())
}

pub fn play(words: &[u64]) -> Result<(), String> {
    deepest_case(words, &mut Stats::default())
}

fn deepest() {
    let cases = [[6000, 65_600, 0], [6000, 65_600, 3], [6000, 65_600, 65_000]];
    let st = run_cases(
        cases.len(),
        |i| cases[i].to_vec(),
        |c, st| deepest_case(c, st),
        |c| format!("a chain of {} nodes, an extra leaf below node {} from below", c[1], c[2]),
    );
    record("deepest", "the non-allocating breadth-first traversal of three chains of 65600 nodes, every item", st);
}
