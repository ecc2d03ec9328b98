//! Forests to start from: all small shapes, and parametric larger ones.

use crate::model::*;
use crate::ops::*;

/// All sequences of ordered trees with `n` nodes in total, each as the list of the nodes' depths
/// in preorder.
pub fn all_forests(n: usize) -> Vec<Vec<u8>> {
    fn go(n: usize, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        let max = cur.last().map_or(0, |d| d + 1);
        for d in 0..=max {
            cur.push(d);
            go(n, cur, out);
            cur.pop();
        }
    }
    let mut out = Vec::new();
    go(n, &mut Vec::new(), &mut out);
    out
}

/// All single ordered trees with `n` nodes.
pub fn all_trees(n: usize) -> Vec<Vec<u8>> {
    all_forests(n).into_iter().filter(|d| d.iter().filter(|x| **x == 0).count() == 1).collect()
}

/// Parent of each node of a depth sequence.
pub fn parents(depths: &[u8]) -> Vec<Option<usize>> {
    let mut last: Vec<usize> = Vec::new();
    let mut out = Vec::new();
    for (i, &d) in depths.iter().enumerate() {
        last.truncate(d as usize);
        out.push(last.last().copied());
        last.push(i);
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Order {
    /// Nodes created in preorder, each as the last child.
    Pre,
    /// Nodes created in reverse preorder as roots, put together by first-child insertions.
    Reverse,
    /// Level by level, siblings from right to left.
    Level,
}

/// A history that builds the forest given by parents (in preorder, child order = index order).
pub fn build(par: &[Option<usize>], order: Order) -> Vec<Op> {
    let n = par.len();
    let mut ops = Vec::new();
    let f = Via::Forest;
    match order {
        Order::Pre => {
            for p in par {
                ops.push(match p {
                    None => Op::CreateRoot,
                    Some(p) => Op::Create { via: f, place: Place::Last, anchor: *p as N },
                });
            }
        }
        Order::Reverse => {
            // Node i of the shape gets number n-1-i.
            let num = |i: usize| (n - 1 - i) as N;
            for _ in 0..n {
                ops.push(Op::CreateRoot);
            }
            for i in (0..n).rev() {
                if let Some(p) = par[i] {
                    ops.push(Op::Insert {
                        via: IVia::Insert,
                        node: num(i),
                        place: Place::First,
                        anchor: num(p),
                    });
                }
            }
        }
        Order::Level => {
            let mut level: Vec<usize> = (0..n).filter(|&i| par[i].is_none()).collect();
            let mut num = vec![0 as N; n];
            let mut next = 0 as N;
            while !level.is_empty() {
                let mut below = Vec::new();
                for &i in level.iter().rev() {
                    num[i] = next;
                    next += 1;
                    // The nearest following sibling is already there.
                    let sib = (i + 1..n).find(|&j| par[j] == par[i]);
                    ops.push(match (par[i], sib) {
                        (None, _) => Op::CreateRoot,
                        (Some(p), None) => Op::Create { via: f, place: Place::Last, anchor: num[p] },
                        (Some(_), Some(s)) => Op::Create { via: f, place: Place::Prev, anchor: num[s] },
                    });
                }
                for &i in &level {
                    below.extend((0..n).filter(|&j| par[j] == Some(i)));
                }
                level = below;
            }
        }
    }
    ops
}

/// Larger shapes as parent lists.
pub fn big(kind: &str, n: usize) -> Vec<Option<usize>> {
    let mut p: Vec<Option<usize>> = vec![None];
    match kind {
        "chain" => p.extend((1..n).map(|i| Some(i - 1))),
        "star" => p.extend((1..n).map(|_| Some(0))),
        // A spine with a leaf before and after each spine child.
        "caterpillar" => {
            let mut spine = 0;
            while p.len() + 3 <= n {
                p.push(Some(spine));
                p.push(Some(spine));
                let s = p.len() - 1;
                p.push(Some(spine));
                spine = s;
            }
        }
        "binary" => p.extend((1..n).map(|i| Some((i - 1) / 2))),
        "ternary" => p.extend((1..n).map(|i| Some((i - 1) / 3))),
        // A star whose every child is a chain of three.
        "comb" => {
            while p.len() + 3 <= n {
                p.push(Some(0));
                let a = p.len() - 1;
                p.push(Some(a));
                p.push(Some(a + 1));
            }
        }
        // Several trees next to each other.
        "grove" => p.extend((1..n).map(|i| if i % 5 == 0 { None } else { Some(i - 1 - (i % 5) / 3) })),
        // A deep chain ending in a wide fan, then leaves back up.
        "broom" => {
            let h = n / 2;
            p.extend((1..h).map(|i| Some(i - 1)));
            while p.len() < n {
                p.push(Some(h - 1));
            }
        }
        _ => unreachable!(),
    }
    // Renumber in preorder, child order by index.
    let n = p.len();
    let mut kids: Vec<Vec<usize>> = vec![Vec::new(); n];
    for (i, q) in p.iter().enumerate() {
        if let Some(q) = q {
            kids[*q].push(i);
        }
    }
    let mut out = Vec::new();
    let mut st: Vec<(usize, Option<usize>)> =
        (0..n).rev().filter(|&i| p[i].is_none()).map(|i| (i, None)).collect();
    while let Some((x, par)) = st.pop() {
        out.push(par);
        let me = out.len() - 1;
        for &k in kids[x].iter().rev() {
            st.push((k, Some(me)));
        }
    }
    out
}

/// Preorder depths of such a shape.
pub fn big_depths(kind: &str, n: usize) -> Vec<usize> {
    let mut out: Vec<usize> = Vec::new();
    for p in big(kind, n) {
        let d = p.map_or(0, |p| out[p] + 1);
        out.push(d);
    }
    out
}

pub const KINDS: [&str; 8] =
    ["chain", "star", "caterpillar", "binary", "ternary", "comb", "grove", "broom"];

/// Histories building every forest of up to `max` nodes (from `min` on), in all given orders.
pub fn shape_seeds(min: usize, max: usize, orders: &[Order], trees_only: bool) -> Vec<Vec<Op>> {
    let mut out = Vec::new();
    for n in min..=max {
        let shapes = if trees_only { all_trees(n) } else { all_forests(n) };
        for s in shapes {
            let p = parents(&s);
            for &o in orders {
                out.push(build(&p, o));
            }
        }
    }
    out
}

pub fn big_seeds(sizes: &[usize], orders: &[Order]) -> Vec<Vec<Op>> {
    let mut out = Vec::new();
    for &n in sizes {
        for k in KINDS {
            for &o in orders {
                out.push(build(&big(k, n), o));
            }
        }
    }
    out
}

/// Histories in which many nodes die, so that live ids have gaps: builds a shape, removes some
/// subtrees, moves the last tree's nodes, creates again.
pub fn scarred_seeds(sizes: &[usize]) -> Vec<Vec<Op>> {
    let mut out = Vec::new();
    for &n in sizes {
        for k in KINDS {
            let par = big(k, n);
            let n = par.len();
            let mut h = build(&par, Order::Pre);
            // Remove leaves at every third index, from the end.
            let mut m = Model::default();
            for p in &par {
                let x = m.add_root(0);
                if let Some(p) = p {
                    m.attach(x, Place::Last, *p as N);
                }
            }
            for i in (1..n as N).rev() {
                if i % 3 == 0 && m.alive(i) && m.n(i).children.is_empty() {
                    h.push(Op::Remove { form: Form::Plain, via: Via::Forest, node: i });
                    m.remove(i);
                }
            }
            let mid = m.live().filter(|&x| m.n(x).parent.is_some()).nth(m.live_count() / 2);
            if let Some(mid) = mid {
                h.push(Op::Detach { via: Via::Forest, node: mid });
                h.push(Op::Create { via: Via::Forest, place: Place::First, anchor: mid });
                h.push(Op::Insert { via: IVia::Insert, node: mid, place: Place::First, anchor: 0 });
                h.push(Op::Create { via: Via::Forest, place: Place::Next, anchor: mid });
            }
            out.push(h);
        }
    }
    out
}

/// Larger forests still, put together from below, so that building them takes linear time.
pub fn huge_seeds(n: usize, kinds: &[&str]) -> Vec<Vec<Op>> {
    kinds.iter().map(|k| build(&big(k, n), Order::Reverse)).collect()
}

/// Histories in which many nodes come and go, leaving few.
pub fn churn_seeds(sizes: &[usize]) -> Vec<Vec<Op>> {
    let f = Via::Forest;
    let mut out = Vec::new();
    let last = |a| Op::Create { via: f, place: Place::Last, anchor: a };
    let gone = |node| Op::Remove { form: Form::Plain, via: f, node };
    for &n in sizes {
        let n = n as N;
        // One at a time, under a root that stays.
        let mut h = vec![Op::CreateRoot, last(0)];
        for i in 0..n {
            h.push(last(0));
            h.push(gone(i + 2));
        }
        h.extend([last(1), last(0)]);
        out.push(h);
        // The same at the top level, nothing stays but the last.
        let mut h = Vec::new();
        for i in 0..n {
            h.extend([Op::CreateRoot, gone(i)]);
        }
        h.extend([Op::CreateRoot, last(n)]);
        out.push(h);
        // All there at a time, then all but some leave, in both orders, and all at once.
        for way in 0..3 {
            let mut h = vec![Op::CreateRoot, last(0), last(0)];
            for _ in 0..n {
                h.push(last(1));
            }
            let all = 3..n + 3;
            match way {
                0 => h.extend(all.map(gone)),
                1 => h.extend(all.rev().map(gone)),
                _ => h.push(gone(1)),
            }
            h.extend([last(2), last(0)]);
            out.push(h);
        }
    }
    out
}
