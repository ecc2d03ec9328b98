//! C16: user code that panics while a tree is cloned or built, at every point it is called.

use super::tracked::{window, Tracked};
use super::*;
use treena::dynamic::Forest;

type Id = structural::Id;

#[derive(Clone, Copy, Debug)]
enum Fault {
    /// The clone of the payload number k panics.
    Clone(u64),
    /// Call number k of the mapping callback panics.
    Map(u64),
}

/// Clones with a fault. `None`: the panic did not come up.
fn run_faulty(
    ctx: &Ctx<Id, Tracked>,
    w: &mut World<Id, Tracked>,
    twin: &Forest<Id, Tracked>,
    op: Op,
    fault: Fault,
) -> Result<Option<Panicked>, String> {
    let (fuse, at) = match fault {
        Fault::Clone(k) => (k, u64::MAX),
        Fault::Map(k) => (u64::MAX, k),
    };
    let mut calls = 0;
    let cb = |_: Id, _: Id| {
        if calls == at {
            user_panic()
        }
        calls += 1;
    };
    let f = &mut w.forest;
    let ids = &w.ids;
    let (r, _) = window(fuse, || {
        guard(|| match op {
            Op::CloneLocal { map, node } => {
                let n = ids[node as usize];
                let _ = if map { f.clone_local_tree_with_id_mapping(n, cb) } else { f.clone_local_tree(n) };
            }
            Op::CloneForeign { map, node } | Op::CloneTwin { map, node } => {
                let src = if matches!(op, Op::CloneTwin { .. }) {
                    twin.node(ids[node as usize])
                } else {
                    ctx.donor.forest.node(ctx.donor.ids[node as usize])
                };
                if let Some(src) = src {
                    let _ = if map { f.clone_foreign_tree_with_id_mapping(src, cb) } else { f.clone_foreign_tree(src) };
                }
            }
            _ => {}
        })
    });
    match r {
        Ok(()) => Ok(None),
        Err(p) => Ok(Some(p)),
    }
}

fn faults(
    ctx: &Ctx<Id, Tracked>,
    w: &World<Id, Tracked>,
    op: Op,
    ex: &Expect,
    follow: usize,
    st: &mut Stats,
) -> Result<(), String> {
    let n = ex.new_nodes as u64;
    let map = matches!(
        op,
        Op::CloneLocal { map: true, .. } | Op::CloneForeign { map: true, .. } | Op::CloneTwin { map: true, .. }
    );
    let mut all: Vec<Fault> = (0..n).map(Fault::Clone).collect();
    if map {
        all = (0..n).flat_map(|k| [Fault::Clone(k), Fault::Map(k)]).collect();
    }
    for fault in all {
        let at = match fault {
            Fault::Clone(k) => format!("when the clone of payload {k} panics"),
            Fault::Map(k) => format!("when call {k} of the mapping callback panics"),
        };
        let mut x = w.clone();
        let twin = w.forest.clone();
        match run_faulty(ctx, &mut x, &twin, op, fault)? {
            None => {
                st.count("panic points that do not come up (another property)", 1);
                continue;
            }
            Some(p) if !p.user => return Err(format!("{at}: the call panics by itself: {}", p.msg)),
            Some(_) => {}
        }
        st.count("panics injected", 1);
        let say = |e: String| format!("{at}: {e}");
        // The source.
        if matches!(op, Op::CloneTwin { .. }) {
            build::check_world(ctx, &twin, &w.ids, &w.model).map_err(|e| say(format!("the source forest: {e}")))?;
        }
        build::check_world(ctx, &ctx.donor.forest, &ctx.donor.ids, &ctx.donor.model)
            .map_err(|e| say(format!("the source forest: {e}")))?;
        build::check_partial(ctx, &mut x, 10_000, follow, st).map_err(say)?;
        // Once more on top of the partial tree, and then undisturbed.
        if follow > 0 {
            for fault in [fault, Fault::Clone(0)] {
                let mut y = World { forest: x.forest.clone(), ids: x.ids.clone(), model: x.model.clone() };
                if run_faulty(ctx, &mut y, &twin, op, fault)?.is_some() {
                    build::check_partial(ctx, &mut y, 20_000, 0, st)
                        .map_err(|e| format!("{at}, and once more: {e}"))?;
                }
            }
        }
    }
    Ok(())
}

fn is_clone(op: Op) -> bool {
    matches!(op, Op::CloneLocal { .. } | Op::CloneForeign { .. } | Op::CloneTwin { .. })
}

pub fn spec(name: &str, probes: usize, follow: usize) -> Spec<Id, Tracked> {
    let mut s: Spec<Id, Tracked> = Spec::new(name, probes);
    s.relevant = Box::new(|_, _, _| false);
    s.kinds = Box::new(is_clone);
    s.judged = Box::new(|_, ex| ex.valid());
    s.step_check = Some(Box::new(move |ctx, w, op, ex, st| faults(ctx, w, op, ex, follow, st)));
    s
}

pub fn check(_prop: &str) {
    let t = run().thorough();
    let plan: &[(usize, usize)] = if t { &[(3, 2), (5, 1), (6, 0)] } else { &[(3, 2), (4, 1), (5, 0)] };
    for &(n, follow) in plan {
        let mut s = spec(&format!("closure-{n}-follow-{follow}"), n + 24, follow);
        s.creations = n;
        s.extra = 6;
        s.bounds = format!(
            "all histories of at most {n} creations; every cloning call with the panic at every payload clone and every mapping \
             call; then {} and a second panicking clone",
            ["nothing", "every further basic call", "every two further basic calls"][follow]
        );
        let st = explore(&s);
        record(&s.name, &s.bounds, st);
        if violated() {
            return;
        }
    }
    for (lo, hi, follow) in if t { [(2, 7, 1), (8, 9, 0)] } else { [(2, 6, 1), (7, 8, 0)] } {
        let mut s = spec(&format!("shapes-{hi}"), 40, follow);
        s.seeds = shapes::shape_seeds(lo, hi, &[shapes::Order::Reverse], true);
        s.creations = hi;
        s.depth = 1;
        s.bounds = format!("every tree shape of {lo} to {hi} nodes, every clone with every panic point");
        let st = explore(&s);
        record(&s.name, &s.bounds, st);
        if violated() {
            return;
        }
    }
    let mut s = spec("large", 1200, 0);
    s.seeds = shapes::big_seeds(&[17, 40, 100], &[shapes::Order::Pre]);
    s.seeds.extend(shapes::scarred_seeds(&[26]));
    s.seeds.extend(shapes::churn_seeds(&[70, 300]));
    s.creations = 120;
    s.depth = 1;
    s.bounds = "parametric shapes of 17 to 100 nodes, every clone of the selected nodes with every panic point".into();
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    let probes = build::ctx(40);
    let max = if t { 8 } else { 7 };
    let cases = build::nest_cases(max, true);
    let st = run_cases(
        cases.len(),
        |i| {
            let mut c = vec![1001];
            c.extend(&cases[i]);
            c
        },
        |c, st| build::nest(&probes, &c[1..], st),
        |c| build::nest_text(&c[1..]),
    );
    record(
        &format!("nest-panics-{max}"),
        &format!("every nested builder program for trees of up to {max} nodes on three base forests, with a panic at every point of its closures, passed on or caught at the innermost tree"),
        st,
    );
}
