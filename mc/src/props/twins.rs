//! C18: a forest and its clone, side by side. The original is always built without cloning.

use crate::model::N;
use super::handles::equal_worlds;
use super::*;
use crate::shapes::*;
use treena::dynamic::{DftEvent, Forest};

type Id = structural::Id;
type W = World<Id, Val>;

/// The forest of the history at hand, made without `Forest::clone`.
fn original(ctx: &Ctx<Id, Val>) -> Option<W> {
    let h = history();
    if h.len() > 100 {
        return rush_through(ctx, &h);
    }
    let mut w = World::empty();
    for op in h {
        let ex = expect(ctx, &w.model, op);
        let ac = apply_real(ctx, &mut w, op)?;
        settle(ctx, &mut w, op, &ex, &ac).ok()?;
    }
    Some(w)
}

fn twin(w: &W) -> W {
    World { forest: w.forest.clone(), ids: w.ids.clone(), model: w.model.clone() }
}

/// All iterators and prints of every live node.
fn answers(w: &W) -> Vec<(Id, Vec<Id>, String)> {
    let f = &w.forest;
    let args: Vec<N> = match pick_args(&w.model) {
        Args::All => w.model.live().collect(),
        Args::Some(v) => v.into_iter().filter(|x| w.model.alive(*x)).collect(),
    };
    let mut out = Vec::new();
    for x in args {
        let id = w.ids[x as usize];
        let n = match f.node(id) {
            Some(n) => n,
            None => {
                out.push((id, Vec::new(), "dead".into()));
                continue;
            }
        };
        let mut v: Vec<Id> = Vec::new();
        let e = |e: DftEvent<treena::dynamic::Node<'_, Id, Val>>| match e {
            DftEvent::Open(n) | DftEvent::Close(n) => n.id(),
        };
        v.extend(n.depth_first_traverse().map(e));
        v.extend(n.depth_first_traverse().rev().map(e));
        v.extend(n.shallow_depth_first_traverse(Some(1)).map(|x| e(x.0)));
        v.extend(n.breadth_first_traverse().map(|x| x.0.id()));
        v.extend(n.allocating_breadth_first_traverse().map(|x| x.0.id()));
        v.extend(n.ancestors_or_self().map(|x| x.id()));
        v.extend(n.ancestors().map(|x| x.id()));
        v.extend(n.children().map(|x| x.id()));
        v.extend(n.following_siblings_or_self().map(|x| x.id()));
        v.extend(n.following_siblings().map(|x| x.id()));
        v.extend(n.preceding_siblings_or_self().rev().map(|x| x.id()));
        v.extend(n.preceding_siblings().map(|x| x.id()));
        out.push((id, v, format!("{}\n{:?}", n.debug_print(), n.debug_print())));
    }
    out
}

fn same(ctx: &Ctx<Id, Val>, a: &W, b: &W) -> Result<(), String> {
    equal_worlds(ctx, a, b)?;
    if answers(a) != answers(b) {
        return Err("an iterator or a print differs".into());
    }
    Ok(())
}

/// What a forest says of all ids, to see later whether it still does.
fn unchanged(ctx: &Ctx<Id, Val>, w: &W, what: &str) -> Result<(), String> {
    let mut bad = Vec::new();
    compare(ctx, &w.forest, &w.ids, &w.model, &mut bad);
    match bad.first() {
        None => Ok(()),
        Some(b) => Err(format!("{what} changed: {}", b.what)),
    }
}

fn state(ctx: &Ctx<Id, Val>, pairs: bool, st: &mut Stats) -> Result<(), String> {
    let o = match original(ctx) {
        Some(o) => o,
        None => return Ok(()),
    };
    let c = twin(&o);
    same(ctx, &o, &c).map_err(|e| format!("a forest and its clone: {e}"))?;
    same(ctx, &o, &twin(&c)).map_err(|e| format!("a forest and the clone of its clone: {e}"))?;
    // Onto a forest that has been in use.
    let mut d = World { forest: ctx.donor.forest.clone(), ids: o.ids.clone(), model: o.model.clone() };
    d.forest.clone_from(&o.forest);
    same(ctx, &o, &d).map_err(|e| format!("a forest and what clone_from makes of another: {e}"))?;
    let mut d = World { forest: Forest::new(), ids: o.ids.clone(), model: o.model.clone() };
    d.forest.clone_from(&o.forest);
    same(ctx, &o, &d).map_err(|e| format!("a forest and what clone_from makes of an empty one: {e}"))?;
    // Trees copied from the one into the other.
    let args: Vec<N> = match pick_args(&o.model) {
        Args::All => o.model.live().collect(),
        Args::Some(v) => v.into_iter().filter(|x| o.model.alive(*x)).collect(),
    };
    for x in args {
        let id = o.ids[x as usize];
        let mut a = twin(&o);
        let r = guard(|| o.forest.node(id).map(|n| a.forest.clone_foreign_tree(n)));
        unchanged(ctx, &o, &format!("copying the tree of #{x} into the clone: the original"))?;
        let mut b = twin(&o);
        let q = guard(|| c.forest.node(id).map(|n| b.forest.clone_foreign_tree(n)));
        unchanged(ctx, &c, &format!("copying the tree of #{x} of the clone into another clone: the source"))?;
        if r != q {
            return Err(format!("copying the tree of #{x} from the original gives {r:?}, from the clone {q:?}"));
        }
        same(ctx, &a, &b).map_err(|e| format!("the tree of #{x} copied from the original and from the clone: {e}"))?;
    }
    drop(c);
    unchanged(ctx, &o, "dropping the clone: the original")?;
    if !pairs {
        return Ok(());
    }
    // One call on the one, then one on the other.
    let mut ops = Vec::new();
    enumerate(ctx, &o.model, &Args::All, 5, &mut ops);
    let all = ops.clone();
    for &op1 in all.iter().filter(|o| basic_kind(**o)) {
        let ex1 = expect(ctx, &o.model, op1);
        if !basic(op1, &ex1) {
            continue;
        }
        for on_clone in [true, false] {
            let mut first = if on_clone { twin(&o) } else { original(ctx).ok_or("[harness] replay")? };
            let second = if on_clone { None } else { Some(twin(&first)) };
            if apply_real(ctx, &mut first, op1).is_none() {
                continue;
            }
            let second = second.as_ref().unwrap_or(&o);
            unchanged(
                ctx,
                second,
                &format!("`{}` on {}: the other", op1.text(), if on_clone { "the clone" } else { "the original" }),
            )?;
            for &op2 in all.iter().filter(|o| basic_kind(**o)) {
                // The call on the other, with `first` still there.
                let mut y = twin(second);
                let mut z = twin(&o);
                let (ry, rz) = match (apply_real(ctx, &mut y, op2), apply_real(ctx, &mut z, op2)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => continue,
                };
                st.count("pairs of calls on both", 1);
                if (ry.outcome, ry.new_root, &ry.hook) != (rz.outcome, rz.new_root, &rz.hook) {
                    return Err(format!(
                        "after `{}` on one of two clones, `{}` on the other ends with {} {:?} {:?}, otherwise with {} {:?} {:?}",
                        op1.text(),
                        op2.text(),
                        mask_text(ry.outcome),
                        ry.new_root,
                        ry.hook,
                        mask_text(rz.outcome),
                        rz.new_root,
                        rz.hook
                    ));
                }
                equal_worlds(ctx, &y, &z).map_err(|e| {
                    format!("after `{}` on one of two clones, `{}` on the other does not do what it does otherwise: {e}", op1.text(), op2.text())
                })?;
            }
        }
    }
    Ok(())
}

fn call(ctx: &Ctx<Id, Val>, op: Op, st: &mut Stats) -> Result<(), String> {
    let (o, mut p) = match (original(ctx), original(ctx)) {
        (Some(o), Some(p)) => (o, p),
        _ => return Ok(()),
    };
    // `o` stays, its clone is worked on; `p` is worked on, its clone stays.
    let mut c = twin(&o);
    let s = twin(&p);
    let (rc, rp) = match (apply_real(ctx, &mut c, op), apply_real(ctx, &mut p, op)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    st.count("calls on a forest and its clone", 1);
    unchanged(ctx, &o, &format!("`{}` on the clone: the original", op.text()))?;
    unchanged(ctx, &s, &format!("`{}` on the original: the clone", op.text()))?;
    if rc.outcome != rp.outcome || rc.new_root != rp.new_root || rc.hook != rp.hook || rc.mapping != rp.mapping {
        return Err(format!(
            "`{}` on the clone ends with {}{}, new id {:?}, hook {:?}, mapping {:?}; on the original with {}{}, {:?}, {:?}, {:?}",
            op.text(),
            mask_text(rc.outcome),
            rc.msg,
            rc.new_root,
            rc.hook,
            rc.mapping,
            mask_text(rp.outcome),
            rp.msg,
            rp.new_root,
            rp.hook,
            rp.mapping
        ));
    }
    equal_worlds(ctx, &c, &p).map_err(|e| format!("after `{}` on a clone and on the original: {e}", op.text()))
}

pub fn spec(name: &str, probes: usize, pairs: bool) -> Spec<Id, Val> {
    let mut s: Spec<Id, Val> = Spec::new(name, probes);
    s.relevant = Box::new(|_, _, _| false);
    s.kinds = Box::new(|_| true);
    s.divergence_is_violation = true;
    s.state_check = Some(Box::new(move |ctx, w, st| state(ctx, pairs && w.model.nodes.len() <= 6, st)));
    s.step_check = Some(Box::new(|ctx, _, op, _, st| call(ctx, op, st)));
    s
}

pub fn check(_prop: &str) {
    let t = run().thorough();
    let plan: &[(usize, bool)] = if t { &[(3, true), (4, true), (5, false)] } else { &[(3, true), (4, false), (5, false)] };
    for &(n, pairs) in plan {
        let mut s = spec(&format!("closure-{n}"), n + 14, pairs);
        s.creations = n;
        s.extra = 2;
        s.bounds = format!(
            "all histories of at most {n} creations: the original, built without cloning, against its clone, in every query and under \
             every call with every argument{}",
            if pairs { "; every basic call on the one followed by every basic call on the other" } else { "" }
        );
        if n >= 5 && !t {
            s.judged = Box::new(|_, ex| ex.allowed & PANIC == 0);
            s.bounds.push_str(" that is not documented to panic");
        }
        let st = explore(&s);
        record(&s.name, &s.bounds, st);
        if violated() {
            return;
        }
    }
    let mut s = spec("shapes", 32, false);
    let hi = if t { 8 } else { 7 };
    s.seeds = shape_seeds(6, hi, &[Order::Reverse], false);
    s.creations = 1;
    s.depth = 1;
    s.judged = Box::new(|_, ex| ex.allowed & PANIC == 0);
    s.bounds = format!("every forest shape of 6 to {hi} nodes: every query, and every call that is not documented to panic");
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    if violated() {
        return;
    }
    let mut s = spec("large", 2400, false);
    s.seeds = big_seeds(&[17, 64, 257, 1030], &[Order::Pre]);
    s.seeds.extend(scarred_seeds(&[13, 26, 40, 70]));
    s.seeds.extend(churn_seeds(&[70, 1100]));
    s.creations = 1100;
    s.depth = 1;
    s.kinds = Box::new(|o| basic_kind(o) && !matches!(o, Op::Insert { .. }));
    s.judged = Box::new(|_, ex| ex.allowed & PANIC == 0);
    s.bounds = "parametric shapes of 13 to 1030 nodes, selected nodes: every query; creations, detachments, removals and clones".into();
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
}
