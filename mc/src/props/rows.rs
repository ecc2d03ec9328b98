//! Calls in long rows: every way to return to the same live forest in a few calls is gone round
//! again and again, with every call judged, for what depends on how much a forest has been through.

use crate::explore::*;
use crate::model::*;
use crate::ops::*;
use crate::report::*;
use crate::shapes::*;
use super::run_cases;

/// First word of such a case.
const WORD: u64 = 7000;
/// Ids there are to ask for.
pub const IDS: usize = 1200;

/// The call with the numbers of nodes made in the row moved by `by`.
fn shifted(op: Op, base: N, by: N) -> Op {
    let s = |n: N| if n >= base && n < NEXT { n + by } else { n };
    match op {
        Op::CreateRoot | Op::CloneForeign { .. } => op,
        Op::Create { via, place, anchor } => Op::Create { via, place, anchor: s(anchor) },
        Op::Insert { via, node, place, anchor } => Op::Insert { via, node: s(node), place, anchor: s(anchor) },
        Op::Detach { via, node } => Op::Detach { via, node: s(node) },
        Op::DetachSingle { via, node } => Op::DetachSingle { via, node: s(node) },
        Op::Remove { form, via, node } => Op::Remove { form, via, node: s(node) },
        Op::RemovePanic { via, node, k } => Op::RemovePanic { via, node: s(node), k },
        Op::CloneLocal { map, node } => Op::CloneLocal { map, node: s(node) },
        Op::CloneTwin { map, node } => Op::CloneTwin { map, node: s(node) },
    }
}

/// Whether the live part of the forest is that of `a`, of which `b` is a later state.
fn same_live(a: &Model, b: &Model) -> bool {
    b.nodes[a.nodes.len()..].iter().all(Option::is_none) && b.nodes[..a.nodes.len()] == a.nodes[..]
}

/// All rows of up to `len` calls that lead from this forest back to it, one of them judged.
fn rounds<I: Idt, P: Pay>(spec: &Spec<I, P>, w: &World<I, P>, len: usize, narrow: bool) -> Vec<Vec<Op>> {
    let mut out = Vec::new();
    let mut open: Vec<(World<I, P>, Vec<Op>, bool)> = vec![(w.clone(), Vec::new(), false)];
    for l in 1..=len {
        let mut next = Vec::new();
        for (at, ops, counts) in open {
            let mut more = Vec::new();
            enumerate(&spec.ctx, &at.model, &pick_args(&at.model), 3, &mut more);
            for op in more {
                let ex = expect(&spec.ctx, &at.model, op);
                let judged = (spec.kinds)(op) && (spec.judged)(op, &ex);
                if !basic_kind(op) && (!judged || narrow) || ex.allowed & (OK | USERPANIC) == 0 && (!judged || l > 1) {
                    continue;
                }
                // What the call does is not yet of interest, only where it should lead.
                let Step::Good(to, known) = step(spec, at.clone(), op, &ex).0 else { continue };
                if known.is_some() {
                    continue;
                }
                let mut row = ops.clone();
                row.push(op);
                if same_live(&w.model, &to.model) {
                    if judged || counts {
                        out.push(row);
                    }
                } else if l < len && to.model.live_count() <= 5 {
                    next.push((to, row, judged || counts));
                }
            }
        }
        open = next;
    }
    out
}

/// Goes round: words are the rounds, the number of calls that build the forest, these, and the row.
fn go<I: Idt, P: Pay>(spec: &Spec<I, P>, words: &[u64], st: &mut Stats) -> Result<(), String> {
    let times = words[1];
    let stem = words[2] as usize;
    let ops: Option<Vec<Op>> = words[3..].iter().map(|&o| Op::unpack(o)).collect();
    let ops = ops.ok_or("not a call")?;
    let Ok(mut w) = replay(spec, &ops[..stem]) else { return Ok(()) };
    let base = w.model.nodes.len() as N;
    for round in 0..times {
        crate::util::crumb_call(super::CUSTOM);
        let by = w.model.nodes.len() as N - base;
        for &op in &ops[stem..] {
            let op = shifted(op, base, by);
            let ex = expect(&spec.ctx, &w.model, op);
            let judged = (spec.kinds)(op) && (spec.judged)(op, &ex);
            let text = w.model.text();
            st.transitions += 1;
            match step(spec, w, op, &ex).0 {
                Step::Good(to, _) => w = to,
                Step::Skip => return Ok(()),
                Step::Bad(bad) => {
                    return match bad.into_iter().find(|b| (spec.relevant)(op, &ex, b)) {
                        Some(b) if judged || spec.mode == Mode::Observe => Err(format!(
                            "in round {round}, in the forest [{text}], after `{}`: {}",
                            op.text(),
                            b.what
                        )),
                        _ => Ok(()),
                    };
                }
            }
        }
    }
    Ok(())
}

fn text_of(words: &[u64]) -> String {
    let ops: Vec<String> = words[3..].iter().filter_map(|&o| Op::unpack(o)).map(|o| o.text()).collect();
    let (stem, row) = ops.split_at(words[2] as usize);
    format!("{}; then, {} times over: {}", stem.join("; "), words[1], row.join("; "))
}

/// Whether the call makes a node.
fn makes(o: &Op) -> bool {
    matches!(o, Op::CreateRoot | Op::Create { .. } | Op::CloneLocal { .. } | Op::CloneForeign { .. } | Op::CloneTwin { .. })
}

/// Runs all rows.
pub fn check<I: Idt, P: Pay>(spec: &Spec<I, P>) {
    let t = run().thorough();
    let plain = run().variant == "plain";
    let mut cases: Vec<Vec<u64>> = Vec::new();
    let mut add = |most: usize, len: usize, narrow: bool, times: u64| {
        for h in shape_seeds(0, most, &[Order::Reverse], false) {
            let Ok(w) = replay(spec, &h) else { continue };
            for row in rounds(spec, &w, len, narrow) {
                // Each round that makes nodes makes every later one slower.
                if times > 1000 && row.iter().any(makes) {
                    continue;
                }
                let mut c = vec![WORD, times, h.len() as u64];
                c.extend(h.iter().chain(&row).map(|o| o.pack()));
                cases.push(c);
            }
        }
    };
    let most = match (t, plain) {
        (true, true) => 4,
        (false, false) => 2,
        _ => 3,
    };
    add(most, 2, false, 270);
    if plain || t {
        add(2, 3, true, 270);
    }
    if plain {
        add(if t { 3 } else { 2 }, 2, true, 65_600);
    }
    let st = run_cases(cases.len(), |i| cases[i].clone(), |c, st| go(spec, c, st), text_of);
    record(
        "rows",
        &format!(
            "from every forest of up to {most} nodes, every row of up to two calls that leads back to the same live forest, 270 times over, every call judged{}{}",
            if plain || t { "; from those of up to 2 nodes, also every row of three calls in their basic forms" } else { "" },
            if plain { "; from small ones also the rows that make no node, 65600 times over" } else { "" },
        ),
        st,
    );
}

pub fn play<I: Idt, P: Pay>(spec: &Spec<I, P>, words: &[u64]) -> Result<(), String> {
    go(spec, words, &mut Stats::default())
}
