//! The part of C03 that is about reading requests: each of them, for every removed and unknown id.

use crate::model::N;
use super::panics::{read, read_name, N_READS, OPTIONAL};
use super::*;
use treena::dynamic::Forest;

/// Every reading request of every node that is not alive.
pub fn reads<I: Idt, P: Pay>(ctx: &Ctx<I, P>, w: &World<I, P>, st: &mut Stats) -> Result<(), String> {
    let mut f: Forest<I, P> = w.forest.clone();
    let mut ids: Vec<(String, I)> = Vec::new();
    let args: Vec<N> = match pick_args(&w.model) {
        Args::All => (0..w.model.nodes.len() as N).collect(),
        Args::Some(v) => v,
    };
    for x in args {
        if !w.model.alive(x) {
            ids.push((format!("the removed node #{x}"), w.ids[x as usize]));
        }
    }
    for a in [NEXT, FAR] {
        if let Some(id) = ctx.resolve(w, a) {
            ids.push(("a node never created".into(), id));
        }
    }
    for (name, id) in ids {
        for k in 0..N_READS {
            st.transitions += 1;
            match (guard(|| read(&mut f, id, k, 64)), k < OPTIONAL) {
                (Ok(false), true) | (Err(_), false) => {}
                (Ok(true), true) => return Err(format!("{} of {name} gives something", read_name(k))),
                (Err(p), true) => return Err(format!("{} of {name} panics: {}", read_name(k), p.msg)),
                (Ok(_), false) => return Err(format!("{} of {name} does not panic", read_name(k))),
            }
        }
    }
    let mut bad = Vec::new();
    compare(ctx, &f, &w.ids, &w.model, &mut bad);
    match bad.first() {
        None => Ok(()),
        Some(b) => Err(format!("after reading requests of nodes that are not alive: {}", b.what)),
    }
}
