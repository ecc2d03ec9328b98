//! C14: every payload text, in every splitting, on every small tree, from every start node; every
//! shape with plain payloads; and printing in every reachable state.

use super::*;
use crate::model::*;
use crate::shapes::*;
use std::fmt;
use std::sync::OnceLock;
use treena::dynamic::{Forest, InsertAs};

/// A text, and the pieces its formatter writes.
pub struct Variant {
    pub text: String,
    pub pieces: Vec<String>,
}

/// All texts over `a`, newline and `é` up to three characters in every splitting into pieces
/// (also with empty pieces), and some longer and odd ones.
fn table() -> &'static [Variant] {
    static T: OnceLock<Vec<Variant>> = OnceLock::new();
    T.get_or_init(|| {
        let mut texts = vec![Vec::new()];
        let mut last: Vec<Vec<char>> = vec![Vec::new()];
        for _ in 0..3 {
            last = last
                .iter()
                .flat_map(|t| {
                    ['a', '\n', 'é'].into_iter().map(move |c| {
                        let mut t = t.clone();
                        t.push(c);
                        t
                    })
                })
                .collect();
            texts.extend(last.iter().cloned());
        }
        for t in ["é\n\na", "aa\n a\n\naé\naaaa", "\n\n\n\na", "a\n\n\n\n", "aaaaaaaaaaaaaaaaaaaa", " a\n  a", "|-- a\n`-- a"] {
            texts.push(t.chars().collect());
        }
        let mut out = Vec::new();
        for t in texts {
            let text: String = t.iter().collect();
            let n = t.len();
            let cuts = if n == 0 { 1 } else { 1u32 << (n - 1).min(3) };
            for cut in 0..cuts {
                let mut pieces = vec![String::new()];
                for (i, c) in t.iter().enumerate() {
                    pieces.last_mut().expect("piece").push(*c);
                    if i + 1 < n && cut >> (i % 4) & 1 == 1 {
                        pieces.push(String::new());
                    }
                }
                if n == 0 {
                    out.push(Variant { text: text.clone(), pieces: Vec::new() });
                }
                out.push(Variant { text: text.clone(), pieces: pieces.clone() });
                // With an empty piece somewhere.
                for at in 0..=pieces.len() {
                    let mut p = pieces.clone();
                    p.insert(at, String::new());
                    out.push(Variant { text: text.clone(), pieces: p });
                }
            }
        }
        // Other characters that some call a line end or a blank, and longer characters; and long
        // texts. Each at once, and character by character.
        let odd = ["a\r\na", "\r", "\ta\u{b}\n\u{c}", "a\u{2028}\u{85}", "\u{3000}\n\u{a0}a", "😀\n😀", "\0\n"];
        let long = ["a".repeat(300), "a\n".repeat(40) + &"\n".repeat(300)];
        for t in odd.into_iter().map(str::to_owned).chain(long) {
            out.push(Variant { text: t.clone(), pieces: vec![t.clone()] });
            let pieces = t.chars().map(|c| c.to_string()).collect();
            out.push(Variant { text: t, pieces });
        }
        out
    })
}

/// Numbers of variants that end their node in every way: nothing written, in the middle of a
/// line, after a newline; with one line and several.
fn basics() -> &'static [u16] {
    static T: OnceLock<Vec<u16>> = OnceLock::new();
    T.get_or_init(|| {
        ["", "a", "a\na", "\n", "a\n", "é\n\na"]
            .iter()
            .map(|t| table().iter().position(|v| v.text == *t).expect("in table") as u16)
            .collect()
    })
}

#[derive(Clone)]
pub struct Txt(u16);

impl fmt::Display for Txt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for p in &table()[self.0 as usize].pieces {
            // Single characters go through `write_char`.
            let mut c = p.chars();
            match (c.next(), c.next()) {
                (Some(x), None) if self.0 % 2 == 0 => fmt::Write::write_char(f, x)?,
                _ => f.write_str(p)?,
            }
        }
        Ok(())
    }
}

impl fmt::Debug for Txt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for p in &table()[self.0 as usize].pieces {
            f.write_str(&p.replace('a', "b"))?;
        }
        Ok(())
    }
}

/// The lines of the print of the subtree of `start`.
pub fn expected(m: &Model, start: N, text: &dyn Fn(N) -> String) -> Vec<String> {
    fn go(m: &Model, x: N, first: &str, rest: &str, text: &dyn Fn(N) -> String, out: &mut Vec<String>) {
        let t = text(x);
        if t.is_empty() {
            out.push(first.trim_end_matches(' ').to_owned());
        }
        for (i, l) in t.split_terminator('\n').enumerate() {
            let line = format!("{}{l}", if i == 0 { first } else { rest });
            out.push(line.trim_end_matches(' ').to_owned());
        }
        let kids = &m.n(x).children;
        for (i, &k) in kids.iter().enumerate() {
            let (a, b) = if i + 1 == kids.len() { ("`-- ", "    ") } else { ("|-- ", "|   ") };
            go(m, k, &format!("{rest}{a}"), &format!("{rest}{b}"), text, out);
        }
    }
    let mut out = Vec::new();
    go(m, start, "", "", text, &mut out);
    out
}

fn same(what: &str, got: &str, want: &[String]) -> Result<(), String> {
    let g: Vec<&str> = if got.is_empty() {
        vec![""]
    } else {
        got.split_terminator('\n').map(|l| l.trim_end_matches(' ')).collect()
    };
    if g.iter().eq(want.iter()) {
        return Ok(());
    }
    Err(format!("{what} gives\n{got}\nbut should give\n{}", want.join("\n")))
}

/// Compares every way of printing the subtree of a node.
fn prints<I: Idt, P: Clone + fmt::Debug + fmt::Display>(
    f: &mut Forest<I, P>,
    m: &Model,
    ids: &[I],
    start: N,
    text: &dyn Fn(N) -> String,
    debug_text: &dyn Fn(N) -> String,
) -> Result<(), String> {
    let id = ids[start as usize];
    let (wd, wg) = (expected(m, start, text), expected(m, start, debug_text));
    same(&format!("debug_print(#{start}) in display style"), &format!("{}", f.debug_print(id)), &wd)?;
    same(&format!("debug_print(#{start}) in debug style"), &format!("{:?}", f.debug_print(id)), &wg)?;
    let n = f.node(id).ok_or("a live node has no handle")?;
    same(&format!("#{start}: Node::debug_print in display style"), &format!("{}", n.debug_print()), &wd)?;
    same(&format!("#{start}: Node::debug_print in debug style"), &format!("{:?}", n.debug_print()), &wg)?;
    let n = f.node_mut(id).ok_or("a live node has no handle")?;
    same(&format!("#{start}: NodeMut::debug_print in display style"), &format!("{}", n.debug_print()), &wd)?;
    same(&format!("#{start}: NodeMut::debug_print in debug style"), &format!("{:?}", n.debug_print()), &wg)?;
    Ok(())
}

/// `words` = number of nodes, depths, variant of each node.
fn one(words: &[u64], st: &mut Stats) -> Result<(), String> {
    let n = words[0] as usize;
    let depths: Vec<u8> = words[1..=n].iter().map(|x| *x as u8).collect();
    let var: Vec<u16> = words[n + 1..].iter().map(|x| *x as u16).collect();
    let par = parents(&depths);
    let mut f: Forest<structural::Id, Txt> = Forest::new();
    let mut m = Model::default();
    let mut ids = Vec::new();
    for (i, p) in par.iter().enumerate() {
        m.add_root(0);
        if let Some(p) = p {
            m.attach(i as N, Place::Last, *p as N);
            ids.push(f.create_insert(Txt(var[i]), InsertAs::LastChildOf(ids[*p])));
        } else {
            ids.push(f.create_root(Txt(var[i])));
        }
    }
    let t = |x: N| table()[var[x as usize] as usize].text.clone();
    let d = |x: N| table()[var[x as usize] as usize].text.replace('a', "b");
    for s in 0..n as N {
        st.transitions += 6;
        prints(&mut f, &m, &ids, s, &t, &d)?;
    }
    Ok(())
}

fn text_of(words: &[u64]) -> String {
    let n = words[0] as usize;
    let d: Vec<String> = words[1..=n].iter().map(|x| x.to_string()).collect();
    let p: Vec<String> =
        words[n + 1..].iter().map(|x| format!("{:?}", table()[*x as usize].pieces)).collect();
    format!("tree with preorder depths {}, payloads written in the pieces {}", d.join(" "), p.join(", "))
}

fn cases(name: &str, bounds: &str, shapes: Vec<Vec<u8>>, combos: impl Fn(usize) -> Vec<Vec<u16>>) {
    let mut all: Vec<Vec<u64>> = Vec::new();
    let mut by_n: std::collections::BTreeMap<usize, Vec<Vec<u16>>> = Default::default();
    for s in shapes {
        let c = by_n.entry(s.len()).or_insert_with(|| combos(s.len()));
        for v in c.iter() {
            let mut w = vec![3000, s.len() as u64];
            w.extend(s.iter().map(|x| *x as u64));
            w.extend(v.iter().map(|x| *x as u64));
            all.push(w);
        }
    }
    let s = run_cases(all.len(), |i| all[i].clone(), |w, st| one(&w[1..], st), |w| text_of(&w[1..]));
    record(name, bounds, s);
}

/// Every tuple of `n` out of `from`.
fn tuples(from: &[u16], n: usize) -> Vec<Vec<u16>> {
    let mut out = vec![Vec::new()];
    for _ in 0..n {
        out = out
            .iter()
            .flat_map(|t| {
                from.iter().map(move |x| {
                    let mut t = t.clone();
                    t.push(*x);
                    t
                })
            })
            .collect();
    }
    out
}

pub fn spec(name: &str, probes: usize) -> Spec<structural::Id, Val> {
    let mut s: Spec<structural::Id, Val> = Spec::new(name, probes);
    s.relevant = Box::new(|_, _, _| false);
    s.state_check = Some(Box::new(|_, w, st| {
        let mut f = w.forest.clone();
        let t = |x: N| w.model.n(x).tag.to_string();
        let live: Vec<N> = w.model.live().collect();
        let step = (live.len() / 24).max(1);
        for &x in live.iter().step_by(step) {
            st.transitions += 6;
            prints(&mut f, &w.model, &w.ids, x, &t, &t)?;
        }
        Ok(())
    }));
    s
}

pub fn check(_prop: &str) {
    let t = run().thorough();
    let every: Vec<u16> = (0..table().len() as u16).collect();
    // Without the empty pieces: one per text and splitting.
    let plain: Vec<u16> = (0..table().len() as u16)
        .filter(|i| table()[*i as usize].pieces.iter().all(|p| !p.is_empty()))
        .collect();
    let upto = |n: usize| (1..=n).flat_map(all_trees).collect::<Vec<_>>();
    cases(
        "two-nodes",
        &format!("every pair of the {} (text, splitting) combinations on a node and its child", every.len()),
        upto(2),
        |n| tuples(&every, n),
    );
    let one_any = |n: usize, others: &[u16]| {
        let mut out = Vec::new();
        for at in 0..n {
            for o in tuples(others, n - 1) {
                for &v in if n <= 3 { &every } else { &plain } {
                    let mut c = o.clone();
                    c.insert(at, v);
                    out.push(c);
                }
            }
        }
        out
    };
    for (max, k) in if t { [(4, 6), (5, 4)] } else { [(4, 6), (5, 3)] } {
        cases(
            &format!("one-any-{max}"),
            &format!(
                "every tree of up to {max} nodes, every combination of {k} basic texts on all nodes but one, which has every (text, splitting)"
            ),
            upto(max),
            |n| one_any(n, &basics()[..k]),
        );
    }
    let max = if t { 8 } else { 7 };
    let some = &basics()[..3];
    cases(
        &format!("shapes-{max}"),
        &format!("every tree of up to {max} nodes, every combination of {} basic texts", some.len()),
        upto(max),
        |n| tuples(some, n),
    );
    if violated() {
        return;
    }
    let mut s = spec("states", 10);
    let n = if t { 6 } else { 5 };
    s.creations = n;
    s.bounds = format!("printing every live node in every state reachable with {n} creations");
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    let mut s = spec("shapes-plain", 32);
    let (lo, hi) = if t { (5, 10) } else { (5, 8) };
    s.seeds = shape_seeds(lo, hi, &[Order::Pre, Order::Level], false);
    s.depth = 0;
    s.bounds = format!("printing every node of every forest shape of {lo} to {hi} nodes, in two build orders");
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    let mut s = spec("large", 2400);
    s.seeds = big_seeds(&[12, 17, 33, 64, 257, 600], &[Order::Pre, Order::Reverse]);
    s.seeds.extend(scarred_seeds(&[13, 26, 40, 70]));
    s.seeds.extend(churn_seeds(&[70, 1100]));
    s.seeds.extend(huge_seeds(2200, &["chain", "comb", "caterpillar", "broom"]));
    s.depth = 0;
    s.bounds = "printing up to 24 or more nodes of the parametric shapes of up to 600 nodes, of deep ones of 2200, and of forests in which nodes came and went".into();
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
    if violated() || !(t || run().variant == "plain") {
        return;
    }
    let n = 66_000;
    let mut s = spec("huge", n + 20);
    s.seeds = huge_seeds(n, &["star", "binary", "ternary", "comb"]);
    s.depth = 0;
    s.bounds = format!("printing selected nodes of flat shapes of {n} nodes");
    let st = explore(&s);
    record(&s.name, &s.bounds, st);
}

pub fn play(words: &[u64]) -> Result<(), String> {
    one(&words[1..], &mut Stats::default())
}
