//! The operation alphabet: what it does to the real forest and what the model says it must do.

use crate::model::*;
use crate::util::*;
use std::collections::HashSet;
use std::fmt::Debug;
use std::sync::Arc;
use treena::dynamic::{AdoptAs, Forest, InsertAs, NodeId, StructureError};

/// Payload of the nodes of an explored forest.
pub trait Pay: Clone + Debug + std::fmt::Display + Send + Sync + 'static {
    fn make(tag: u32) -> Self;
    fn tag(&self) -> u32;
    /// Identity of the value, for payloads that have one.
    fn inst(&self) -> u64 {
        0
    }
}

impl Pay for u32 {
    fn make(tag: u32) -> Self {
        tag
    }
    fn tag(&self) -> u32 {
        *self
    }
}

/// A payload that owns memory, must be dropped, and is large.
#[derive(Clone)]
#[derive(PartialEq)]
pub struct Owned(Box<u32>, [u64; 9]);

impl Debug for Owned {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Debug::fmt(&self.0, f)
    }
}

impl std::fmt::Display for Owned {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.0, f)
    }
}

impl Pay for Owned {
    fn make(tag: u32) -> Self {
        Owned(Box::new(tag), [tag.into(); 9])
    }
    fn tag(&self) -> u32 {
        if self.1.iter().any(|x| *x != u64::from(*self.0)) {
            return u32::MAX;
        }
        *self.0
    }
}

/// The payloads of most explorations: of different kinds in the two builds.
#[cfg(debug_assertions)]
pub type Val = Owned;
#[cfg(not(debug_assertions))]
pub type Val = u32;

pub trait Idt: NodeId + Send + Sync + 'static {}
impl<T: NodeId + Send + Sync + 'static> Idt for T {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Via {
    Forest,
    Handle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum IVia {
    Insert,
    TryAdopt,
    Adopt,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Form {
    Plain,
    Hooked,
    Safe,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    CreateRoot,
    Create { via: Via, place: Place, anchor: N },
    Insert { via: IVia, node: N, place: Place, anchor: N },
    Detach { via: Via, node: N },
    DetachSingle { via: Via, node: N },
    Remove { form: Form, via: Via, node: N },
    /// Panic-safe removal whose callback panics at its call number `k` (from 0).
    RemovePanic { via: Via, node: N, k: N },
    CloneLocal { map: bool, node: N },
    /// Clone of a tree of the fixed donor forest.
    CloneForeign { map: bool, node: N },
    /// Clone of a tree of a clone of this very forest.
    CloneTwin { map: bool, node: N },
}

/// The lowest id of a larger forest of the same type that this forest has not handed out.
pub const NEXT: N = 0xFF_FFF0;
/// The highest id of that larger forest.
pub const FAR: N = 0xFF_FFF1;

const VIAS: [Via; 2] = [Via::Forest, Via::Handle];
const IVIAS: [IVia; 3] = [IVia::Insert, IVia::TryAdopt, IVia::Adopt];
const FORMS: [Form; 3] = [Form::Plain, Form::Hooked, Form::Safe];
const PLACE_NAMES: [&str; 4] = ["first-child-of", "last-child-of", "previous-sibling-of", "next-sibling-of"];

impl Op {
    pub fn pack(self) -> u64 {
        let p = |k: u64, sub: u64, place: u64, a: N, b: N| {
            k | sub << 8 | place << 12 | (a as u64) << 16 | (b as u64) << 40
        };
        match self {
            Op::CreateRoot => p(1, 0, 0, 0, 0),
            Op::Create { via, place, anchor } => p(2, via as u64, place as u64, 0, anchor),
            Op::Insert { via, node, place, anchor } => p(3, via as u64, place as u64, node, anchor),
            Op::Detach { via, node } => p(4, via as u64, 0, node, 0),
            Op::DetachSingle { via, node } => p(5, via as u64, 0, node, 0),
            Op::Remove { form, via, node } => p(6, via as u64, form as u64, node, 0),
            Op::RemovePanic { via, node, k } => p(7, via as u64, 0, node, k),
            Op::CloneLocal { map, node } => p(8, map as u64, 0, node, 0),
            Op::CloneForeign { map, node } => p(9, map as u64, 0, node, 0),
            Op::CloneTwin { map, node } => p(10, map as u64, 0, node, 0),
        }
    }
    pub fn unpack(v: u64) -> Option<Op> {
        let sub = (v >> 8 & 0xF) as usize;
        let third = (v >> 12 & 0xF) as usize;
        let (a, b) = ((v >> 16 & 0xFF_FFFF) as N, (v >> 40) as N);
        Some(match v & 0xFF {
            1 => Op::CreateRoot,
            2 => Op::Create { via: *VIAS.get(sub)?, place: *PLACES.get(third)?, anchor: b },
            3 => Op::Insert { via: *IVIAS.get(sub)?, node: a, place: *PLACES.get(third)?, anchor: b },
            4 => Op::Detach { via: *VIAS.get(sub)?, node: a },
            5 => Op::DetachSingle { via: *VIAS.get(sub)?, node: a },
            6 => Op::Remove { form: *FORMS.get(third)?, via: *VIAS.get(sub)?, node: a },
            7 => Op::RemovePanic { via: *VIAS.get(sub)?, node: a, k: b },
            8 => Op::CloneLocal { map: sub == 1, node: a },
            9 => Op::CloneForeign { map: sub == 1, node: a },
            10 => Op::CloneTwin { map: sub == 1, node: a },
            _ => return None,
        })
    }
    pub fn text(self) -> String {
        let arg = |a: N| match a {
            NEXT => "unknown-next".to_owned(),
            FAR => "unknown-far".to_owned(),
            a => a.to_string(),
        };
        let v = |v: Via| if v == Via::Forest { "forest" } else { "handle" };
        let m = |m: bool| if m { "mapped" } else { "plain" };
        match self {
            Op::CreateRoot => "create_root".into(),
            Op::Create { via, place, anchor } => {
                format!("create {} {} {}", v(via), PLACE_NAMES[place as usize], arg(anchor))
            }
            Op::Insert { via, node, place, anchor } => format!(
                "{} {} {} {}",
                ["insert", "try_adopt", "adopt"][via as usize],
                arg(node),
                PLACE_NAMES[place as usize],
                arg(anchor)
            ),
            Op::Detach { via, node } => format!("detach {} {}", v(via), arg(node)),
            Op::DetachSingle { via, node } => format!("detach_single {} {}", v(via), arg(node)),
            Op::Remove { form, via, node } => format!(
                "{} {} {}",
                ["remove", "remove_hooked", "remove_hooked_panic_safe"][form as usize],
                v(via),
                arg(node)
            ),
            Op::RemovePanic { via, node, k } => {
                format!("remove_callback_panics_at {} {} {}", k, v(via), arg(node))
            }
            Op::CloneLocal { map, node } => format!("clone_local {} {}", m(map), arg(node)),
            Op::CloneForeign { map, node } => format!("clone_foreign {} donor:{}", m(map), node),
            Op::CloneTwin { map, node } => format!("clone_foreign_twin {} {}", m(map), arg(node)),
        }
    }
    /// Source code of the call, on `f` and `ids`, for a plain test without the explorer.
    ///
    /// (The explorer also writes fresh payloads to the nodes of every tree copy.)
    pub fn rust(self, tag: u32) -> String {
        let arg = |a: N| match a {
            NEXT => "/* an id this forest has not handed out yet */ next_unknown".to_owned(),
            FAR => "/* an id of a much larger forest */ far_unknown".to_owned(),
            a => format!("ids[{a}]"),
        };
        let ins = |p: Place, a: N| {
            let k = ["FirstChildOf", "LastChildOf", "PreviousSiblingOf", "NextSiblingOf"][p as usize];
            format!("InsertAs::{k}({})", arg(a))
        };
        let ado = |p: Place| {
            format!("AdoptAs::{}", ["FirstChild", "LastChild", "PreviousSibling", "NextSibling"][p as usize])
        };
        let h = |via: Via, node: N| match via {
            Via::Forest => "f".to_owned(),
            Via::Handle => format!("f.node_mut({}).unwrap()", arg(node)),
        };
        let a0 = |via: Via, node: N| if via == Via::Forest { arg(node) } else { String::new() };
        match self {
            Op::CreateRoot => format!("ids.push(f.create_root({tag}));"),
            Op::Create { via: Via::Forest, place, anchor } => {
                format!("let id = f.create_insert({tag}, {}); ids.push(id);", ins(place, anchor))
            }
            Op::Create { via: Via::Handle, place, anchor } => format!(
                "let id = f.node_mut({}).unwrap().create({tag}, {}); ids.push(id);",
                arg(anchor),
                ado(place)
            ),
            Op::Insert { via: IVia::Insert, node, place, anchor } => {
                format!("let _ = f.insert({}, {});", arg(node), ins(place, anchor))
            }
            Op::Insert { via, node, place, anchor } => format!(
                "let _ = f.node_mut({}).unwrap().{}({}, {});",
                arg(anchor),
                if via == IVia::Adopt { "adopt" } else { "try_adopt" },
                arg(node),
                ado(place)
            ),
            Op::Detach { via, node } => format!("{}.detach({});", h(via, node), a0(via, node)),
            Op::DetachSingle { via, node } => {
                format!("let _ = {}.detach_single({});", h(via, node), a0(via, node))
            }
            Op::Remove { form, via, node } => {
                let c = match (form, via) {
                    (Form::Plain, _) => "",
                    (_, Via::Forest) => ", |p| println!(\"removed {p:?}\")",
                    (_, Via::Handle) => "|p| println!(\"removed {p:?}\")",
                };
                let name = ["remove", "remove_hooked", "remove_hooked_panic_safe"][form as usize];
                format!("{}.{name}({}{c});", h(via, node), a0(via, node))
            }
            Op::RemovePanic { via, node, k } => format!(
                "let mut n = 0; let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| \
                 {}.remove_hooked_panic_safe({}{}|_| {{ n += 1; if n > {k} {{ panic!() }} }})));",
                h(via, node),
                a0(via, node),
                if via == Via::Forest { ", " } else { "" }
            ),
            Op::CloneLocal { map: false, node } => format!(
                "let c = f.clone_local_tree({}); /* new ids, in preorder: */ ids.extend(preorder(&f, c));",
                arg(node)
            ),
            Op::CloneLocal { map: true, node } => format!(
                "let c = f.clone_local_tree_with_id_mapping({}, |s, d| println!(\"{{s:?}} -> {{d:?}}\")); \
                 ids.extend(preorder(&f, c));",
                arg(node)
            ),
            Op::CloneForeign { node, .. } => format!(
                "let c = f.clone_foreign_tree(donor.node(donor_ids[{node}]).unwrap()); \
                 ids.extend(preorder(&f, c));"
            ),
            Op::CloneTwin { node, .. } => format!(
                "let twin = f.clone(); let c = f.clone_foreign_tree(twin.node({}).unwrap()); \
                 ids.extend(preorder(&f, c));",
                arg(node)
            ),
        }
    }
    pub fn parse(s: &str) -> Option<Op> {
        let w: Vec<&str> = s.split_whitespace().collect();
        let arg = |s: &str| match s {
            "unknown-next" => Some(NEXT),
            "unknown-far" => Some(FAR),
            s => s.parse().ok(),
        };
        let via = |s: &str| match s {
            "forest" => Some(Via::Forest),
            "handle" => Some(Via::Handle),
            _ => None,
        };
        let place = |s: &str| PLACE_NAMES.iter().position(|n| *n == s).map(|i| PLACES[i]);
        let map = |s: &str| match s {
            "mapped" => Some(true),
            "plain" => Some(false),
            _ => None,
        };
        Some(match w.as_slice() {
            ["create_root"] => Op::CreateRoot,
            ["create", v, p, a] => Op::Create { via: via(v)?, place: place(p)?, anchor: arg(a)? },
            [i @ ("insert" | "try_adopt" | "adopt"), n, p, a] => Op::Insert {
                via: match *i {
                    "insert" => IVia::Insert,
                    "adopt" => IVia::Adopt,
                    _ => IVia::TryAdopt,
                },
                node: arg(n)?,
                place: place(p)?,
                anchor: arg(a)?,
            },
            ["detach", v, n] => Op::Detach { via: via(v)?, node: arg(n)? },
            ["detach_single", v, n] => Op::DetachSingle { via: via(v)?, node: arg(n)? },
            [r @ ("remove" | "remove_hooked" | "remove_hooked_panic_safe"), v, n] => Op::Remove {
                form: match *r {
                    "remove" => Form::Plain,
                    "remove_hooked" => Form::Hooked,
                    _ => Form::Safe,
                },
                via: via(v)?,
                node: arg(n)?,
            },
            ["remove_callback_panics_at", k, v, n] => {
                Op::RemovePanic { via: via(v)?, node: arg(n)?, k: k.parse().ok()? }
            }
            ["clone_local", m, n] => Op::CloneLocal { map: map(m)?, node: arg(n)? },
            ["clone_foreign", m, n] => {
                Op::CloneForeign { map: map(m)?, node: n.strip_prefix("donor:")?.parse().ok()? }
            }
            ["clone_foreign_twin", m, n] => Op::CloneTwin { map: map(m)?, node: arg(n)? },
            _ => return None,
        })
    }
}

// ------------------------------------------------------------------ real side

pub struct World<I: NodeId, P> {
    pub forest: Forest<I, P>,
    pub ids: Vec<I>,
    pub model: Arc<Model>,
}

// The forests are `Send` and `Sync` in the crate as it is. Should they stop being so (an inner
// cache, say), `util::workers` sees to it that a single worker thread does all the work.
unsafe impl<I: Idt, P: Pay> Send for World<I, P> {}
unsafe impl<I: Idt, P: Pay> Sync for World<I, P> {}

impl<I: Idt, P: Pay> Clone for World<I, P> {
    fn clone(&self) -> Self {
        World { forest: self.forest.clone(), ids: self.ids.clone(), model: self.model.clone() }
    }
}

impl<I: Idt, P: Pay> World<I, P> {
    pub fn empty() -> Self {
        World { forest: Forest::new(), ids: Vec::new(), model: Arc::default() }
    }
}

/// Everything an exploration shares: ids of a larger forest, and the donor forest.
pub struct Ctx<I: NodeId, P> {
    pub probes: Vec<I>,
    pub donor: World<I, P>,
}

/// Tag of the payload of the node whose creation is attempted as number `attempt`.
pub fn tag_of(attempt: u32) -> u32 {
    100 + attempt
}

impl<I: Idt, P: Pay> Ctx<I, P> {
    pub fn new(probes: usize) -> Self {
        let mut f: Forest<I, P> = Forest::new();
        let probes = (0..probes).map(|_| f.create_root(P::make(0))).collect();
        // Donor trees: a leaf, a chain of three, a fork, and a bigger mixed one; some nodes have
        // been removed and moved, so that ids and order differ from creation order.
        let mut w = World::<I, P>::empty();
        let add = |w: &mut World<I, P>, place: Option<(Place, N)>| {
            let tag = 500 + w.ids.len() as u32;
            let n = std::sync::Arc::make_mut(&mut w.model).add_root(tag);
            std::sync::Arc::make_mut(&mut w.model).attempts += 1;
            let id = w.forest.create_root(P::make(tag));
            w.ids.push(id);
            if let Some((p, a)) = place {
                std::sync::Arc::make_mut(&mut w.model).attach(n, p, a);
                w.forest.insert(id, dest(p, w.ids[a as usize])).expect("donor");
            }
            n
        };
        let gone = add(&mut w, None);
        let _leaf = add(&mut w, None); // 1
        let chain = add(&mut w, None); // 2
        let c1 = add(&mut w, Some((Place::Last, chain)));
        add(&mut w, Some((Place::Last, c1)));
        let fork = add(&mut w, None); // 5
        add(&mut w, Some((Place::First, fork)));
        add(&mut w, Some((Place::First, fork)));
        let mix = add(&mut w, None); // 8
        let m1 = add(&mut w, Some((Place::Last, mix)));
        let m2 = add(&mut w, Some((Place::Prev, m1)));
        add(&mut w, Some((Place::Last, m2)));
        add(&mut w, Some((Place::First, m2)));
        add(&mut w, Some((Place::Next, m2)));
        w.forest.remove(w.ids[gone as usize]);
        std::sync::Arc::make_mut(&mut w.model).remove(gone);
        Ctx { probes, donor: w }
    }

    /// Ids of the larger forest that are not among these.
    pub fn unknown<'a>(&'a self, ids: &'a [I]) -> impl DoubleEndedIterator<Item = I> + 'a {
        // Mostly the larger forest hands out the very same ids in the same order.
        let same = self.probes.iter().zip(ids).take_while(|(a, b)| a == b).count();
        let rest = &ids[same..];
        let set: HashSet<I, CheapHash> =
            if rest.len() > 32 { rest.iter().copied().collect() } else { HashSet::default() };
        self.probes[same..]
            .iter()
            .copied()
            .filter(move |p| if set.is_empty() { !rest.contains(p) } else { !set.contains(p) })
    }

    pub fn resolve(&self, w: &World<I, P>, a: N) -> Option<I> {
        match a {
            NEXT => self.unknown(&w.ids).next(),
            FAR => self.unknown(&w.ids).next_back(),
            a => w.ids.get(a as usize).copied(),
        }
    }
}

pub fn dest<I>(p: Place, a: I) -> InsertAs<I> {
    match p {
        Place::First => InsertAs::FirstChildOf(a),
        Place::Last => InsertAs::LastChildOf(a),
        Place::Prev => InsertAs::PreviousSiblingOf(a),
        Place::Next => InsertAs::NextSiblingOf(a),
    }
}

pub fn adopt_as(p: Place) -> AdoptAs {
    match p {
        Place::First => AdoptAs::FirstChild,
        Place::Last => AdoptAs::LastChild,
        Place::Prev => AdoptAs::PreviousSibling,
        Place::Next => AdoptAs::NextSibling,
    }
}

pub const OK: u8 = 1;
pub const ERR_LOOP: u8 = 2;
pub const ERR_UNORD: u8 = 4;
pub const ERR_NOPARENT: u8 = 8;
pub const PANIC: u8 = 16;
pub const NOHANDLE: u8 = 32;
pub const USERPANIC: u8 = 64;

pub fn mask_text(m: u8) -> String {
    let names = [
        "success",
        "Err(AncestorDescendantLoop)",
        "Err(UnorderableSiblings)",
        "Err(SiblingsWithoutParent)",
        "panic",
        "no handle",
        "the callback's panic passed on",
    ];
    let v: Vec<&str> = (0..7).filter(|i| m >> i & 1 == 1).map(|i| names[i]).collect();
    v.join(" or ")
}

/// What a call did.
pub struct Actual<I> {
    pub outcome: u8,
    pub msg: String,
    pub new_root: Option<I>,
    pub hook: Vec<(u32, u64)>,
    pub mapping: Vec<(I, I)>,
}

pub fn err_mask(r: Result<(), StructureError>) -> u8 {
    match r {
        Ok(()) => OK,
        Err(StructureError::AncestorDescendantLoop) => ERR_LOOP,
        Err(StructureError::UnorderableSiblings) => ERR_UNORD,
        Err(StructureError::SiblingsWithoutParent) => ERR_NOPARENT,
        #[allow(unreachable_patterns)]
        Err(_) => 0,
    }
}

/// Performs the call on the real forest. `None`: an argument does not exist.
pub fn apply_real<I: Idt, P: Pay>(
    ctx: &Ctx<I, P>,
    w: &mut World<I, P>,
    op: Op,
) -> Option<Actual<I>> {
    let tag = tag_of(w.model.attempts);
    let res = |a: N| ctx.resolve(w, a);
    let mut hook = Vec::new();
    let mut mapping = Vec::new();
    let mut new_root = None;
    let r: Result<u8, Panicked> = match op {
        Op::CreateRoot => {
            let f = &mut w.forest;
            guard(|| f.create_root(P::make(tag))).map(|id| {
                new_root = Some(id);
                OK
            })
        }
        Op::Create { via: Via::Forest, place, anchor } => {
            let a = res(anchor)?;
            let f = &mut w.forest;
            guard(|| f.create_insert(P::make(tag), dest(place, a))).map(|id| {
                new_root = Some(id);
                OK
            })
        }
        Op::Create { via: Via::Handle, place, anchor } => {
            let a = res(anchor)?;
            let f = &mut w.forest;
            guard(|| f.node_mut(a).map(|mut h| h.create(P::make(tag), adopt_as(place)))).map(|id| {
                new_root = id;
                if id.is_some() {
                    OK
                } else {
                    NOHANDLE
                }
            })
        }
        Op::Insert { via, node, place, anchor } => {
            let (n, a) = (res(node)?, res(anchor)?);
            let f = &mut w.forest;
            match via {
                IVia::Insert => guard(|| f.insert(n, dest(place, a))).map(err_mask),
                IVia::TryAdopt => {
                    guard(|| f.node_mut(a).map(|mut h| h.try_adopt(n, adopt_as(place))))
                        .map(|r| r.map_or(NOHANDLE, err_mask))
                }
                IVia::Adopt => guard(|| f.node_mut(a).map(|mut h| h.adopt(n, adopt_as(place))))
                    .map(|r| r.map_or(NOHANDLE, |()| OK)),
            }
        }
        Op::Detach { via, node } => {
            let n = res(node)?;
            let f = &mut w.forest;
            match via {
                Via::Forest => guard(|| f.detach(n)).map(|()| OK),
                Via::Handle => guard(|| f.node_mut(n).map(|mut h| h.detach()))
                    .map(|r| r.map_or(NOHANDLE, |()| OK)),
            }
        }
        Op::DetachSingle { via, node } => {
            let n = res(node)?;
            let f = &mut w.forest;
            match via {
                Via::Forest => guard(|| f.detach_single(n)).map(err_mask),
                Via::Handle => guard(|| f.node_mut(n).map(|mut h| h.detach_single()))
                    .map(|r| r.map_or(NOHANDLE, err_mask)),
            }
        }
        Op::Remove { form, via, node } => {
            let n = res(node)?;
            let f = &mut w.forest;
            let hk = &mut hook;
            let cb = |p: P| hk.push((p.tag(), p.inst()));
            match (form, via) {
                (Form::Plain, Via::Forest) => guard(|| f.remove(n)).map(|()| OK),
                (Form::Hooked, Via::Forest) => guard(|| f.remove_hooked(n, cb)).map(|()| OK),
                (Form::Safe, Via::Forest) => guard(|| f.remove_hooked_panic_safe(n, cb)).map(|()| OK),
                (form, Via::Handle) => guard(|| {
                    let h = f.node_mut(n)?;
                    match form {
                        Form::Plain => h.remove(),
                        Form::Hooked => h.remove_hooked(cb),
                        Form::Safe => h.remove_hooked_panic_safe(cb),
                    }
                    Some(())
                })
                .map(|r| r.map_or(NOHANDLE, |()| OK)),
            }
        }
        Op::RemovePanic { via, node, k } => {
            let n = res(node)?;
            let f = &mut w.forest;
            let hk = &mut hook;
            let cb = |p: P| {
                hk.push((p.tag(), p.inst()));
                if hk.len() > k as usize {
                    user_panic()
                }
            };
            match via {
                Via::Forest => guard(|| f.remove_hooked_panic_safe(n, cb)).map(|()| OK),
                Via::Handle => guard(|| f.node_mut(n).map(|h| h.remove_hooked_panic_safe(cb)))
                    .map(|r| r.map_or(NOHANDLE, |()| OK)),
            }
        }
        Op::CloneLocal { map, node } => {
            let n = res(node)?;
            let f = &mut w.forest;
            let mp = &mut mapping;
            guard(|| {
                if map {
                    f.clone_local_tree_with_id_mapping(n, |s, d| mp.push((s, d)))
                } else {
                    f.clone_local_tree(n)
                }
            })
            .map(|id| {
                new_root = Some(id);
                OK
            })
        }
        Op::CloneForeign { map, node } => {
            let n = *ctx.donor.ids.get(node as usize)?;
            let src = ctx.donor.forest.node(n)?;
            let f = &mut w.forest;
            let mp = &mut mapping;
            guard(|| {
                if map {
                    f.clone_foreign_tree_with_id_mapping(src, |s, d| mp.push((s, d)))
                } else {
                    f.clone_foreign_tree(src)
                }
            })
            .map(|id| {
                new_root = Some(id);
                OK
            })
        }
        Op::CloneTwin { map, node } => {
            let n = res(node)?;
            let twin = w.forest.clone();
            let src = twin.node(n)?;
            let f = &mut w.forest;
            let mp = &mut mapping;
            guard(|| {
                if map {
                    f.clone_foreign_tree_with_id_mapping(src, |s, d| mp.push((s, d)))
                } else {
                    f.clone_foreign_tree(src)
                }
            })
            .map(|id| {
                new_root = Some(id);
                OK
            })
        }
    };
    let (outcome, msg) = match r {
        Ok(m) => (m, String::new()),
        Err(p) if p.user => (USERPANIC, String::new()),
        Err(p) => (PANIC, p.msg),
    };
    Some(Actual { outcome, msg, new_root, hook, mapping })
}

// ----------------------------------------------------------------- model side

/// What the documentation says a call must do.
pub struct Expect {
    /// Allowed outcomes.
    pub allowed: u8,
    /// The forest after the call is one of these.
    pub cands: Vec<Arc<Model>>,
    /// Payload tags handed to the callback, in order.
    pub hook: Option<Vec<u32>>,
    /// Number of new nodes (appended to the model in preorder of the new tree).
    pub new_nodes: usize,
    /// Pairs the mapping callback must report, in any order.
    pub pairs: Option<Vec<(N, N)>>,
    /// The documentation demands a panic, but a silent no-op is on record as a known finding.
    pub silent_known: Option<&'static str>,
}

impl Expect {
    pub fn valid(&self) -> bool {
        self.allowed == OK
    }
}

pub fn expect<P: Pay, I: Idt>(ctx: &Ctx<I, P>, m: &Arc<Model>, op: Op) -> Expect {
    let alive = |a: N| m.alive(a);
    let refuse = |allowed: u8| Expect {
        allowed,
        cands: vec![m.clone()],
        hook: Some(Vec::new()),
        new_nodes: 0,
        pairs: None,
        silent_known: None,
    };
    let done = |next: Model| Expect {
        allowed: OK,
        cands: vec![Arc::new(next)],
        hook: Some(Vec::new()),
        new_nodes: 0,
        pairs: None,
        silent_known: None,
    };
    match op {
        Op::CreateRoot => {
            let mut x = Model::clone(m);
            x.add_root(tag_of(m.attempts));
            x.attempts += 1;
            Expect { new_nodes: 1, ..done(x) }
        }
        Op::Create { via, place, anchor } => {
            if !alive(anchor) && via == Via::Handle {
                return refuse(NOHANDLE);
            }
            let mut orphan = Model::clone(m);
            let n = orphan.add_root(tag_of(m.attempts));
            orphan.attempts += 1;
            if !alive(anchor) || (!place.child() && m.n(anchor).parent.is_none()) {
                // Refused. The panic leaves it open whether the new node exists as a root.
                let mut none = Model::clone(m);
                none.attempts += 1;
                return Expect { allowed: PANIC, cands: vec![Arc::new(none), Arc::new(orphan)], ..refuse(PANIC) };
            }
            orphan.attach(n, place, anchor);
            Expect { new_nodes: 1, ..done(orphan) }
        }
        Op::Insert { via, node, place, anchor } => {
            if via != IVia::Insert && !alive(anchor) {
                return refuse(NOHANDLE);
            }
            let root_anchor = alive(anchor) && m.n(anchor).parent.is_none();
            let mut mask = 0;
            if node == anchor {
                mask |= if place.child() { ERR_LOOP } else { ERR_UNORD };
            }
            if root_anchor && !place.child() {
                mask |= ERR_NOPARENT;
            }
            if !alive(node) || !alive(anchor) {
                mask |= PANIC;
            } else if node != anchor && m.is_ancestor(node, anchor) {
                mask |= ERR_LOOP;
            }
            if mask == 0 {
                let mut x = Model::clone(m);
                x.move_to_or_stay(node, place, anchor);
                return done(x);
            }
            if via == IVia::Adopt {
                mask = PANIC;
            }
            refuse(mask)
        }
        Op::Detach { via, node } => {
            if !alive(node) {
                return refuse(if via == Via::Forest { PANIC } else { NOHANDLE });
            }
            let mut x = Model::clone(m);
            x.detach(node);
            done(x)
        }
        Op::DetachSingle { via, node } => {
            if !alive(node) {
                return refuse(if via == Via::Forest { PANIC } else { NOHANDLE });
            }
            if m.n(node).parent.is_none() && m.n(node).children.len() > 1 {
                return refuse(ERR_NOPARENT);
            }
            let mut x = Model::clone(m);
            x.detach_single(node);
            done(x)
        }
        Op::Remove { form, via, node } => {
            if !alive(node) {
                if via == Via::Handle {
                    return refuse(NOHANDLE);
                }
                return Expect { silent_known: Some("remove-of-dead-id-returns"), ..refuse(PANIC) };
            }
            let hook = match form {
                Form::Plain => Vec::new(),
                _ => m.postorder(node).iter().map(|&x| m.n(x).tag).collect(),
            };
            let mut x = Model::clone(m);
            x.remove(node);
            Expect { hook: Some(hook), ..done(x) }
        }
        Op::RemovePanic { via, node, k } => {
            if !alive(node) {
                if via == Via::Handle {
                    return refuse(NOHANDLE);
                }
                return Expect { silent_known: Some("remove-of-dead-id-returns"), ..refuse(PANIC) };
            }
            let post = m.postorder(node);
            let mut x = Model::clone(m);
            let k = k as usize;
            if k >= post.len() {
                x.remove(node);
                let hook = post.iter().map(|&x| m.n(x).tag).collect();
                return Expect { hook: Some(hook), ..done(x) };
            }
            x.remove_all(&post[..=k]);
            let hook = post[..=k].iter().map(|&y| m.n(y).tag).collect();
            let mut cands = vec![Arc::new(x)];
            if k + 1 < post.len() && m.n(node).parent.is_some() {
                let mut y = Model::clone(&cands[0]);
                y.detach(node);
                cands.push(Arc::new(y));
            }
            Expect { allowed: USERPANIC, cands, hook: Some(hook), ..refuse(USERPANIC) }
        }
        Op::CloneLocal { node, .. } | Op::CloneTwin { node, .. } => {
            if !alive(node) {
                return refuse(if matches!(op, Op::CloneLocal { .. }) { PANIC } else { NOHANDLE });
            }
            let mut x = Model::clone(m);
            let pairs = x.copy_from(m, node);
            x.attempts += pairs.len() as u32;
            Expect { new_nodes: pairs.len(), pairs: Some(pairs), ..done(x) }
        }
        Op::CloneForeign { node, .. } => {
            let mut x = Model::clone(m);
            let pairs = x.copy_from(&ctx.donor.model, node);
            x.attempts += pairs.len() as u32;
            Expect { new_nodes: pairs.len(), pairs: Some(pairs), ..done(x) }
        }
    }
}

impl Model {
    /// Does a valid call that is not a tree clone, in place. Returns whether it is one.
    pub fn advance(&mut self, op: Op) -> bool {
        match op {
            Op::CreateRoot => {
                self.add_root(tag_of(self.attempts));
                self.attempts += 1;
            }
            Op::Create { place, anchor, .. } => {
                let n = self.add_root(tag_of(self.attempts));
                self.attempts += 1;
                self.attach(n, place, anchor);
            }
            Op::Insert { node, place, anchor, .. } => self.move_to(node, place, anchor),
            Op::Detach { node, .. } => self.detach(node),
            Op::DetachSingle { node, .. } => self.detach_single(node),
            Op::Remove { node, .. } => self.remove(node),
            _ => return false,
        }
        true
    }
    /// As `move_to`; a node that already is where it shall go stays there.
    pub fn move_to_or_stay(&mut self, n: N, place: Place, anchor: N) {
        self.detach(n);
        self.attach(n, place, anchor);
    }
}

// ------------------------------------------------------------------ comparing

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Aspect {
    /// Success, error kind, panic or no handle.
    Outcome,
    /// A call whose preconditions hold panicked.
    ValidPanic,
    /// A panic without the precondition mark.
    PanicMsg,
    /// Which ids are alive.
    Live,
    Data,
    Links,
    /// A created node's id had been handed out before.
    NewId,
    Hook,
    Mapping,
}

#[derive(Clone, Debug)]
pub struct Mismatch {
    pub aspect: Aspect,
    pub what: String,
}

fn show<I: Idt>(ids: &[I], x: Option<I>) -> String {
    match x {
        None => "none".into(),
        Some(i) => match ids.iter().position(|&j| j == i) {
            Some(p) => format!("#{p}"),
            None => format!("unknown id {i:?}"),
        },
    }
}

/// Compares every answer of the forest about every known id with the model.
pub fn compare<I: Idt, P: Pay>(
    ctx: &Ctx<I, P>,
    f: &Forest<I, P>,
    ids: &[I],
    m: &Model,
    out: &mut Vec<Mismatch>,
) {
    let r = guard(|| compare_inner(ctx, f, ids, m, out));
    if let Err(p) = r {
        out.push(Mismatch { aspect: Aspect::Links, what: format!("a query panicked: {}", p.msg) });
    }
}

fn compare_inner<I: Idt, P: Pay>(
    ctx: &Ctx<I, P>,
    f: &Forest<I, P>,
    ids: &[I],
    m: &Model,
    out: &mut Vec<Mismatch>,
) {
    let pos: Option<Vec<N>> = if ids.len() > 64 { Some(m.positions()) } else { None };
    for (i, &id) in ids.iter().enumerate() {
        if out.len() > 200 {
            return;
        }
        let node = f.node(id);
        let data = f.data(id);
        let mn = match &m.nodes[i] {
            None => {
                if node.is_some() || data.is_some() {
                    out.push(Mismatch {
                        aspect: Aspect::Live,
                        what: format!(
                            "#{i} is removed, but node() is {} and data() is {:?}",
                            if node.is_some() { "some" } else { "none" },
                            data
                        ),
                    });
                }
                continue;
            }
            Some(mn) => mn,
        };
        let (node, data) = match (node, data) {
            (Some(n), Some(d)) => (n, d),
            (n, d) => {
                out.push(Mismatch {
                    aspect: Aspect::Live,
                    what: format!(
                        "#{i} is alive, but node() is {} and data() is {:?}",
                        if n.is_some() { "some" } else { "none" },
                        d
                    ),
                });
                continue;
            }
        };
        if data.tag() != mn.tag || node.data().tag() != mn.tag {
            out.push(Mismatch {
                aspect: Aspect::Data,
                what: format!("#{i} holds payload {:?}, not the one with tag {}", data, mn.tag),
            });
        }
        let (mut prev, mut next) = (None, None);
        if let Some(p) = mn.parent {
            let sib = &m.nodes[p as usize].as_ref().expect("alive").children;
            let k = match &pos {
                Some(v) => v[i] as usize,
                None => sib.iter().position(|&c| c as usize == i).expect("listed"),
            };
            prev = k.checked_sub(1).map(|k| sib[k]);
            next = sib.get(k + 1).copied();
        }
        let links = [
            ("parent", mn.parent, node.parent_id()),
            ("previous sibling", prev, node.prev_sibling_id()),
            ("next sibling", next, node.next_sibling_id()),
            ("first child", mn.children.first().copied(), node.first_child_id()),
            ("last child", mn.children.last().copied(), node.last_child_id()),
        ];
        for (name, want, got) in links {
            let want_id = want.map(|x| ids[x as usize]);
            if want_id != got {
                out.push(Mismatch {
                    aspect: Aspect::Links,
                    what: format!(
                        "{name} of #{i} is {}, should be {}",
                        show(ids, got),
                        show(ids, want_id)
                    ),
                });
            }
        }
    }
    // No live node but the known ones.
    for p in ctx.unknown(ids).take(4).chain(ctx.unknown(ids).next_back()) {
        if f.node(p).is_some() || f.data(p).is_some() {
            out.push(Mismatch {
                aspect: Aspect::Live,
                what: format!("id {p:?} was never handed out but answers as alive"),
            });
        }
    }
}

/// The ids of the tree below `root` in preorder, as the forest answers; at most `max` of them.
pub fn walk<I: Idt, P: Pay>(f: &Forest<I, P>, root: I, max: usize) -> Vec<I> {
    let mut out = Vec::new();
    let mut st = vec![root];
    while let Some(x) = st.pop() {
        out.push(x);
        if out.len() > max {
            break;
        }
        let n = match f.node(x) {
            Some(n) => n,
            None => break,
        };
        let mut kids = Vec::new();
        let mut c = n.first_child_id();
        while let Some(k) = c {
            kids.push(k);
            if kids.len() > max {
                break;
            }
            c = f.node(k).and_then(|k| k.next_sibling_id());
        }
        st.extend(kids.iter().rev());
        if st.len() > 2 * max + 16 {
            break;
        }
    }
    out
}

/// Checks what a call did against what it must do. On success the world's model and ids are those
/// after the call.
pub fn settle<I: Idt, P: Pay>(
    ctx: &Ctx<I, P>,
    w: &mut World<I, P>,
    op: Op,
    ex: &Expect,
    ac: &Actual<I>,
) -> Result<Option<&'static str>, Vec<Mismatch>> {
    let mut bad = Vec::new();
    let mut known = None;
    let silent = ex.silent_known.filter(|_| ac.outcome == OK);
    if ac.outcome & ex.allowed == 0 {
        if silent.is_some() {
            known = silent;
        } else {
            bad.push(Mismatch {
                aspect: Aspect::Outcome,
                what: format!(
                    "the call ended with {}{}, should be {}",
                    if ac.outcome == 0 { "an unknown error".into() } else { mask_text(ac.outcome) },
                    if ac.msg.is_empty() { String::new() } else { format!(" ({})", ac.msg) },
                    mask_text(ex.allowed)
                ),
            });
        }
    }
    if ac.outcome == PANIC && ex.allowed & PANIC == 0 {
        bad.push(Mismatch { aspect: Aspect::ValidPanic, what: format!("the call panicked: {}", ac.msg) });
    }
    if ac.outcome == PANIC && !ac.msg.contains("[precondition]") {
        bad.push(Mismatch {
            aspect: Aspect::PanicMsg,
            what: format!("panic not marked as a precondition: {}", ac.msg),
        });
    }
    if bad.iter().any(|b| b.aspect == Aspect::Outcome) {
        if !ex.valid() && ac.outcome & (OK | USERPANIC) == 0 {
            // Refused, but in a wrong way: whether anything changed is still a question.
            compare(ctx, &w.forest, &w.ids, &ex.cands[0], &mut bad);
        }
        return Err(bad);
    }
    // New ids.
    let mut ids = w.ids.clone();
    if ex.new_nodes > 0 {
        let root = ac.new_root.expect("a successful creation returns an id");
        let new = if ex.new_nodes == 1 {
            vec![root]
        } else {
            match guard(|| walk(&w.forest, root, ex.new_nodes)) {
                Ok(v) => v,
                Err(p) => {
                    bad.push(Mismatch {
                        aspect: Aspect::Links,
                        what: format!("walking the new tree panicked: {}", p.msg),
                    });
                    return Err(bad);
                }
            }
        };
        let mut seen: Option<std::collections::HashSet<I, CheapHash>> =
            if new.len() > 24 { Some(ids.iter().copied().collect()) } else { None };
        for (i, n) in new.iter().enumerate() {
            let known = match &mut seen {
                Some(s) => !s.insert(*n),
                None => ids.contains(n) || new[..i].contains(n),
            };
            if known {
                bad.push(Mismatch {
                    aspect: Aspect::NewId,
                    what: format!("new node got id {n:?}, which was handed out before"),
                });
            }
        }
        if new.len() != ex.new_nodes {
            bad.push(Mismatch {
                aspect: Aspect::Links,
                what: format!("the new tree has {} nodes, should have {}", new.len(), ex.new_nodes),
            });
        }
        if !bad.is_empty() {
            return Err(bad);
        }
        ids.extend(new);
        if let (Some(pairs), true) = (
            &ex.pairs,
            matches!(
                op,
                Op::CloneLocal { map: true, .. }
                    | Op::CloneForeign { map: true, .. }
                    | Op::CloneTwin { map: true, .. }
            ),
        ) {
            let src_ids: &[I] =
                if matches!(op, Op::CloneForeign { .. }) { &ctx.donor.ids } else { &w.ids };
            let want: Vec<(I, I)> =
                pairs.iter().map(|&(s, d)| (src_ids[s as usize], ids[d as usize])).collect();
            let same = want.len() == ac.mapping.len()
                && if want.len() > 24 {
                    let got: std::collections::HashSet<(I, I), CheapHash> = ac.mapping.iter().copied().collect();
                    want.iter().all(|p| got.contains(p))
                } else {
                    want.iter().all(|p| ac.mapping.contains(p))
                };
            if !same {
                bad.push(Mismatch {
                    aspect: Aspect::Mapping,
                    what: format!("mapping reported {:?}, should be {:?}", ac.mapping, want),
                });
            }
        }
    }
    // Callback.
    if let Some(h) = &ex.hook {
        if ac.hook.iter().map(|x| x.0).ne(h.iter().copied()) {
            let got: Vec<u32> = ac.hook.iter().map(|x| x.0).collect();
            bad.push(Mismatch {
                aspect: Aspect::Hook,
                what: format!("the callback got payloads {got:?}, should be {h:?}"),
            });
        }
    }
    // State.
    let mut first: Option<Vec<Mismatch>> = None;
    for m in &ex.cands {
        let mut cids = ids.clone();
        if m.nodes.len() > cids.len() {
            // An orphan of a refused creation: find its id.
            let found = guard(|| {
                ctx.unknown(&cids).take(16).find(|p| w.forest.node(*p).is_some())
            });
            match found {
                Ok(Some(id)) => cids.push(id),
                _ => continue,
            }
        }
        let mut diff = Vec::new();
        compare(ctx, &w.forest, &cids, m, &mut diff);
        if diff.is_empty() {
            if bad.is_empty() {
                w.ids = cids;
                let old = std::mem::replace(&mut w.model, m.clone());
                if ex.pairs.is_some() {
                    return retag(ctx, w, &old).map(|()| known);
                }
                return Ok(known);
            }
            return Err(bad);
        }
        if first.is_none() {
            first = Some(diff);
        }
    }
    bad.extend(first.unwrap_or_default());
    Err(bad)
}

/// A fresh forest in the same abstract state, built by creations, removals and last-child
/// insertions only.
pub fn rebuild<I: Idt, P: Pay>(ctx: &Ctx<I, P>, m: &Model) -> Option<World<I, P>> {
    let mut w = World::<I, P>::empty();
    guard(|| {
        for n in &m.nodes {
            let id = w.forest.create_root(P::make(n.as_ref().map_or(0, |n| n.tag)));
            w.ids.push(id);
        }
        for (i, n) in m.nodes.iter().enumerate() {
            match n {
                None => w.forest.remove(w.ids[i]),
                Some(n) => {
                    for &c in &n.children {
                        w.forest
                            .insert(w.ids[c as usize], InsertAs::LastChildOf(w.ids[i]))
                            .expect("[harness] rebuilding");
                    }
                }
            }
        }
    })
    .ok()?;
    w.model = m.clone().into();
    let mut bad = Vec::new();
    compare(ctx, &w.forest, &w.ids, m, &mut bad);
    if bad.is_empty() {
        Some(w)
    } else {
        None
    }
}

/// Gives the nodes of a fresh copy payloads of their own, through the public mutable access, and
/// checks that this changes nothing else. It makes every node's payload unique again.
fn retag<I: Idt, P: Pay>(ctx: &Ctx<I, P>, w: &mut World<I, P>, old: &Model) -> Result<(), Vec<Mismatch>> {
    let base = old.nodes.len();
    let f = &mut w.forest;
    let ids = &w.ids;
    let r = guard(|| {
        for (k, &id) in ids[base..].iter().enumerate() {
            if let Some(d) = f.data_mut(id) {
                *d = P::make(tag_of(old.attempts + k as u32));
            }
        }
    });
    if let Err(p) = r {
        return Err(vec![Mismatch { aspect: Aspect::Data, what: format!("data_mut panicked: {}", p.msg) }]);
    }
    for i in base..w.model.nodes.len() {
        std::sync::Arc::make_mut(&mut w.model).nm(i as N).tag = tag_of(old.attempts + (i - base) as u32);
    }
    let mut diff = Vec::new();
    compare(ctx, &w.forest, &w.ids, &w.model, &mut diff);
    if diff.is_empty() {
        Ok(())
    } else {
        for d in &mut diff {
            d.what = format!("after writing new payloads to the copy: {}", d.what);
        }
        Err(diff)
    }
}

// ---------------------------------------------------------------- enumeration

/// Which nodes are used as arguments.
pub enum Args {
    /// Every node ever created, and both kinds of unknown ids.
    All,
    /// These nodes only, and both kinds of unknown ids.
    Some(Vec<N>),
}

/// All operations on a forest with the given model state.
///
/// `budget` is the number of nodes that may still be created.
pub fn enumerate<I: Idt, P: Pay>(ctx: &Ctx<I, P>, m: &Model, args: &Args, budget: usize, out: &mut Vec<Op>) {
    out.clear();
    let mut a: Vec<N> = match args {
        Args::All => (0..m.nodes.len() as N).collect(),
        Args::Some(v) => v.clone(),
    };
    let live: Vec<N> = a.iter().copied().filter(|&x| m.alive(x)).collect();
    a.push(NEXT);
    a.push(FAR);
    if budget > 0 {
        out.push(Op::CreateRoot);
        for &anchor in &a {
            for place in PLACES {
                for via in VIAS {
                    out.push(Op::Create { via, place, anchor });
                }
            }
        }
    }
    for &anchor in &a {
        for &node in &a {
            for place in PLACES {
                for via in IVIAS {
                    out.push(Op::Insert { via, node, place, anchor });
                }
            }
        }
    }
    for &node in &a {
        for via in VIAS {
            out.push(Op::Detach { via, node });
            out.push(Op::DetachSingle { via, node });
            for form in FORMS {
                out.push(Op::Remove { form, via, node });
            }
        }
        if !m.alive(node) {
            for map in [false, true] {
                out.push(Op::CloneLocal { map, node });
            }
        }
    }
    for &node in &live {
        let size = m.size(node);
        let mut ks: Vec<N> = (0..size as N).collect();
        if size > 400 {
            let s = size as N;
            ks = vec![0, 1, 2, s / 2, s - 2, s - 1];
        }
        for k in ks {
            for via in VIAS {
                out.push(Op::RemovePanic { via, node, k });
            }
        }
        if size <= budget {
            for map in [false, true] {
                out.push(Op::CloneLocal { map, node });
                out.push(Op::CloneTwin { map, node });
            }
        }
    }
    for node in [1, 2, 5, 8, 10, 3] {
        if ctx.donor.model.size(node) <= budget {
            for map in [false, true] {
                out.push(Op::CloneForeign { map, node });
            }
        }
    }
}

/// Whether an operation is of a form that suffices to reach every state.
pub fn basic_kind(op: Op) -> bool {
    match op {
        Op::CreateRoot => true,
        Op::Create { via, .. } => via == Via::Forest,
        Op::Insert { via, .. } => via == IVia::Insert,
        Op::Detach { via, .. } | Op::DetachSingle { via, .. } => via == Via::Forest,
        Op::Remove { via, .. } | Op::RemovePanic { via, .. } => via == Via::Forest,
        Op::CloneLocal { map, .. } | Op::CloneForeign { map, .. } => !map,
        Op::CloneTwin { .. } => false,
    }
}

/// Whether an operation is one of those that suffice to reach every state.
pub fn basic(op: Op, ex: &Expect) -> bool {
    basic_kind(op) && ex.allowed & (OK | USERPANIC) != 0
}
