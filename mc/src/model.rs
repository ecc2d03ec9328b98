//! The reference model: a list of nodes, each with its parent and its list of children.
//!
//! Nodes are numbered by creation order and never renumbered, a removed node is `None`.

/// Number of a node.
pub type N = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MNode {
    pub parent: Option<N>,
    pub children: Vec<N>,
    pub tag: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Model {
    pub nodes: Vec<Option<MNode>>,
    /// Number of nodes whose creation has been attempted.
    pub attempts: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Place {
    First,
    Last,
    Prev,
    Next,
}

pub const PLACES: [Place; 4] = [Place::First, Place::Last, Place::Prev, Place::Next];

impl Place {
    pub fn child(self) -> bool {
        matches!(self, Place::First | Place::Last)
    }
}

impl Model {
    pub fn alive(&self, n: N) -> bool {
        self.nodes.get(n as usize).map_or(false, Option::is_some)
    }
    #[inline]
    pub fn n(&self, n: N) -> &MNode {
        self.nodes[n as usize].as_ref().expect("model: alive node")
    }
    #[inline]
    pub fn nm(&mut self, n: N) -> &mut MNode {
        self.nodes[n as usize].as_mut().expect("model: alive node")
    }
    pub fn live(&self) -> impl Iterator<Item = N> + '_ {
        (0..self.nodes.len() as N).filter(move |&i| self.alive(i))
    }
    pub fn live_count(&self) -> usize {
        self.nodes.iter().filter(|n| n.is_some()).count()
    }
    /// Whether `a` is a proper ancestor of `b`.
    pub fn is_ancestor(&self, a: N, b: N) -> bool {
        let mut cur = self.n(b).parent;
        while let Some(p) = cur {
            if p == a {
                return true;
            }
            cur = self.n(p).parent;
        }
        false
    }
    pub fn pos(&self, n: N) -> Option<(N, usize)> {
        let p = self.n(n).parent?;
        let i = self.n(p).children.iter().position(|&c| c == n).expect("model: child listed");
        Some((p, i))
    }
    /// Every listed child's index in its parent's list.
    pub fn positions(&self) -> Vec<N> {
        let mut out = vec![0; self.nodes.len()];
        for n in self.nodes.iter().flatten() {
            for (k, &c) in n.children.iter().enumerate() {
                out[c as usize] = k as N;
            }
        }
        out
    }
    pub fn prev(&self, n: N) -> Option<N> {
        let (p, i) = self.pos(n)?;
        i.checked_sub(1).map(|i| self.n(p).children[i])
    }
    pub fn next(&self, n: N) -> Option<N> {
        let (p, i) = self.pos(n)?;
        self.n(p).children.get(i + 1).copied()
    }
    pub fn preorder(&self, n: N) -> Vec<N> {
        let mut out = Vec::new();
        let mut st = vec![n];
        while let Some(x) = st.pop() {
            out.push(x);
            st.extend(self.n(x).children.iter().rev());
        }
        out
    }
    pub fn postorder(&self, n: N) -> Vec<N> {
        // Reverse of the preorder with children visited right to left.
        let mut out = Vec::new();
        let mut st = vec![n];
        while let Some(x) = st.pop() {
            out.push(x);
            st.extend(self.n(x).children.iter());
        }
        out.reverse();
        out
    }
    pub fn size(&self, n: N) -> usize {
        self.preorder(n).len()
    }
    pub fn add_root(&mut self, tag: u32) -> N {
        self.nodes.push(Some(MNode { parent: None, children: Vec::new(), tag }));
        self.nodes.len() as N - 1
    }
    pub fn detach(&mut self, n: N) {
        if let Some((p, i)) = self.pos(n) {
            self.nm(p).children.remove(i);
            self.nm(n).parent = None;
        }
    }
    /// Puts a root at a place. The anchor of a sibling place must not be a root.
    pub fn attach(&mut self, n: N, place: Place, anchor: N) {
        let (p, i) = match place {
            Place::First => (anchor, 0),
            Place::Last => (anchor, self.n(anchor).children.len()),
            Place::Prev => self.pos(anchor).expect("model: anchor has a parent"),
            Place::Next => {
                let (p, i) = self.pos(anchor).expect("model: anchor has a parent");
                (p, i + 1)
            }
        };
        self.nm(p).children.insert(i, n);
        self.nm(n).parent = Some(p);
    }
    /// Moves a subtree to a place it may be moved to.
    pub fn move_to(&mut self, n: N, place: Place, anchor: N) {
        self.detach(n);
        self.attach(n, place, anchor);
    }
    /// Detaches a single node. Must not be a root with several children.
    pub fn detach_single(&mut self, n: N) {
        let kids = std::mem::take(&mut self.nm(n).children);
        match self.pos(n) {
            Some((p, i)) => {
                self.nm(n).parent = None;
                self.nm(p).children.splice(i..=i, kids.iter().copied());
                for k in kids {
                    self.nm(k).parent = Some(p);
                }
            }
            None => {
                for k in kids {
                    self.nm(k).parent = None;
                }
            }
        }
    }
    pub fn remove(&mut self, n: N) {
        let all = self.preorder(n);
        self.detach(n);
        for x in all {
            self.nodes[x as usize] = None;
        }
    }
    /// Removes nodes of which no live node is a descendant.
    pub fn remove_all(&mut self, dead: &[N]) {
        let mut parents: Vec<N> = dead.iter().filter_map(|&d| self.n(d).parent).collect();
        parents.sort_unstable();
        parents.dedup();
        for &d in dead {
            self.nodes[d as usize] = None;
        }
        for p in parents {
            if self.alive(p) {
                let mut kids = std::mem::take(&mut self.nm(p).children);
                kids.retain(|&k| self.alive(k));
                self.nm(p).children = kids;
            }
        }
    }
    /// Depth of every live node.
    pub fn depths(&self) -> Vec<u32> {
        let mut d = vec![0; self.nodes.len()];
        for r in self.live().filter(|&r| self.n(r).parent.is_none()) {
            for x in self.preorder(r) {
                if let Some(p) = self.n(x).parent {
                    d[x as usize] = d[p as usize] + 1;
                }
            }
        }
        d
    }
    /// Copies a subtree of `src` as a new tree; returns (source, copy) in preorder.
    pub fn copy_from(&mut self, src: &Model, n: N) -> Vec<(N, N)> {
        let order = src.preorder(n);
        let base = self.nodes.len() as N;
        let index: Option<std::collections::HashMap<N, N>> = if order.len() > 40 {
            Some(order.iter().enumerate().map(|(i, &y)| (y, i as N)).collect())
        } else {
            None
        };
        let new = |x: N| {
            base + match &index {
                Some(h) => h[&x],
                None => order.iter().position(|&y| y == x).expect("in subtree") as N,
            }
        };
        let mut add = Vec::new();
        for &x in &order {
            let s = src.n(x);
            add.push(Some(MNode {
                parent: if x == n { None } else { s.parent.map(new) },
                children: s.children.iter().map(|&c| new(c)).collect(),
                tag: s.tag,
            }));
        }
        self.nodes.extend(add);
        order.iter().enumerate().map(|(i, &x)| (x, base + i as N)).collect()
    }
    /// Pretty text, e.g. `0(1 2(3)) 4 dead:5`.
    pub fn text(&self) -> String {
        fn go(m: &Model, n: N, o: &mut String) {
            o.push_str(&n.to_string());
            let k = &m.n(n).children;
            if !k.is_empty() {
                o.push('(');
                for (i, &c) in k.iter().enumerate() {
                    if i > 0 {
                        o.push(' ');
                    }
                    go(m, c, o);
                }
                o.push(')');
            }
        }
        if self.nodes.len() > 600 {
            return format!(
                "{} nodes, {} of them live, in {} trees",
                self.nodes.len(),
                self.live_count(),
                self.live().filter(|&r| self.n(r).parent.is_none()).count()
            );
        }
        let mut o = String::new();
        for r in self.live().filter(|&r| self.n(r).parent.is_none()) {
            if !o.is_empty() {
                o.push(' ');
            }
            go(self, r, &mut o);
        }
        let dead: Vec<String> =
            (0..self.nodes.len() as N).filter(|&i| !self.alive(i)).map(|i| i.to_string()).collect();
        if !dead.is_empty() {
            o.push_str(" dead:");
            o.push_str(&dead.join(","));
        }
        o
    }
    /// Own consistency check, run on every reached model state.
    pub fn check(&self) -> bool {
        let mut listed = vec![0u8; self.nodes.len()];
        for i in self.live() {
            for &c in &self.n(i).children {
                if !self.alive(c) || self.n(c).parent != Some(i) {
                    return false;
                }
                listed[c as usize] += 1;
                if listed[c as usize] > 1 {
                    return false;
                }
            }
        }
        let ok = self.live().all(|i| match self.n(i).parent {
            None => listed[i as usize] == 0,
            Some(p) => self.alive(p) && listed[i as usize] == 1,
        });
        ok && self.live().filter(|&r| self.n(r).parent.is_none()).map(|r| self.size(r)).sum::<usize>()
            == self.live_count()
    }
}
