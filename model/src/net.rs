//! Reference semantics of federated Byzantine agreement systems, straight from the definitions.
use std::collections::{BTreeMap, BTreeSet};

/// A quorum set: at least `t` of the members (validators `v` and inner sets `i`) must agree.
/// `u` members refer to nodes that do not exist; `t == 0` marks a badly configured quorum set
/// that nothing satisfies.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Q {
    pub t: u64,
    pub v: Vec<usize>,
    pub i: Vec<Q>,
    pub u: usize,
}
pub type Set = BTreeSet<usize>;

impl Q {
    pub fn flat(t: u64, v: Vec<usize>) -> Q {
        Q { t, v, i: vec![], u: 0 }
    }
    pub fn nest(t: u64, v: Vec<usize>, i: Vec<Q>) -> Q {
        Q { t, v, i, u: 0 }
    }
    pub fn sat(&self, inside: &dyn Fn(usize) -> bool) -> bool {
        if self.t == 0 {
            return false;
        }
        let mut n: u64 = 0;
        for &x in &self.v {
            if inside(x) {
                n += 1;
            }
        }
        for q in &self.i {
            if q.sat(inside) {
                n += 1;
            }
        }
        n >= self.t
    }
    pub fn sat_mask(&self, m: u64) -> bool {
        if self.t == 0 {
            return false;
        }
        let mut n: u64 = 0;
        for &x in &self.v {
            n += (m >> x) & 1;
        }
        for q in &self.i {
            n += q.sat_mask(m) as u64;
        }
        n >= self.t
    }
    pub fn sat_set(&self, s: &Set) -> bool {
        self.sat(&|x| s.contains(&x))
    }
    pub fn occurrences(&self, out: &mut Vec<usize>) {
        out.extend(&self.v);
        for q in &self.i {
            q.occurrences(out);
        }
    }
    pub fn nodes(&self) -> Set {
        let mut o = vec![];
        self.occurrences(&mut o);
        o.into_iter().collect()
    }
    pub fn has_dups(&self) -> bool {
        let mut o = vec![];
        self.occurrences(&mut o);
        let n = o.len();
        o.sort();
        o.dedup();
        o.len() != n
    }
    pub fn depth(&self) -> usize {
        1 + self.i.iter().map(|q| q.depth()).max().unwrap_or(0)
    }
    pub fn members(&self) -> usize {
        self.v.len() + self.i.len()
    }
    /// Rename nodes; `None` turns the member into one that does not exist.
    pub fn rename(&self, f: &dyn Fn(usize) -> Option<usize>) -> Q {
        let mut v = vec![];
        let mut u = self.u;
        for &x in &self.v {
            match f(x) {
                Some(y) => v.push(y),
                None => u += 1,
            }
        }
        Q {
            t: self.t,
            v,
            i: self.i.iter().map(|q| q.rename(f)).collect(),
            u,
        }
    }
    /// Order-insensitive normal form, without the members that do not exist.
    pub fn norm(&self) -> Q {
        let mut v = self.v.clone();
        v.sort();
        let mut i: Vec<Q> = self.i.iter().map(|q| q.norm()).collect();
        i.sort();
        Q { t: self.t, v, i, u: 0 }
    }
    /// Random re-ordering of members at every level (semantically void).
    pub fn shuffled(&self, rng: &mut crate::Rng) -> Q {
        let mut q = self.clone();
        rng.shuffle(&mut q.v);
        rng.shuffle(&mut q.i);
        q.i = q.i.iter().map(|x| x.shuffled(rng)).collect();
        q
    }
    pub fn any_level(&self, f: &dyn Fn(&Q) -> bool) -> bool {
        f(self) || self.i.iter().any(|q| q.any_level(f))
    }
    /// Number of ways to pick a minimal slice, saturating: bounds the cost of slice enumeration.
    pub fn slice_count(&self) -> f64 {
        // elementary symmetric polynomial of degree t over member counts
        let mut w: Vec<f64> = vec![1.0; self.v.len()];
        w.extend(self.i.iter().map(|q| q.slice_count()));
        if self.t as usize > w.len() || self.t > 64 {
            return 0.0;
        }
        let t = self.t as usize;
        let mut e = vec![0.0; t + 1];
        e[0] = 1.0;
        for x in w {
            for k in (1..=t).rev() {
                e[k] += e[k - 1] * x;
            }
        }
        e[t]
    }
    pub fn show(&self) -> String {
        let mut parts: Vec<String> = self.v.iter().map(|x| x.to_string()).collect();
        parts.extend((0..self.u).map(|_| "?".to_string()));
        parts.extend(self.i.iter().map(|q| q.show()));
        format!("{{{} of {}}}", self.t, parts.join(" "))
    }
}

/// An FBAS: node i has public key `pks[i]` and quorum set `qs[i]`.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Net {
    pub pks: Vec<String>,
    pub qs: Vec<Q>,
    pub kind: String,
}

pub fn default_pks(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("n{}", i)).collect()
}

impl Net {
    pub fn new(qs: Vec<Q>) -> Net {
        Net {
            pks: default_pks(qs.len()),
            qs,
            kind: String::new(),
        }
    }
    pub fn n(&self) -> usize {
        self.qs.len()
    }
    pub fn is_quorum(&self, s: &Set) -> bool {
        !s.is_empty() && s.iter().all(|&x| self.qs[x].sat_set(s))
    }
    /// Greatest quorum contained in `start` (empty if there is none).
    pub fn greatest_quorum(&self, start: &Set) -> Set {
        let n = self.n();
        let mut inside = vec![false; n];
        for &x in start {
            inside[x] = true;
        }
        loop {
            let mut changed = false;
            for x in 0..n {
                if inside[x] && !self.qs[x].sat(&|y| inside[y]) {
                    inside[x] = false;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        (0..n).filter(|&x| inside[x]).collect()
    }
    pub fn all(&self) -> Set {
        (0..self.n()).collect()
    }
    pub fn satisfiable(&self) -> Set {
        self.greatest_quorum(&self.all())
    }
    /// reach[a] = nodes reachable from a over trust links (including a)
    pub fn reach(&self) -> Vec<Set> {
        let n = self.n();
        let succ: Vec<Set> = self.qs.iter().map(|q| q.nodes()).collect();
        (0..n)
            .map(|a| {
                let mut seen = Set::new();
                let mut todo = vec![a];
                while let Some(x) = todo.pop() {
                    if seen.insert(x) {
                        todo.extend(succ[x].iter().copied());
                    }
                }
                seen
            })
            .collect()
    }
    /// Classes of mutual reachability.
    pub fn sccs(&self) -> Vec<Set> {
        let r = self.reach();
        let mut out: BTreeSet<Set> = BTreeSet::new();
        for a in 0..self.n() {
            out.insert(
                r[a].iter()
                    .copied()
                    .filter(|&b| r[b].contains(&a))
                    .collect(),
            );
        }
        out.into_iter().collect()
    }
    pub fn renamed(&self, perm: &[usize]) -> Net {
        // node i becomes perm[i]
        let n = self.n();
        let mut pks = vec![String::new(); n];
        let mut qs = vec![Q::default(); n];
        for i in 0..n {
            pks[perm[i]] = self.pks[i].clone();
            qs[perm[i]] = self.qs[i].rename(&|x| Some(perm[x]));
        }
        Net {
            pks,
            qs,
            kind: self.kind.clone(),
        }
    }
    pub fn show(&self) -> String {
        let nodes: Vec<String> = self
            .qs
            .iter()
            .enumerate()
            .map(|(i, q)| {
                if self.pks[i] == format!("n{}", i) {
                    format!("{}:{}", i, q.show())
                } else {
                    format!("{}({:?}):{}", i, self.pks[i], q.show())
                }
            })
            .collect();
        format!("[{}] {}", self.kind, nodes.join(" "))
    }
}

pub fn mask_to_set(m: u64, ids: &[usize]) -> Set {
    (0..ids.len())
        .filter(|&b| (m >> b) & 1 == 1)
        .map(|b| ids[b])
        .collect()
}

/// Everything the definitions say about a (small) FBAS, by enumerating all subsets of the
/// satisfiable nodes.
#[derive(Clone, Debug)]
pub struct Truth {
    pub sat: Vec<usize>,
    pub mq: BTreeSet<Set>,
    pub mbs: BTreeSet<Set>,
    pub mss: BTreeSet<Set>,
    pub qi: bool,
    pub top: Set,
    pub quorum_count: usize,
}

pub const MAX_K: usize = 15;

impl Truth {
    /// `None` when there are too many satisfiable nodes to enumerate.
    pub fn of(net: &Net) -> Option<Truth> {
        Truth::of_up_to(net, MAX_K)
    }
    pub fn of_up_to(net: &Net, max_k: usize) -> Option<Truth> {
        let all_sat: Vec<usize> = net.satisfiable().into_iter().collect();
        // A node that no other remaining node refers to is in a minimal quorum only if it is a
        // quorum on its own: whatever other quorum it is in stays a quorum without it.
        let mut uni: Set = all_sat.iter().copied().collect();
        let refs: Vec<Set> = net.qs.iter().map(|q| q.nodes()).collect();
        loop {
            let drop: Vec<usize> = uni
                .iter()
                .copied()
                .filter(|&x| {
                    !uni.iter().any(|&y| y != x && refs[y].contains(&x))
                        && !net.is_quorum(&std::iter::once(x).collect())
                })
                .collect();
            if drop.is_empty() {
                break;
            }
            for x in drop {
                uni.remove(&x);
            }
        }
        let sat: Vec<usize> = uni.into_iter().collect();
        let k = sat.len();
        if k > max_k {
            return None;
        }
        let mut pos = vec![usize::MAX; net.n()];
        for (b, &x) in sat.iter().enumerate() {
            pos[x] = b;
        }
        let qs: Vec<Q> = sat
            .iter()
            .map(|&x| {
                net.qs[x].rename(&|y| {
                    if pos[y] == usize::MAX {
                        None
                    } else {
                        Some(pos[y])
                    }
                })
            })
            .collect();
        let size = 1usize << k;
        // is there a quorum inside m? (least over subsets; minimal iff m is a quorum and no subset is)
        let mut inside = vec![false; size];
        let mut mq_masks: Vec<u64> = vec![];
        let mut quorum_count = 0;
        for m in 1..size {
            let mut sub = false;
            for b in 0..k {
                if m >> b & 1 == 1 && inside[m & !(1 << b)] {
                    sub = true;
                    break;
                }
            }
            let isq = (0..k).all(|b| m >> b & 1 == 0 || qs[b].sat_mask(m as u64));
            if isq {
                quorum_count += 1;
            }
            if isq && !sub {
                mq_masks.push(m as u64);
            }
            inside[m] = sub || isq;
        }
        let full = size - 1;
        let mut mbs: BTreeSet<Set> = BTreeSet::new();
        for m in 0..size {
            let blocking = !inside[full & !m];
            if blocking
                && (0..k).all(|b| m >> b & 1 == 0 || inside[full & !(m & !(1 << b))])
            {
                mbs.insert(mask_to_set(m as u64, &sat));
            }
        }
        let mut qi = !mq_masks.is_empty();
        let mut inter: BTreeSet<u64> = BTreeSet::new();
        for (a, x) in mq_masks.iter().enumerate() {
            for y in &mq_masks[a + 1..] {
                if x & y == 0 {
                    qi = false;
                }
                inter.insert(x & y);
            }
        }
        let mss = if qi {
            minimal_masks(inter.into_iter().collect())
                .into_iter()
                .map(|m| mask_to_set(m, &sat))
                .collect()
        } else {
            std::iter::once(Set::new()).collect()
        };
        let mq: BTreeSet<Set> = mq_masks.iter().map(|&m| mask_to_set(m, &sat)).collect();
        let top = mq.iter().flatten().copied().collect();
        Some(Truth {
            sat: all_sat,
            mq,
            mbs,
            mss,
            qi,
            top,
            quorum_count,
        })
    }
}

pub fn minimal_masks(mut ms: Vec<u64>) -> Vec<u64> {
    ms.sort_by_key(|m| (m.count_ones(), *m));
    ms.dedup();
    let mut out: Vec<u64> = vec![];
    for m in ms {
        if out.iter().all(|o| o & m != *o) {
            out.push(m);
        }
    }
    out
}

/// The inclusion-minimal members of a family, by the definition.
pub fn minimal_sets(fam: &[Set]) -> BTreeSet<Set> {
    let all: BTreeSet<Set> = fam.iter().cloned().collect();
    all.iter()
        .filter(|x| !all.iter().any(|y| y != *x && y.is_subset(x)))
        .cloned()
        .collect()
}

/// Minimal transversals (hitting sets) of a family over up to 128 nodes, by Berge multiplication.
/// `None` when an intermediate family exceeds `limit`.
pub fn transversals(fam: &[u128], limit: usize) -> Option<Vec<u128>> {
    let mut fam = fam.to_vec();
    fam.sort_by_key(|m| (m.count_ones(), *m));
    let mut cur: Vec<u128> = vec![0];
    for e in fam {
        let (hit, miss): (Vec<u128>, Vec<u128>) = cur.into_iter().partition(|t| t & e != 0);
        let mut next = hit.clone();
        for t in miss {
            let mut rest = e;
            while rest != 0 {
                let b = rest & rest.wrapping_neg();
                rest ^= b;
                let c = t | b;
                if !hit.iter().any(|h| h & c == *h) {
                    next.push(c);
                }
            }
        }
        next.sort();
        next.dedup();
        if next.len() > limit {
            return None;
        }
        cur = next;
    }
    // final minimality pass
    cur.sort_by_key(|m| (m.count_ones(), *m));
    let mut out: Vec<u128> = vec![];
    for m in cur {
        if !out.iter().any(|o| o & m == *o) {
            out.push(m);
        }
    }
    Some(out)
}

/// All minimal slices of a quorum set: minimal sets satisfying it.
pub fn minimal_slices(q: &Q) -> Option<BTreeSet<Set>> {
    let ids: Vec<usize> = q.nodes().into_iter().collect();
    if ids.len() > 16 {
        return None;
    }
    let pos: BTreeMap<usize, usize> = ids.iter().enumerate().map(|(a, &b)| (b, a)).collect();
    let c = q.rename(&|x| Some(pos[&x]));
    let mut good = vec![];
    for m in 0..(1u64 << ids.len()) {
        if c.sat_mask(m) {
            good.push(m);
        }
    }
    Some(
        minimal_masks(good)
            .into_iter()
            .map(|m| mask_to_set(m, &ids))
            .collect(),
    )
}
