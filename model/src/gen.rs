//! Workload generators: families of FBASs chosen to drive different regimes of the analyser.
use crate::net::*;
use crate::rng::Rng;

/// Thresholds with a bias to the interesting ends.
pub fn threshold(rng: &mut Rng, members: usize) -> u64 {
    let m = members as u64;
    if members == 0 {
        return rng.below(2) as u64;
    }
    match rng.below(20) {
        0 => 1,
        1 => m,
        2 => m + 1,
        3 => 0,
        4..=7 => (m / 2 + 1).min(m),
        8..=11 => (m - (m - 1) / 3).max(1),
        _ => 1 + rng.below(members) as u64,
    }
}
/// Never 0 and never more than `members`.
pub fn sane_threshold(rng: &mut Rng, members: usize) -> u64 {
    let m = members.max(1) as u64;
    match rng.below(8) {
        0 => 1,
        1 => m,
        2 | 3 => m / 2 + 1,
        4 | 5 => m - (m - 1) / 3,
        _ => 1 + rng.below(m as usize) as u64,
    }
}

pub fn random_flat(rng: &mut Rng, n: usize) -> Net {
    let ids: Vec<usize> = (0..n).collect();
    let dens = rng.range(1, n);
    let qs = (0..n)
        .map(|i| {
            let k = rng.range(1, dens);
            let mut v = rng.sample(&ids, k);
            if rng.chance(4, 5) && !v.contains(&i) {
                v.push(i);
            }
            let t = if rng.chance(4, 5) {
                sane_threshold(rng, v.len())
            } else {
                threshold(rng, v.len())
            };
            Q::flat(t, v)
        })
        .collect();
    Net::new(qs)
}

/// A random quorum set over `ids`, each node appearing at most once unless `dups`.
pub fn random_q(rng: &mut Rng, ids: &[usize], depth: usize, dups: bool, sane: bool) -> Q {
    let k = rng.below(ids.len() + 1);
    let mut chosen = rng.sample(ids, k);
    if dups && !chosen.is_empty() {
        for _ in 0..rng.below(3) {
            let x = *rng.pick(&chosen);
            chosen.push(x);
        }
    }
    build_q(rng, &chosen, depth, sane)
}
/// Distribute all of `chosen` over a random tree.
pub fn build_q(rng: &mut Rng, chosen: &[usize], depth: usize, sane: bool) -> Q {
    let mut v = chosen.to_vec();
    let mut i = vec![];
    if depth > 0 && v.len() > 1 {
        let groups = rng.below(4.min(v.len()) + 1);
        for _ in 0..groups {
            if v.is_empty() {
                break;
            }
            let take = rng.range(1, v.len().min(4));
            let part = v.split_off(v.len() - take);
            i.push(build_q(rng, &part, depth - 1, sane));
        }
    }
    let m = v.len() + i.len();
    let t = if sane {
        sane_threshold(rng, m)
    } else {
        threshold(rng, m)
    };
    rng.shuffle(&mut v);
    Q { t, v, i, u: 0 }
}

pub fn random_nested(rng: &mut Rng, n: usize, dups: bool) -> Net {
    let ids: Vec<usize> = (0..n).collect();
    let sane = rng.chance(2, 3);
    let qs = (0..n)
        .map(|_| {
            let d = rng.range(0, 2);
            let dd = dups && rng.chance(1, 2);
            random_q(rng, &ids, d, dd, sane)
        })
        .collect();
    Net::new(qs)
}

/// A symmetric cluster over all n nodes: everyone shares one quorum set over everyone.
pub fn symmetric(rng: &mut Rng, n: usize, dups: bool, sane: bool) -> Net {
    let mut ids: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut ids);
    if dups {
        for _ in 0..rng.range(1, 2) {
            let x = *rng.pick(&ids);
            ids.push(x);
        }
        rng.shuffle(&mut ids);
    }
    let d = rng.below(3);
    let q = build_q(rng, &ids, d, sane);
    // same quorum set, but each node may list its members in a different order
    let shuffle = rng.chance(1, 2);
    let qs = (0..n)
        .map(|_| if shuffle { q.shuffled(rng) } else { q.clone() })
        .collect();
    Net::new(qs)
}

/// Organisations of nodes, every node trusting a threshold of organisations; optional dead members.
pub fn orgs(rng: &mut Rng, n: usize) -> Net {
    let mut ids: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut ids);
    let mut groups: Vec<Vec<usize>> = vec![];
    let mut rest = &ids[..];
    while !rest.is_empty() {
        let k = rng.range(1, rest.len().min(3));
        groups.push(rest[..k].to_vec());
        rest = &rest[k..];
    }
    let inner: Vec<Q> = groups
        .iter()
        .map(|g| {
            let mut q = Q::flat(sane_threshold(rng, g.len()), g.clone());
            if rng.chance(1, 6) {
                q.u = rng.range(1, 2);
                q.t = (q.t + 1).min((q.v.len() + q.u) as u64);
            }
            q
        })
        .collect();
    let mut top = Q {
        t: sane_threshold(rng, inner.len()),
        v: vec![],
        i: inner,
        u: 0,
    };
    if rng.chance(1, 4) {
        // an organisation that is entirely dead (unknown nodes only)
        top.i.push(Q {
            t: rng.range(1, 2) as u64,
            v: vec![],
            i: vec![],
            u: rng.range(1, 3),
        });
        if rng.chance(1, 2) {
            top.t += 1;
        }
    }
    // collapse singleton organisations into direct validators sometimes
    if rng.chance(1, 2) {
        let (single, multi): (Vec<Q>, Vec<Q>) = top
            .i
            .into_iter()
            .partition(|q| q.v.len() == 1 && q.u == 0 && q.t == 1);
        top.v = single.into_iter().map(|q| q.v[0]).collect();
        top.i = multi;
    }
    let mut net = Net::new(vec![top.clone(); n]);
    // some nodes deviate: own threshold or a dropped organisation
    if rng.chance(1, 2) {
        for _ in 0..rng.range(1, 2) {
            let x = rng.below(n);
            let m = top.members();
            match rng.below(3) {
                0 => net.qs[x].t = sane_threshold(rng, m),
                1 => {
                    if !net.qs[x].i.is_empty() {
                        let j = rng.below(net.qs[x].i.len());
                        net.qs[x].i.remove(j);
                    }
                }
                _ => {
                    let y = rng.below(n);
                    net.qs[x].v.push(y);
                }
            }
        }
    }
    net
}

/// Sparse chains, rings and stars: many strongly connected components, odd quorums.
pub fn sparse(rng: &mut Rng, n: usize) -> Net {
    let style = rng.below(4);
    let qs = (0..n)
        .map(|i| {
            let next = (i + 1) % n;
            match style {
                0 => Q::flat(rng.range(1, 2) as u64, vec![i, next]),
                1 => Q::flat(1, vec![next]),
                2 => {
                    let hub = 0;
                    if i == hub {
                        let v: Vec<usize> = (0..n).collect();
                        Q::flat(rng.range(1, n) as u64, v)
                    } else {
                        Q::flat(2, vec![hub, i])
                    }
                }
                _ => {
                    let j = rng.below(n);
                    if rng.chance(1, 2) {
                        Q::flat(2, vec![i, j])
                    } else {
                        Q::flat(1, vec![i, j])
                    }
                }
            }
        })
        .collect();
    Net::new(qs)
}

fn append(a: &mut Net, b: Net) {
    let off = a.n();
    for q in &b.qs {
        a.qs.push(q.rename(&|x| Some(x + off)));
    }
    a.pks = default_pks(a.qs.len());
}

/// Several independent parts, possibly bridged by one-way or two-way trust.
pub fn multi(rng: &mut Rng, n: usize) -> Net {
    let parts = rng.range(2, 3);
    let mut net = Net::default();
    for p in 0..parts {
        let left = n - net.n();
        if left == 0 {
            break;
        }
        let k = if p + 1 == parts { left } else { rng.range(1, left) };
        let part = match rng.below(5) {
            0 => random_flat(rng, k),
            1 => symmetric(rng, k, false, true),
            2 => orgs(rng, k),
            3 => random_nested(rng, k, false),
            _ => sparse(rng, k),
        };
        append(&mut net, part);
    }
    let n = net.n();
    for _ in 0..rng.below(3) {
        let (x, y) = (rng.below(n), rng.below(n));
        net.qs[x].v.push(y);
        if rng.chance(1, 2) {
            net.qs[x].t += 1;
        }
    }
    net
}

/// Change one node's quorum set a little.
pub fn perturb(rng: &mut Rng, net: &mut Net) {
    let n = net.n();
    let x = rng.below(n);
    let y = rng.below(n);
    match rng.below(6) {
        0 => net.qs[x].t = net.qs[x].t.saturating_sub(1),
        1 => net.qs[x].t += 1,
        2 => net.qs[x].v.push(y),
        3 => {
            if !net.qs[x].v.is_empty() {
                let j = rng.below(net.qs[x].v.len());
                net.qs[x].v.remove(j);
            }
        }
        4 => net.qs[x] = net.qs[y].clone(),
        _ => net.qs[x] = Q::default(),
    }
}

/// Options that widen a generated FBAS without changing what a correct analysis does with it.
pub struct Opts {
    pub max_n: usize,
    pub dups: bool,
    pub huge: bool,
    pub pad: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            max_n: 9,
            dups: true,
            huge: true,
            pad: 90,
        }
    }
}

pub const HUGE: [u64; 5] = [
    9007199254740991,
    u64::MAX,
    u64::MAX / 2 + 1,
    4294967296,
    1 << 20,
];

pub fn any(rng: &mut Rng, o: &Opts) -> Net {
    let n = match rng.below(8) {
        0 => rng.range(1, 3.min(o.max_n)),
        1 => o.max_n,
        _ => rng.range(1, o.max_n),
    };
    let kind = rng.below(16);
    let (name, mut net) = match kind {
        0 | 1 => ("flat", random_flat(rng, n)),
        2 | 3 => ("nested", random_nested(rng, n, false)),
        4 => ("nested-dups", random_nested(rng, n, o.dups)),
        5 | 6 => ("symmetric", symmetric(rng, n, false, true)),
        7 => ("symmetric-odd", symmetric(rng, n, false, false)),
        8 => ("symmetric-dups", symmetric(rng, n, o.dups, true)),
        9..=11 => ("orgs", orgs(rng, n)),
        12 => ("sparse", sparse(rng, n)),
        13 | 14 => ("multi", multi(rng, n)),
        _ => {
            let mut s = symmetric(rng, n, false, true);
            perturb(rng, &mut s);
            ("near-symmetric", s)
        }
    };
    net.kind = name.to_string();
    if rng.chance(1, 6) {
        perturb(rng, &mut net);
        net.kind.push_str("+perturbed");
    }
    if o.huge && rng.chance(1, 10) {
        let x = rng.below(net.n());
        let h = *rng.pick(&HUGE);
        // a hopeless quorum set, alone or as one member of everybody's quorum set
        if rng.chance(1, 2) {
            net.qs[x].t = h;
        } else {
            let y = rng.below(net.n());
            let inner = Q::flat(h, vec![y]);
            if rng.chance(1, 2) {
                for q in net.qs.iter_mut() {
                    q.i.push(inner.clone());
                }
            } else {
                net.qs[x].i.push(inner);
            }
        }
        net.kind.push_str("+huge");
    }
    if rng.chance(1, 12) {
        // a member that can never agree, in everyone's quorum set
        let y = rng.below(net.n());
        let dead = match rng.below(3) {
            0 => Q::flat(0, vec![y]),
            1 => Q::flat(2, vec![y]),
            _ => Q::default(),
        };
        for q in net.qs.iter_mut() {
            q.i.push(dead.clone());
        }
        net.kind.push_str("+dead-member");
    }
    decorate(rng, &mut net, o);
    net
}

/// Adds nodes that cannot matter, then renumbers everything.
pub fn decorate(rng: &mut Rng, net: &mut Net, o: &Opts) {
    let core = net.n();
    let mut extra = 0;
    if o.pad > 0 {
        extra = match rng.below(6) {
            0 => rng.range(1, 4),
            1 => rng.range(1, o.pad),
            _ => 0,
        };
        // IDs far beyond a byte
        if o.pad >= 60 && rng.chance(1, 300) {
            extra = if rng.chance(5, 6) { rng.range(130, 700) } else { rng.range(1000, 4000) };
            net.kind.push_str("+crowd");
        }
    }
    for _ in 0..extra {
        let q = match rng.below(5) {
            0 => Q::default(),
            1 => Q::flat(2, vec![rng.below(core)]),
            2 => Q {
                t: 1,
                v: vec![],
                i: vec![],
                u: 1,
            },
            3 => Q::flat(
                *rng.pick(&[3, 4, 1000]),
                vec![rng.below(core), rng.below(core)],
            ),
            _ => Q::nest(0, vec![], vec![Q::flat(1, vec![rng.below(core)])]),
        };
        net.qs.push(q);
    }
    if rng.chance(1, 4) {
        // nodes that agree with the core but that the core does not listen to
        for _ in 0..rng.range(1, 6) {
            let all = net.n();
            let q = match rng.below(4) {
                0 => net.qs[rng.below(core)].clone(),
                1 => Q::flat(1, vec![rng.below(core)]),
                2 => Q::flat(1, vec![rng.below(all), all]),
                _ => {
                    let (a, b) = (rng.below(core), rng.below(all));
                    Q::flat(2, vec![a, b, all])
                }
            };
            net.qs.push(q);
        }
        net.pks = default_pks(net.n());
        net.kind.push_str("+followers");
    }
    if extra > 0 {
        net.kind.push_str("+padded");
        net.pks = default_pks(net.n());
        // core nodes may also list unsatisfiable nodes
        if rng.chance(1, 3) {
            for _ in 0..rng.range(1, 3) {
                let x = rng.below(core);
                let y = rng.range(core, net.n() - 1);
                net.qs[x].v.push(y);
            }
        }
    }
    if rng.chance(2, 3) {
        let p = rng.perm(net.n());
        let kind = net.kind.clone();
        let mut r = net.renamed(&p);
        r.kind = kind;
        r.pks = default_pks(r.n());
        *net = r;
    }
}

/// Public keys that stress ordering, escaping and lookup.
pub fn odd_pks(rng: &mut Rng, n: usize) -> Vec<String> {
    let style = rng.below(5);
    let mut seen = std::collections::BTreeSet::new();
    (0..n)
        .map(|_i| loop {
            let s = match style {
                0 => format!("G{:08X}", rng.next() as u32),
                1 => format!("n{}", rng.below(n * 3)),
                2 => {
                    let l = rng.range(1, 6);
                    (0..l)
                        .map(|_| *rng.pick(&['a', 'B', 'z', '0', '_', '-', ' ', '"', '\\', 'é', '節', '.', ',']))
                        .collect()
                }
                3 => format!("{:x}", rng.next()),
                _ => {
                    let l = rng.range(0, 3);
                    let mut s: String = (0..l).map(|_| *rng.pick(&['a', 'b'])).collect();
                    s.push_str(&format!("{}", rng.below(n * 2)));
                    s
                }
            };
            if seen.insert(s.clone()) {
                break s;
            }
        })
        .collect()
}

/// FBASs that are too big to enumerate but keep few minimal sets: many organisations or layered
/// structures, checked with certificates instead of enumeration.
pub fn large(rng: &mut Rng) -> Net {
    let style = rng.below(4);
    let mut net = match style {
        0 => {
            // symmetric organisations
            let k = rng.range(3, 6);
            let size = rng.range(2, 3);
            let n = k * size;
            let inner: Vec<Q> = (0..k)
                .map(|o| {
                    Q::flat(
                        (size / 2 + 1) as u64,
                        (o * size..(o + 1) * size).collect(),
                    )
                })
                .collect();
            let t = (k - (k - 1) / 3) as u64;
            let q = Q::nest(t, vec![], inner);
            Net::new(vec![q; n])
        }
        1 => {
            // flat with a common core and followers
            let core = rng.range(5, 9);
            let follow = rng.range(5, 40);
            let n = core + follow;
            let t = (core - (core - 1) / 3) as u64;
            let mut qs = vec![];
            for i in 0..n {
                let v: Vec<usize> = (0..core).collect();
                if i < core {
                    let mut v = v;
                    if rng.chance(1, 4) {
                        let d = rng.below(core);
                        v.retain(|&x| x != d);
                    }
                    qs.push(Q::flat(t.min(v.len() as u64), v));
                } else {
                    let mut q = Q::flat(t, v);
                    if rng.chance(1, 2) {
                        q.v.push(i);
                        q.t += 1;
                    }
                    if rng.chance(1, 4) {
                        q.v.push(rng.below(n));
                    }
                    qs.push(q);
                }
            }
            Net::new(qs)
        }
        2 => {
            // near-symmetric organisations: per-node deviations
            let k = rng.range(3, 5);
            let size = rng.range(2, 3);
            let n = k * size;
            let inner: Vec<Q> = (0..k)
                .map(|o| {
                    Q::flat(
                        (size / 2 + 1) as u64,
                        (o * size..(o + 1) * size).collect(),
                    )
                })
                .collect();
            let t = (k - (k - 1) / 3) as u64;
            let mut net = Net::new(vec![Q::nest(t, vec![], inner); n]);
            for _ in 0..rng.range(1, 3) {
                let x = rng.below(n);
                let m = net.qs[x].members();
                net.qs[x].t = sane_threshold(rng, m).max(2);
            }
            net
        }
        _ => {
            // two to three clusters with followers
            let mut net = Net::default();
            for _ in 0..rng.range(2, 3) {
                let k = rng.range(3, 6);
                let p = symmetric(rng, k, false, true);
                append(&mut net, p);
            }
            let core = net.n();
            for _ in 0..rng.range(3, 20) {
                let x = rng.below(core);
                let y = rng.below(core);
                net.qs.push(Q::flat(2, vec![x, y]));
            }
            net.pks = default_pks(net.n());
            net
        }
    };
    net.kind = format!("large{}", style);
    // scatter over a larger ID space
    let extra = rng.range(0, 60);
    for _ in 0..extra {
        net.qs.push(Q::default());
    }
    net.pks = default_pks(net.n());
    let p = rng.perm(net.n());
    let kind = net.kind.clone();
    let mut r = net.renamed(&p);
    r.pks = default_pks(r.n());
    r.kind = kind;
    r
}

/// (Enumerating quorums is fast on these; enumerating blocking sets is not.)
/// Networks whose minimal quorums are the minimal members of a family chosen first: a node is
/// content with any member of the family that contains it. The sets are large and mostly made of
/// IDs beyond 64, so that the few nodes in which they meet (if any) may be anywhere.
pub fn wide(rng: &mut Rng) -> Net {
    if rng.chance(1, 8) {
        return very_wide(rng);
    }
    let k = rng.range(2, 4);
    let mut family: Vec<Vec<usize>> = vec![];
    let mut n = 0;
    let most = if k == 2 { 40 } else { 90 / (k * k) };
    for _ in 0..k {
        let size = rng.range(most / 2, most);
        family.push((n..n + size).collect());
        n += size;
    }
    // let some of them share a node or two; often all but one pair
    let skip = rng.below(2 * k * k);
    for a in 0..k {
        for b in 0..a {
            if a * k + b != skip && rng.chance(5, 6) {
                for _ in 0..rng.range(1, 2) {
                    family[a].push(n);
                    family[b].push(n);
                    n += 1;
                }
            }
        }
    }
    let pad = if n < 70 { rng.range(70 - n, 100 - n) } else { rng.below(8) };
    let mut qs: Vec<Q> = (0..n)
        .map(|x| {
            let mut mine: Vec<Q> = family
                .iter()
                .filter(|f| f.contains(&x))
                .map(|f| Q::flat(f.len() as u64, f.clone()))
                .collect();
            if mine.len() == 1 {
                mine.pop().unwrap()
            } else {
                Q::nest(1, vec![], mine)
            }
        })
        .collect();
    for _ in 0..pad {
        qs.push(if rng.chance(1, 2) { Q::default() } else { Q::flat(1, vec![rng.below(n)]) });
    }
    let net = Net::new(qs);
    let p = match rng.below(3) {
        0 => (0..net.n()).collect(),
        1 => (0..net.n()).rev().collect(),
        _ => rng.perm(net.n()),
    };
    let mut r = net.renamed(&p);
    r.pks = default_pks(r.n());
    r.kind = "wide".into();
    r
}

/// All nodes, or all but one, are needed: sets (or families) larger than what fits a byte.
pub fn very_wide(rng: &mut Rng) -> Net {
    let all_but_one = rng.chance(1, 3);
    let n = if all_but_one { rng.range(24, 40) } else { *rng.pick(&[255, 256, 257, 300]) };
    let extra = rng.below(20);
    let q = Q::flat((n - all_but_one as usize) as u64, (0..n).collect());
    let mut qs = vec![q; n];
    for _ in 0..extra {
        qs.push(if rng.chance(1, 2) { Q::default() } else { Q::flat(1, vec![rng.below(n)]) });
    }
    let p = rng.perm(qs.len());
    let mut r = Net::new(qs).renamed(&p);
    r.pks = default_pks(r.n());
    r.kind = "very wide".into();
    r
}
