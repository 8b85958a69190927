use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use vharness::*;

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// A small change of what an FBAS consists of, or none.
fn vary(net: &Net, rng: &mut Rng) -> Net {
    let mut m = net.clone();
    let n = m.n();
    if n == 0 {
        return m;
    }
    let x = rng.below(n);
    match rng.below(8) {
        0 => m.qs[x].t = if rng.chance(1, 2) { m.qs[x].t.wrapping_add(1) } else { m.qs[x].t.saturating_sub(1) },
        1 => {
            m.qs[x].v.push(rng.below(n));
        }
        2 => {
            m.qs[x].v.pop();
        }
        3 => m.qs[x].i.push(Q::flat(1, vec![rng.below(n)])),
        4 => {
            let k = m.qs[x].i.len();
            if k > 0 {
                let j = rng.below(k);
                m.qs[x].i[j].t = m.qs[x].i[j].t.wrapping_add(1);
            }
        }
        5 => {
            m.pks[x].push('x');
        }
        6 => {
            let y = rng.below(n);
            m.qs.swap(x, y);
        }
        _ => {
            // a node fewer, if nobody lists it
            if !m.qs.iter().any(|q| q.nodes().contains(&(n - 1))) {
                m.qs.pop();
                m.pks.pop();
            }
        }
    }
    m
}
fn pair(what: &str, a: &Fbas, b: &Fbas, same: bool) -> Verdict {
    ensure!((a == b) == same && (b == a) == same && (a != b) == !same, "{}: equal? {}", what, a == b);
    let o = a.cmp(b);
    ensure!((o == Ordering::Equal) == same, "{}: ordered as {:?}", what, o);
    ensure!(b.cmp(a) == o.reverse() && a.partial_cmp(b) == Some(o), "{}: ordered as {:?} and {:?}", what, o, b.cmp(a));
    if same {
        ensure!(hash(a) == hash(b), "{}: equal FBASs with different hashes", what);
    }
    Ok(())
}
fn refused(f: impl FnOnce()) -> bool {
    fmodel::guarded(f).is_err()
}
fn main() {
    let mut c = Check::start("C32", "exploration",
        "families of generated FBASs and near copies (one threshold, member, inner quorum set, public key or node changed) built in different ways, compared, ordered, hashed, sorted, collected and cloned; non-trivial = the family has different members; distinct by family");
    c.cases("families", 40000, 800000, |case| {
        let max_n = case.rng.range(1, 10);
        let mut net = if case.rng.chance(1, 150) {
            fmodel::gen::wide(&mut case.rng)
        } else {
            fmodel::gen::any(&mut case.rng, &fmodel::gen::Opts { max_n, ..Default::default() })
        };
        if net.n() > 64 {
            case.count("more than 64 nodes");
        }
        if net.n() > 256 {
            case.count("more than 256 nodes");
        }
        for q in net.qs.iter_mut() {
            *q = q.norm();
        }
        case.input(net.show());
        let mut nets = vec![net.clone(), net.clone()];
        for _ in 0..case.rng.range(1, 5) {
            let k = case.rng.below(nets.len());
            let mut m = vary(&nets[k], &mut case.rng);
            for q in m.qs.iter_mut() {
                *q = q.norm();
            }
            nets.push(m);
        }
        let build = |m: &Net, case: &mut Case| -> Fbas {
            // generic names can be built in every way
            if (0..m.n()).all(|i| m.pks[i] == format!("n{}", i)) { build_any(m, case) } else { build_json(m) }
        };
        let all: Vec<Fbas> = nets.iter().map(|m| build(m, case)).collect();
        let same = |i: usize, j: usize| nets[i].pks == nets[j].pks && nets[i].qs == nets[j].qs;
        let mut classes = 0;
        for i in 0..all.len() {
            if (0..i).all(|j| !same(i, j)) {
                classes += 1;
            }
            for j in 0..all.len() {
                pair(&format!("members {} and {} of {:?}", i, j, nets.iter().map(|m| m.show()).collect::<Vec<_>>()), &all[i], &all[j], same(i, j))?;
                case.count(if same(i, j) { "equal pairs" } else { "different pairs" });
                for k in 0..all.len() {
                    if all[i] <= all[j] && all[j] <= all[k] {
                        ensure!(all[i] <= all[k], "the order is not transitive");
                    }
                }
            }
        }
        if classes > 1 {
            case.nontrivial(nets.iter().map(|m| (&m.pks, &m.qs)).collect::<Vec<_>>());
        }
        let set: HashSet<Fbas> = all.iter().cloned().collect();
        let tree: BTreeSet<Fbas> = all.iter().cloned().collect();
        ensure!(set.len() == classes && tree.len() == classes, "{} different FBASs make sets of {} and {}", classes, set.len(), tree.len());
        for f in &all {
            ensure!(set.contains(f) && tree.contains(f), "an FBAS is not found");
        }
        // quorum sets
        let qs: Vec<(Q, QuorumSet)> = nets.iter().flat_map(|m| m.qs.iter()).take(12).map(|q| (q.clone(), to_qs(q))).collect();
        for (p, a) in &qs {
            for (q, b) in &qs {
                let same = p == q;
                ensure!((a == b) == same, "quorum sets {} and {}: equal? {}", p.show(), q.show(), a == b);
                ensure!((a.cmp(b) == Ordering::Equal) == same && b.cmp(a) == a.cmp(b).reverse(), "quorum sets {} and {}: {:?} and {:?}", p.show(), q.show(), a.cmp(b), b.cmp(a));
                ensure!(!same || hash(a) == hash(b), "equal quorum sets with different hashes: {}", p.show());
                case.count("pairs of quorum sets");
            }
        }
        Ok(())
    });
    c.cases("clones", 40000, 800000, |case| {
        // a clone is the same FBAS, and independent of the original
        let max_n = case.rng.range(1, 12);
        let mut net = fmodel::gen::any(&mut case.rng, &fmodel::gen::Opts { max_n, ..Default::default() });
        for q in net.qs.iter_mut() {
            *q = q.norm();
        }
        let n = net.n();
        if n == 0 {
            return Ok(());
        }
        net.pks = fmodel::gen::odd_pks(&mut case.rng, n);
        case.input(net.show());
        let mut original = build_json(&net);
        let (text, pretty) = (original.to_json_string(), format!("{}", original));
        let mut copy = original.clone();
        pair("clone", &original, &copy, true)?;
        ensure!(copy.to_json_string() == text && format!("{}", copy) == pretty, "the clone is written differently");
        for x in 0..n {
            ensure!(copy.get_node_id(&net.pks[x]) == Some(x), "the clone does not know {:?}", net.pks[x]);
        }
        let free = |net: &Net| !net.pks.contains(&format!("n{}", n));
        let (changed, other) = if case.rng.chance(1, 2) { (&mut copy, &mut original) } else { (&mut original, &mut copy) };
        if case.rng.chance(1, 2) && free(&net) {
            changed.add_generic_node(to_qs(&Q::flat(1, vec![0])));
            ensure!(other.get_node_id(&format!("n{}", n)).is_none(), "a node added to one FBAS appears in its clone");
            ensure!(changed.get_node_id(&format!("n{}", n)) == Some(n) && changed.number_of_nodes() == n + 1, "the added node cannot be found");
        } else {
            let x = case.rng.below(n);
            let mut q = net.qs[x].clone();
            q.t = q.t.wrapping_add(1);
            changed.swap_quorum_set(x, to_qs(&q));
        }
        pair("changed clone", changed, other, false)?;
        ensure!(other.to_json_string() == text && other.number_of_nodes() == n, "changing one of two clones changes the other");
        case.count("clones");
        if net.qs.iter().any(|q| q.members() > 0) {
            case.nontrivial(&net.qs);
        }
        Ok(())
    });
    c.cases("duplicates", 3000, 50000, |case| {
        // adding a node under a public key that is taken is refused
        let n = case.rng.range(1, 12);
        let mut net = fmodel::gen::random_flat(&mut case.rng, n);
        let x = case.rng.below(n);
        for (i, pk) in net.pks.iter_mut().enumerate() {
            *pk = if i == x { format!("n{}", n) } else { format!("m{}", i) };
        }
        case.input(net.show());
        let fbas = build_json(&net);
        let q = to_qs(&Q::flat(1, vec![0]));
        ensure!(refused(|| { fbas.clone().add_generic_node(q.clone()); }), "a second node called n{} is accepted", n);
        case.count("duplicates refused");
        net.pks[x] = format!("m{}", x);
        let mut fbas = build_json(&net);
        ensure!(fbas.add_generic_node(q) == n, "a node with a new public key is not accepted");
        case.nontrivial((n, x, &net.qs));
        Ok(())
    });
    c.cases("groupings and results", 10000, 150000, |case| {
        let Some((net, _)) = small_net(case) else { return Ok(()) };
        let n = net.n();
        let fbas = build_json(&net);
        let groups = random_groups(&mut case.rng, n);
        let doc = groups_json(&groups, &net.pks);
        let a = Groupings::from_json_str(&doc.to_string(), &fbas);
        ensure!(a == Groupings::from_json_str(&doc.to_string(), &fbas) && a == a.clone(), "equal groupings differ");
        let mut other = doc.clone();
        let k = case.rng.below(groups.len());
        let what = case.rng.below(3);
        match what {
            0 => other[k]["name"] = fmodel::serde_json::json!("renamed"),
            1 => {
                other.as_array_mut().unwrap().remove(k);
            }
            _ => {
                let v = other[k]["validators"].as_array_mut().unwrap();
                if v.pop().is_none() {
                    return Ok(());
                }
            }
        }
        let b = Groupings::from_json_str(&other.to_string(), &fbas);
        ensure!(a != b, "different groupings are equal: {} and {}", doc, other);
        // results of two analyses of one FBAS are equal, results that differ are not
        let (x, y) = (Analysis::new(&fbas), Analysis::new(&fbas));
        ensure!(x.minimal_quorums() == y.minimal_quorums() && x.top_tier() == y.top_tier(), "the same results are not equal");
        let (r, s) = (x.minimal_quorums(), x.minimal_blocking_sets());
        let same = r.clone().unwrap() == s.clone().unwrap();
        ensure!((r == s) == same, "results {:?} and {:?} are equal? {}", r.clone().unwrap(), s.clone().unwrap(), r == s);
        // how a result came about, and what was asked before, does not matter; what it holds does
        let g = Groupings::from_json_str(&groups_json(&groups, &net.pks).to_string(), &fbas);
        let z = Analysis::new(&fbas);
        for _ in 0..case.rng.range(1, 4) {
            match case.rng.below(6) {
                0 => drop(z.top_tier()),
                1 => drop(z.minimal_blocking_sets()),
                2 => drop(z.minimal_splitting_sets()),
                3 => drop(z.has_quorum_intersection()),
                4 => drop(z.minimal_quorums()),
                _ => drop(z.has_quorum_intersection_via_alternative_check()),
            }
        }
        let mut results = vec![];
        for a in [&x, &z] {
            for r in [a.minimal_quorums(), a.minimal_blocking_sets(), a.minimal_splitting_sets()] {
                let k = case.rng.below(n);
                results.push(r.without_nodes(&[]));
                results.push(r.minimal_sets());
                results.push(r.without_nodes(&[k]));
                results.push(r.merged_by_group(&g));
                results.push(r.merged_by_group(&g).minimal_sets());
                results.push(r);
            }
        }
        let held: Vec<Vec<NodeIdSet>> = results.iter().map(|r| r.clone().unwrap()).collect();
        for i in 0..results.len() {
            for j in 0..i {
                let same = held[i] == held[j];
                ensure!((results[i] == results[j]) == same, "results {:?} and {:?} are equal? {}", held[i], held[j], !same);
                ensure!(!same || hash(&results[i]) == hash(&results[j]), "equal results {:?} with different hashes", held[i]);
                case.count(if same { "equal results" } else { "different results" });
            }
        }
        case.count("groupings compared");
        case.nontrivial((&net.qs, &groups, what, k));
        Ok(())
    });
    c.require("equal pairs", 50000);
    c.require("different pairs", 50000);
    c.require("pairs of quorum sets", 100000);
    c.require("clones", 20000);
    c.require("duplicates refused", 1000);
    c.require("groupings compared", 5000);
    c.require("equal results", 50000);
    c.require("different results", 50000);
    c.require("more than 64 nodes", 100);
    c.require("more than 256 nodes", 5);
    c.finish();
}
