use fbas_analyzer::sets;
use vharness::*;

fn family(rng: &mut Rng) -> (usize, Vec<Set>) {
    let n = match rng.below(6) {
        0 => rng.range(60, 330),
        1 => rng.range(1, 3),
        _ => rng.range(2, 12),
    };
    let mut f = match rng.below(4) {
        0 => {
            // all of nearly the same size, around one half
            let k = rng.range(1, 8);
            let half = (n / 2).max(1);
            (0..k)
                .map(|_| {
                    let size = (half + rng.below(3)).saturating_sub(rng.below(2)).min(n);
                    rng.sample(&(0..n).collect::<Vec<_>>(), size).into_iter().collect()
                })
                .collect()
        }
        1 => {
            // chains and antichains
            let mut s: Set = Set::new();
            let mut out = vec![];
            for _ in 0..rng.range(1, 7) {
                s.insert(rng.below(n));
                out.push(s.clone());
            }
            for _ in 0..rng.below(4) {
                let (a, b) = (rng.below(n), rng.below(n));
                out.push([a, b].into_iter().collect());
            }
            out
        }
        _ => random_family(rng, n),
    };
    rng.shuffle(&mut f);
    (n, f)
}
fn judge(f: &[Set], case: &mut Case) -> Verdict {
    let b = bits(f);
    let disjoint_pair = (0..f.len()).any(|i| (i + 1..f.len()).any(|j| f[i].is_disjoint(&f[j])));
    ensure!(sets::all_intersect(&b) == !disjoint_pair, "all_intersect says {}", sets::all_intersect(&b));
    case.count(if disjoint_pair { "families with a disjoint pair" } else { "intersecting families" });
    let union: Set = f.iter().flatten().copied().collect();
    ensure!(to_set(&sets::involved_nodes(&b)) == union, "involved nodes {:?} instead of {:?}", sets::involved_nodes(&b), union);
    let minimal = fmodel::net::minimal_sets(f);
    let red = sets::remove_non_minimal_node_sets(b.clone());
    same_family("minimal sets", &red, &minimal)?;
    let antichain = (0..f.len()).all(|i| (0..f.len()).all(|j| i == j || !f[i].is_subset(&f[j])));
    ensure!(sets::is_set_of_minimal_node_sets(&b) == antichain, "is_set_of_minimal_node_sets says {}", !antichain);
    ensure!(sets::is_set_of_minimal_node_sets(&red), "the minimal sets are not recognized as such");
    same_family("minimal sets of minimal sets", &sets::remove_non_minimal_node_sets(red), &minimal)?;
    if minimal.len() < f.len() {
        case.count("families reduced");
    }
    if f.len() > 1 {
        case.nontrivial(f);
    }
    Ok(())
}
fn main() {
    let mut c = Check::start("C18", "exploration",
        "all families of up to 4 subsets of 3 nodes, and random families (around half of the nodes, chains, repeated, empty sets; up to 200 nodes) in random order, judged pairwise by definition; non-trivial = two or more sets; distinct by family");
    // all sequences of 4 (or fewer: index 8 = absent) subsets of 3 nodes
    c.cases("all small families", 9 * 9 * 9 * 9, 9 * 9 * 9 * 9, |case| {
        let mut x = case.index;
        let mut f = vec![];
        for _ in 0..4 {
            let d = x % 9;
            x /= 9;
            if d < 8 {
                f.push(fmodel::net::mask_to_set(d, &[0, 1, 2]));
            }
        }
        case.input(format!("{:?}", f));
        judge(&f, case)
    });
    c.cases("random families", 300000, 6000000, |case| {
        let (n, f) = family(&mut case.rng);
        case.input(format!("{} nodes: {:?}", n, f));
        judge(&f, case)
    });
    // families of thousands of sets, of which at most two are disjoint
    c.cases_on("large families", 60, 900, 4, |case| {
        let n = case.rng.range(16, 100);
        let hub = case.rng.below(n);
        let others: Vec<usize> = (0..n).filter(|&x| x != hub).collect();
        let size = case.rng.range(1, n - 3);
        let a: Set = case.rng.sample(&others, size).into_iter().collect();
        let av: Vec<usize> = a.iter().copied().collect();
        let k = if case.rng.chance(1, 2) { case.rng.range(5001, 7000) } else { case.rng.range(100, 4000) };
        let p = case.rng.range(1, 5);
        let mut f: Vec<Set> = vec![];
        let mut seen = std::collections::BTreeSet::new();
        for _ in 0..k {
            let mut s: Set = others.iter().copied().filter(|_| case.rng.chance(p, 6)).collect();
            s.insert(hub);
            s.insert(*case.rng.pick(&av));
            if seen.insert(s.clone()) {
                f.push(s);
            }
        }
        f.push(a.clone());
        let disjoint = case.rng.chance(1, 2);
        if disjoint {
            let mut s: Set = others.iter().copied().filter(|x| !a.contains(x) && case.rng.chance(p, 5)).collect();
            s.insert(hub);
            f.push(s);
        }
        case.rng.shuffle(&mut f);
        case.input(format!("{} sets of {} nodes, all with node {} except {:?}, disjoint pair: {}", f.len(), n, hub, a, disjoint));
        let b = bits(&f);
        ensure!(sets::all_intersect(&b) == !disjoint, "all_intersect says {}", !disjoint);
        let masks: Vec<u128> = f.iter().map(|s| s.iter().fold(0, |m, x| m | 1u128 << x)).collect();
        let kept: std::collections::BTreeSet<Set> = (0..f.len()).filter(|&i| !masks.iter().any(|m| *m != masks[i] && m & masks[i] == *m)).map(|i| f[i].clone()).collect();
        let reduced = sets::remove_non_minimal_node_sets(b.clone());
        ensure!(fam(&reduced) == kept && reduced.len() == kept.len(), "{} minimal sets instead of {}", reduced.len(), kept.len());
        ensure!(to_set(&sets::involved_nodes(&b)) == f.iter().flatten().copied().collect::<Set>(), "involved nodes");
        case.count(if f.len() > 5000 { "families of more than 5000 sets" } else { "families of hundreds of sets" });
        case.nontrivial((n, hub, a, f.len(), disjoint));
        Ok(())
    });
    c.require("families of more than 5000 sets", 15);
    c.require("families with a disjoint pair", 20000);
    c.require("intersecting families", 20000);
    c.require("families reduced", 20000);
    c.finish();
}
