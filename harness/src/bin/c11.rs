use std::collections::{BTreeMap, BTreeSet};
use vharness::*;

/// Restricted to the nodes that matter, without the members that are left with nothing.
fn restricted(q: &Q, to: &BTreeMap<usize, usize>) -> Q {
    let mut v: Vec<usize> = q.v.iter().filter_map(|x| to.get(x).copied()).collect();
    v.sort();
    let mut i: Vec<Q> = q
        .i
        .iter()
        .map(|x| restricted(x, to))
        .filter(|x| *x != Q::default())
        .collect();
    i.sort();
    Q { t: q.t, v, i, u: 0 }
}
fn pks_of(f: &BTreeSet<Set>, pks: &[String]) -> BTreeSet<BTreeSet<String>> {
    f.iter().map(|s| s.iter().map(|&x| pks[x].clone()).collect()).collect()
}
fn relevant(net: &Net) -> Set {
    let sat = net.satisfiable();
    let mut out = Set::new();
    for c in net.sccs() {
        let c: Set = c.intersection(&sat).copied().collect();
        if !net.greatest_quorum(&c).is_empty() {
            out.extend(c);
        }
    }
    out
}
fn main() {
    let mut c = Check::start("C11", "exploration",
        "generated FBASs of 16 families with random (also unusual) public keys, each in several orders of nodes and members; the standard form is compared with the model, between orders, and by its analysis; non-trivial = has a quorum; distinct by quorum-set tuple");
    c.cases("standard form", 60000, 1500000, |case| {
        let max_n = case.rng.range(1, 10);
        let mut wide = false;
        let mut net = match case.rng.below(200) {
            0 => {
                wide = true;
                fmodel::gen::wide(&mut case.rng)
            }
            1 => fmodel::gen::large(&mut case.rng),
            _ => fmodel::gen::any(&mut case.rng, &fmodel::gen::Opts { max_n, ..Default::default() }),
        };
        if net.n() > 64 {
            case.count("more than 64 nodes");
        }
        if net.n() > 256 {
            case.count("more than 256 nodes");
        }
        net.pks = fmodel::gen::odd_pks(&mut case.rng, net.n());
        case.input(net.show());
        let fbas = build_json(&net);
        let std = fbas.to_standard_form();
        let text = std.to_json_string();
        // exactly the relevant nodes, sorted by public key
        let rel = relevant(&net);
        let mut order: Vec<usize> = rel.iter().copied().collect();
        order.sort_by(|a, b| net.pks[*a].cmp(&net.pks[*b]));
        ensure!(std.number_of_nodes() == rel.len(), "{} nodes instead of {}", std.number_of_nodes(), rel.len());
        let to: BTreeMap<usize, usize> = order.iter().enumerate().map(|(new, &old)| (old, new)).collect();
        for (new, &old) in order.iter().enumerate() {
            ensure!(
                std.get_node_id(&net.pks[old]) == Some(new),
                "node {:?} has ID {:?} instead of {}", net.pks[old], std.get_node_id(&net.pks[old]), new
            );
            let got = from_qs(&std.get_quorum_set(new).unwrap());
            let id: BTreeMap<usize, usize> = (0..order.len()).map(|x| (x, x)).collect();
            let got = restricted(&got, &id);
            let want = restricted(&net.qs[old], &to);
            ensure!(got == want, "quorum set of {:?}: {} instead of {}", net.pks[old], got.show(), want.show());
        }
        if rel.len() < net.n() && !rel.is_empty() {
            case.count("irrelevant nodes dropped");
        }
        // the same FBAS in any other order has the same standard form
        for _ in 0..2 {
            let p = case.rng.perm(net.n());
            let mut other = net.renamed(&p);
            for q in other.qs.iter_mut() {
                *q = q.shuffled(&mut case.rng);
            }
            let f = build_json(&other);
            ensure!(f.to_standard_form().to_json_string() == text,
                "the standard form depends on the order: {} vs {}", text, f.to_standard_form().to_json_string());
            case.count("reorderings compared");
        }
        // nothing left to drop: the standard form of the standard form is itself
        let std_net = Net::new((0..rel.len()).map(|x| from_qs(&std.get_quorum_set(x).unwrap())).collect());
        if relevant(&std_net).len() == rel.len() {
            ensure!(std.to_standard_form().to_json_string() == text, "the standard form of the standard form differs");
            ensure!(std.to_standard_form() == std, "the standard form of the standard form differs");
            case.count("standard forms of standard forms");
        }
        if rel.is_empty() {
            return Ok(());
        }
        case.nontrivial(&net.qs);
        // same analysis results, by public key
        if !wide && net.qs.iter().any(|q| q.any_level(&|x| x.slice_count() > 5000.0)) {
            return Ok(());
        }
        let (a, b) = (Analysis::new(&fbas), Analysis::new(&std));
        let spks: Vec<String> = order.iter().map(|&x| net.pks[x].clone()).collect();
        ensure!(pks_of(&fam(&a.minimal_quorums().unwrap()), &net.pks) == pks_of(&fam(&b.minimal_quorums().unwrap()), &spks),
            "the minimal quorums of the standard form differ");
        ensure!(a.has_quorum_intersection() == b.has_quorum_intersection(), "quorum intersection differs");
        if wide {
            // (blocking sets of these are too many)
            return Ok(());
        }
        for (what, x, y) in [
            ("minimal blocking sets", a.minimal_blocking_sets(), b.minimal_blocking_sets()),
            ("minimal splitting sets", a.minimal_splitting_sets(), b.minimal_splitting_sets()),
        ] {
            ensure!(pks_of(&fam(&x.unwrap()), &net.pks) == pks_of(&fam(&y.unwrap()), &spks),
                "the {} of the standard form differ", what);
        }
        case.count("analyses compared");
        Ok(())
    });
    let real = real_nets();
    c.cases("real", 24, 300, |case| {
        let net = real[case.index as usize % real.len()].clone();
        case.input(format!("{} nodes", net.n()));
        let text = build_json(&net).to_standard_form().to_json_string();
        let p = case.rng.perm(net.n());
        let mut other = net.renamed(&p);
        for q in other.qs.iter_mut() {
            *q = q.shuffled(&mut case.rng);
        }
        ensure!(build_json(&other).to_standard_form().to_json_string() == text, "the standard form depends on the order");
        case.count("reorderings compared");
        case.nontrivial(&text);
        Ok(())
    });
    c.require("more than 64 nodes", 100);
    c.require("more than 256 nodes", 3);
    c.require("standard forms of standard forms", 5000);
    c.require("reorderings compared", 10000);
    c.require("irrelevant nodes dropped", 2000);
    c.require("analyses compared", 5000);
    c.finish();
}
