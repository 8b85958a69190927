use std::collections::BTreeSet;
use vharness::*;

/// Quorum sets shared by exactly the nodes they contain, whose nodes together satisfy them.
fn clusters(net: &Net) -> BTreeSet<Q> {
    let norm: Vec<Q> = net.qs.iter().map(|q| q.norm()).collect();
    let mut out = BTreeSet::new();
    for (x, q) in norm.iter().enumerate() {
        let nodes = q.nodes();
        if nodes.contains(&x) && nodes.iter().all(|&y| norm[y] == *q) && q.sat_set(&nodes) {
            out.insert(q.clone());
        }
    }
    out
}
fn judge(net: &Net, top: &Set, case: &mut Case) -> Verdict {
    // clusters compare quorum sets as parsed, i.e. in canonical member order
    let fbas = build_json(net);
    let a = Analysis::new(&fbas);
    let want = clusters(net);
    let via_analysis = case.rng.chance(1, 2);
    let got: Vec<Q> = if via_analysis {
        a.symmetric_clusters()
    } else {
        find_symmetric_clusters(&fbas)
    }
    .iter()
    .map(from_qs)
    .collect();
    let set: BTreeSet<Q> = got.iter().map(|q| q.norm()).collect();
    ensure!(
        set == want && got.len() == set.len(),
        "symmetric clusters {:?} but by definition they are {:?}",
        got.iter().map(|q| q.show()).collect::<Vec<_>>(),
        want.iter().map(|q| q.show()).collect::<Vec<_>>()
    );
    case.add("symmetric clusters seen", got.len() as u64);
    if got.len() > 1 {
        case.count("several symmetric clusters");
    }
    let want_top = if want.len() == 1 {
        let q = want.iter().next().unwrap();
        let rest = minus(&net.all(), &q.nodes());
        if net.greatest_quorum(&rest).is_empty() {
            Some(q.clone())
        } else {
            case.count("quorum next to the only symmetric cluster");
            None
        }
    } else {
        None
    };
    let got_top = if via_analysis {
        a.symmetric_top_tier()
    } else {
        find_symmetric_top_tier(&fbas)
    }
    .map(|q| from_qs(&q).norm());
    ensure!(
        got_top == want_top,
        "symmetric top tier {:?} but by definition it is {:?}",
        got_top.map(|q| q.show()),
        want_top.map(|q| q.show())
    );
    if want_top.is_some() {
        case.count("symmetric top tier");
    }
    let warm = case.rng.below(4);
    match warm {
        0 => {
            a.minimal_blocking_sets();
            case.count("top tier asked after blocking sets");
        }
        1 => {
            a.minimal_quorums();
        }
        _ => {}
    }
    let got = to_set(&a.top_tier().unwrap());
    ensure!(
        &got == top,
        "top tier {:?} but the minimal quorums consist of {:?}",
        got,
        top
    );
    if let (Some(q), false) = (&want_top, top.is_empty()) {
        // a symmetric top tier only has top-tier nodes
        ensure!(top.is_subset(&q.nodes()), "top tier {:?} is not inside its quorum set", top);
    }
    Ok(())
}
fn main() {
    let mut c = Check::start("C06", "exploration",
        "generated FBASs of 16 families (see C01), unions of symmetric parts with and without extra quorums, every 3-node flat FBAS, larger FBASs with certified minimal quorums; non-trivial = has a quorum; distinct by quorum-set tuple");
    c.cases("families", 120000, 3000000, |case| {
        let Some((net, truth)) = small_net(case) else {
            return Ok(());
        };
        judge(&net, &truth.top, case)
    });
    c.cases("symmetric parts", 30000, 500000, |case| {
        let mut net = Net::default();
        for _ in 0..case.rng.range(1, 3) {
            let k = case.rng.range(1, 4);
            let dups = case.rng.chance(1, 4);
            let p = fmodel::gen::symmetric(&mut case.rng, k, dups, true);
            let off = net.n();
            for q in &p.qs {
                net.qs.push(q.rename(&|x| Some(x + off)));
            }
        }
        if case.rng.chance(1, 2) {
            // nodes that are a quorum with whoever they like, without being symmetric
            let n = net.n();
            for _ in 0..case.rng.range(1, 2) {
                let y = case.rng.below(n);
                let me = net.n();
                net.qs.push(match case.rng.below(3) {
                    0 => Q::flat(1, vec![me, y]),
                    1 => Q::flat(1, vec![me, me]),
                    _ => Q::flat(2, vec![me, y]),
                });
            }
        }
        if case.rng.chance(1, 4) {
            let mut r = case.rng.clone();
            fmodel::gen::perturb(&mut r, &mut net);
            case.rng = r;
        }
        net.kind = "symmetric parts".into();
        net.pks = fmodel::net::default_pks(net.n());
        fmodel::gen::decorate(&mut case.rng, &mut net, &Default::default());
        case.input(net.show());
        let Some(truth) = Truth::of_up_to(&net, 13) else { return Ok(()) };
        observe(case, &net, &truth);
        judge(&net, &truth.top, case)
    });
    c.cases("exhaustive3", EXHAUSTIVE_3, EXHAUSTIVE_3, |case| {
        let net = exhaustive3(case.index);
        case.input(net.show());
        let truth = Truth::of(&net).unwrap();
        observe(case, &net, &truth);
        judge(&net, &truth.top, case)
    });
    c.cases("large", 400, 8000, |case| {
        let net = large_net(case);
        let mq = fam(&find_minimal_quorums(&build_json(&net)));
        if !matches!(certify_minimal_quorums(&net, &mq), Ok(Some(_))) {
            case.count("large: minimal quorums not certified, not judged");
            return Ok(());
        }
        let top: Set = mq.iter().flatten().copied().collect();
        case.count("large: judged");
        if !top.is_empty() {
            case.nontrivial(&net.qs);
        }
        judge(&net, &top, case)
    });
    c.require("symmetric top tier", 1000);
    c.require("several symmetric clusters", 300);
    c.require("quorum next to the only symmetric cluster", 100);
    c.require("top tier asked after blocking sets", 1000);
    c.require("more than 64 nodes", 50);
    c.require("large: judged", 100);
    c.finish();
}
