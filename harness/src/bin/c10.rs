use std::collections::BTreeSet;
use vharness::*;

struct Results {
    mq: BTreeSet<Set>,
    mbs: BTreeSet<Set>,
    mss: BTreeSet<Set>,
    qi: bool,
    top: Set,
    sym: BTreeSet<Q>,
}
fn analyse(fbas: &Fbas) -> Results {
    let a = Analysis::new(fbas);
    Results {
        mq: fam(&a.minimal_quorums().unwrap()),
        mbs: fam(&a.minimal_blocking_sets().unwrap()),
        mss: fam(&a.minimal_splitting_sets().unwrap()),
        qi: a.has_quorum_intersection(),
        top: to_set(&a.top_tier().unwrap()),
        sym: a.symmetric_clusters().iter().map(|q| from_qs(q).norm()).collect(),
    }
}
fn same(what: &str, a: &Results, b: &Results) -> Verdict {
    for (name, x, y) in [
        ("minimal quorums", &a.mq, &b.mq),
        ("minimal blocking sets", &a.mbs, &b.mbs),
        ("minimal splitting sets", &a.mss, &b.mss),
    ] {
        if x != y {
            let lost: Vec<&Set> = x.difference(y).take(4).collect();
            let new: Vec<&Set> = y.difference(x).take(4).collect();
            ensure!(false, "{} change {}: lost {:?}, new {:?}", what, name, lost, new);
        }
    }
    ensure!(a.qi == b.qi, "{} changes quorum intersection to {}", what, b.qi);
    ensure!(a.top == b.top, "{} changes the top tier to {:?}", what, b.top);
    ensure!(a.sym == b.sym, "{} changes the symmetric clusters", what);
    Ok(())
}
fn mapped(r: &Results, perm: &[usize]) -> Results {
    Results {
        mq: map_fam(&r.mq, perm),
        mbs: map_fam(&r.mbs, perm),
        mss: map_fam(&r.mss, perm),
        qi: r.qi,
        top: map_set(&r.top, perm),
        sym: r.sym.iter().map(|q| q.rename(&|x| Some(perm[x])).norm()).collect(),
    }
}
/// Laws that tie the results of one FBAS together, at any size.
fn laws(net: &Net, r: &Results, case: &mut Case) -> Verdict {
    if r.mq.is_empty() {
        ensure!(net.satisfiable().is_empty(), "no minimal quorum although there are quorums");
        return Ok(());
    }
    if let Some(h) = tr(&r.mq) {
        ensure!(
            h == r.mbs,
            "the minimal blocking sets are not the minimal sets hitting every minimal quorum: {} hitting sets, {} blocking sets",
            h.len(), r.mbs.len()
        );
        case.count("blocking sets = minimal hitting sets of the quorums");
        for t in h.iter().take(200) {
            ensure!(net.greatest_quorum(&minus(&net.all(), t)).is_empty(), "{:?} should block", t);
        }
    }
    ensure!(r.mq.iter().flatten().copied().collect::<Set>() == r.top, "top tier {:?}", r.top);
    ensure!(r.mbs.iter().flatten().copied().collect::<Set>() == r.top, "top tier vs blocking sets {:?}", r.top);
    for q in r.mq.iter().take(200) {
        ensure!(net.is_quorum(q), "{:?} is no quorum", q);
    }
    if r.mq.len() <= 1500 && r.top.len() <= 128 {
        let want = splitting_sets_by_definition(&r.mq);
        ensure!(want == r.mss, "splitting sets do not follow from the minimal quorums: {} expected, {} found", want.len(), r.mss.len());
        ensure!(r.qi == !want.contains(&Set::new()), "quorum intersection {}", r.qi);
        case.count("splitting sets follow from the quorums");
    }
    Ok(())
}
fn invariance(net: &Net, r: &Results, case: &mut Case) -> Verdict {
    let n = net.n();
    // other numbering, other member order
    let p = case.rng.perm(n);
    let mut other = net.renamed(&p);
    for q in other.qs.iter_mut() {
        *q = q.shuffled(&mut case.rng);
    }
    let r2 = analyse(&build_json(&other));
    same("renumbering and reordering", &mapped(r, &p), &r2)?;
    case.count("renumberings compared");
    // nodes that nobody listens to and that cannot agree on their own
    let mut more = net.clone();
    let crowd = case.rng.chance(1, 80);
    if crowd {
        case.count("crowds of nodes nobody listens to");
    }
    for _ in 0..if crowd { case.rng.range(200, 1500) } else { case.rng.range(1, 5) } {
        let me = more.n();
        let x = case.rng.below(n);
        let q = match case.rng.below(5) {
            0 => Q::default(),
            1 => Q::flat(2, vec![x, me]),
            2 => Q::flat(1, vec![x]),
            3 => Q::flat(7, vec![x, me]),
            _ => net.qs[x].clone(),
        };
        more.qs.push(q);
        more.pks.push(format!("additional {}", me));
    }
    let r3 = analyse(&build_json(&more));
    same("adding nodes nobody listens to", r, &r3)?;
    // unsatisfiable nodes disappear
    let sat = net.satisfiable();
    let mut less = net.clone();
    for x in 0..n {
        if !sat.contains(&x) {
            less.qs[x] = Q::default();
        } else {
            less.qs[x] = less.qs[x].rename(&|y| if sat.contains(&y) { Some(y) } else { None });
        }
    }
    let r4 = analyse(&build_json(&less));
    let mut r4 = r4;
    r4.sym = r.sym.clone(); // clusters print the members they were configured with
    same("removing unsatisfiable nodes", r, &r4)?;
    if sat.len() < n {
        case.count("unsatisfiable nodes removed");
    }
    Ok(())
}
fn main() {
    let mut c = Check::start("C10", "exploration",
        "pairs of runs of the real code on related FBASs (renumbered and reordered; extended by unheard nodes; stripped of unsatisfiable nodes) plus laws between the results of one run, on large generated FBASs and on mutated stellarbeat.org data of 190 nodes; non-trivial = has a quorum; distinct by quorum sets");
    c.cases("generated", 8000, 500000, |case| {
        let max_n = case.rng.range(2, 14);
        let net = fmodel::gen::any(&mut case.rng, &fmodel::gen::Opts { max_n, ..Default::default() });
        case.input(net.show());
        if net.qs.iter().any(|q| q.any_level(&|x| x.slice_count() > 5000.0)) {
            return Ok(());
        }
        let r = analyse(&build_json(&net));
        if r.mq.len() > 3000 || r.mbs.len() > 3000 {
            return Ok(());
        }
        if net.n() > 64 { case.count("more than 64 nodes"); }
        if !r.mq.is_empty() { case.nontrivial(&net.qs); }
        laws(&net, &r, case)?;
        invariance(&net, &r, case)
    });
    c.cases("large", 300, 8000, |case| {
        let net = large_net(case);
        let r = analyse(&build_json(&net));
        if r.mq.len() > 3000 || r.mbs.len() > 3000 {
            return Ok(());
        }
        if !r.mq.is_empty() { case.nontrivial(&net.qs); }
        laws(&net, &r, case)?;
        invariance(&net, &r, case)
    });
    let real = real_nets();
    c.note("real networks loaded", real.len() as u64);
    c.cases("wide", 8, 60, |case| {
        // hundreds of nodes that every quorum needs, and a few of which it needs some
        let (core, others) = (case.rng.range(256, 300), case.rng.range(1, 4));
        let inner = |q| Q { i: vec![Q::flat(core as u64, (0..core).collect()), q], ..Q::flat(2, vec![]) };
        let mut qs = vec![inner(Q::flat(case.rng.range(1, others) as u64, (core..core + others).collect())); core + others];
        if case.rng.chance(1, 2) {
            // no symmetric cluster
            let x = case.rng.below(core);
            qs[x].i.pop();
            qs[x].t = 1;
        }
        let net = Net::new(qs);
        case.input(format!("{} nodes everybody needs and {} more: {}", core, others, net.qs[core].i[1].show()));
        let r = analyse(&build_json(&net));
        if r.mq.iter().any(|s| s.len() > 255) {
            case.count("quorums of more than 255 nodes");
        }
        case.nontrivial(&net.qs);
        laws(&net, &r, case)?;
        invariance(&net, &r, case)
    });
    c.cases("real", 40, 1200, |case| {
        let mut net = real[case.rng.below(real.len())].clone();
        let n = net.n();
        // outages and reconfigurations
        for _ in 0..case.rng.below(8) {
            let x = case.rng.below(n);
            match case.rng.below(4) {
                0 => net.qs[x] = Q::default(),
                1 => net.qs[x].t += 1,
                2 => net.qs[x] = net.qs[case.rng.below(n)].clone(),
                _ => { let y = case.rng.below(n); net.qs[x].v.push(y) }
            }
        }
        case.input(format!("{} nodes, first quorum sets {:?}", n, net.qs.iter().take(12).map(|q| q.show()).collect::<Vec<_>>()));
        let fbas = build_json(&net);
        if Analysis::new(&fbas).minimal_quorums().len() > 2500 {
            case.count("skipped: too many minimal quorums");
            return Ok(());
        }
        let r = analyse(&fbas);
        case.count("real networks analysed");
        if !r.mq.is_empty() { case.nontrivial(&net.qs); }
        laws(&net, &r, case)?;
        let p = case.rng.perm(n);
        let r2 = analyse(&build_json(&net.renamed(&p)));
        same("renumbering", &mapped(&r, &p), &r2)?;
        case.count("renumberings compared");
        Ok(())
    });
    c.require("crowds of nodes nobody listens to", 30);
    c.require("renumberings compared", 2000);
    c.require("blocking sets = minimal hitting sets of the quorums", 2000);
    c.require("splitting sets follow from the quorums", 2000);
    c.require("unsatisfiable nodes removed", 1000);
    c.require("real networks analysed", 10);
    c.require("quorums of more than 255 nodes", 8);
    c.finish();
}
