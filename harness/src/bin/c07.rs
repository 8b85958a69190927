use std::collections::BTreeSet;
use vharness::*;

const QUERIES: usize = 11;
const NAMES: [&str; QUERIES] = [
    "minimal quorums",
    "minimal blocking sets",
    "minimal splitting sets",
    "quorum intersection",
    "alternative check",
    "top tier",
    "all nodes",
    "satisfiable nodes",
    "unsatisfiable nodes",
    "symmetric top tier",
    "symmetric clusters",
];

/// What the definitions (or, for large FBASs, a fresh analysis) say.
struct Want {
    fams: [BTreeSet<Set>; 3],
    qi: bool,
    has_quorum: bool,
    top: Set,
    sat: Set,
    sym: BTreeSet<Q>,
    sym_top: Option<Q>,
}
enum Held {
    Fam(NodeIdSetVecResult, usize),
    One(NodeIdSetResult, Set, &'static str),
}
fn check_fam(w: &Want, k: usize, r: &NodeIdSetVecResult) -> Verdict {
    let got = r.clone().unwrap();
    let f = fam(&got);
    let nothing_to_block = k == 1 && !w.has_quorum && f.iter().all(|s| s.is_empty());
    ensure!(
        nothing_to_block || f == w.fams[k],
        "{}: {} instead of {}",
        NAMES[k],
        show_fam(&f),
        show_fam(&w.fams[k])
    );
    ensure!(
        r.len() == f.len() && got.windows(2).all(|p| p[0].len() <= p[1].len()),
        "{}: listed twice or not smallest first",
        NAMES[k]
    );
    let nodes: Set = f.iter().flatten().copied().collect();
    ensure!(
        to_set(&r.involved_nodes()) == nodes,
        "{}: involved nodes {:?} instead of {:?}",
        NAMES[k],
        to_set(&r.involved_nodes()),
        nodes
    );
    Ok(())
}
fn ask(a: &Analysis, k: usize, w: &Want, net: &Net, held: &mut Vec<Held>) -> Verdict {
    match k {
        0..=2 => {
            let r = match k {
                0 => a.minimal_quorums(),
                1 => a.minimal_blocking_sets(),
                _ => a.minimal_splitting_sets(),
            };
            check_fam(w, k, &r)?;
            held.push(Held::Fam(r, k));
        }
        3 => ensure!(a.has_quorum_intersection() == w.qi, "quorum intersection {}", !w.qi),
        4 => {
            let (v, r) = a.has_quorum_intersection_via_alternative_check();
            ensure!(v == w.qi, "alternative check {}", v);
            ensure!(r.is_some() == (!w.qi && w.has_quorum), "witness {:?}", r);
            if let Some(r) = r {
                let sets: Vec<Set> = r.unwrap().iter().map(to_set).collect();
                ensure!(
                    sets.len() >= 2
                        && sets.iter().all(|s| net.is_quorum(s))
                        && sets[0].is_disjoint(&sets[1]),
                    "witness {:?}",
                    sets
                );
            }
        }
        5..=8 => {
            let (r, s) = match k {
                5 => (a.top_tier(), w.top.clone()),
                6 => (a.all_nodes(), net.all()),
                7 => (a.satisfiable_nodes(), w.sat.clone()),
                _ => (a.unsatisfiable_nodes(), minus(&net.all(), &w.sat)),
            };
            ensure!(
                to_set(&r.clone().unwrap()) == s,
                "{}: {:?} instead of {:?}",
                NAMES[k],
                to_set(&r.unwrap()),
                s
            );
            held.push(Held::One(r, s, NAMES[k]));
        }
        9 => {
            let q = a.symmetric_top_tier().map(|q| from_qs(&q).norm());
            ensure!(q == w.sym_top, "symmetric top tier {:?} instead of {:?}", q, w.sym_top);
        }
        _ => {
            let c = a.symmetric_clusters();
            let q: BTreeSet<Q> = c.iter().map(|q| from_qs(q).norm()).collect();
            ensure!(q == w.sym && c.len() == q.len(), "symmetric clusters {:?} instead of {:?}", c, w.sym);
        }
    }
    Ok(())
}
fn history(net: &Net, w: &Want, order: &[usize], case: &mut Case) -> Verdict {
    let mut fbas = build_any(net, case);
    let a = Analysis::new(&fbas);
    if case.rng.chance(1, 3) {
        // what happens to the FBAS after the analysis was started is none of its business
        for _ in 0..3 {
            let x = case.rng.below(net.n());
            fbas.swap_quorum_set(x, QuorumSet { threshold: 1, validators: vec![x], inner_quorum_sets: vec![] });
        }
        case.count("FBAS changed behind the analysis");
    }
    let mut held = vec![];
    for (i, &k) in order.iter().enumerate() {
        ask(&a, k, w, net, &mut held).map_err(|mut v| {
            let names: Vec<&str> = order[..=i].iter().map(|&k| NAMES[k]).collect();
            v.detail = format!("after [{}]: {}", names.join(", "), v.detail);
            v
        })?;
        case.count("answers checked");
    }
    // answers handed out earlier still say the same
    for h in &held {
        match h {
            Held::Fam(r, k) => check_fam(w, *k, r).map_err(|mut v| {
                v.detail = format!("an answer held over later queries changed: {}", v.detail);
                v
            })?,
            Held::One(r, s, what) => ensure!(
                to_set(&r.clone().unwrap()) == *s,
                "an answer held over later queries changed: {}",
                what
            ),
        }
        case.count("held answers checked again");
    }
    Ok(())
}
fn symmetric(fbas: &Fbas) -> (BTreeSet<Q>, Option<Q>) {
    (
        find_symmetric_clusters(fbas).iter().map(|q| from_qs(q).norm()).collect(),
        find_symmetric_top_tier(fbas).map(|q| from_qs(&q).norm()),
    )
}
fn main() {
    let mut c = Check::start("C07", "exploration",
        "generated FBASs of 16 families (see C01), each asked a sequence of 3 to 12 queries on one analysis (all 1331 openings of three queries are covered), every answer judged by definition when given and again at the end; non-trivial = has a quorum; distinct by (quorum sets, sequence)");
    c.cases("histories", 130000, 3000000, |case| {
        let Some((net, truth)) = small_net(case) else {
            return Ok(());
        };
        // representation of clusters is compared between builds, so use the canonical order
        let net = Net { qs: net.qs.iter().map(|q| q.norm()).collect(), ..net };
        let (sym, sym_top) = symmetric(&build_api(&net));
        let w = Want {
            fams: [truth.mq.clone(), truth.mbs.clone(), truth.mss.clone()],
            qi: truth.qi,
            has_quorum: !truth.mq.is_empty(),
            top: truth.top.clone(),
            sat: truth.sat.iter().copied().collect(),
            sym,
            sym_top,
        };
        let i = case.index as usize;
        let mut order = vec![i % 11, i / 11 % 11, i / 121 % 11];
        for _ in 0..case.rng.below(10) {
            order.push(case.rng.below(QUERIES));
        }
        case.more_input(&format!(" queries {:?}", order));
        if w.has_quorum {
            case.nontrivial((&net.qs, &order));
        }
        case.nontrivial(&order[..3]);
        history(&net, &w, &order, case)
    });
    // Beyond enumeration: the answers to each query asked alone are the reference.
    c.cases("large histories", 400, 8000, |case| {
        let net = large_net(case);
        let net = Net { qs: net.qs.iter().map(|q| q.norm()).collect(), ..net };
        let fbas = build_api(&net);
        let mq = fam(&Analysis::new(&fbas).minimal_quorums().unwrap());
        if mq.len() > 400 {
            return Ok(());
        }
        let mbs = fam(&Analysis::new(&fbas).minimal_blocking_sets().unwrap());
        let mss = fam(&Analysis::new(&fbas).minimal_splitting_sets().unwrap());
        let (sym, sym_top) = symmetric(&fbas);
        let w = Want {
            qi: Analysis::new(&fbas).has_quorum_intersection(),
            has_quorum: !mq.is_empty(),
            top: to_set(&Analysis::new(&fbas).top_tier().unwrap()),
            sat: net.satisfiable(),
            fams: [mq, mbs, mss],
            sym,
            sym_top,
        };
        let order: Vec<usize> = (0..8).map(|_| case.rng.below(QUERIES)).collect();
        case.more_input(&format!(" queries {:?}", order));
        if w.has_quorum {
            case.nontrivial((&net.qs, &order));
            case.count("large histories");
        }
        history(&net, &w, &order, case)
    });
    // Many threads, each with its own analysis of one shared FBAS.
    c.cases_on("threads", 60, 1500, 1, |case| {
        let Some((net, truth)) = small_net(case) else {
            return Ok(());
        };
        let fbas = build_any(&net, case);
        let (sym, sym_top) = symmetric(&fbas);
        let w = Want {
            fams: [truth.mq.clone(), truth.mbs.clone(), truth.mss.clone()],
            qi: truth.qi,
            has_quorum: !truth.mq.is_empty(),
            top: truth.top.clone(),
            sat: truth.sat.iter().copied().collect(),
            sym,
            sym_top,
        };
        let orders: Vec<Vec<usize>> = (0..8)
            .map(|_| (0..6).map(|_| case.rng.below(QUERIES)).collect())
            .collect();
        let results: Vec<Verdict> = std::thread::scope(|s| {
            let hs: Vec<_> = orders
                .iter()
                .map(|order| {
                    let (fbas, w, net) = (&fbas, &w, &net);
                    s.spawn(move || {
                        let a = Analysis::new(fbas);
                        let mut held = vec![];
                        for &k in order {
                            ask(&a, k, w, net, &mut held)?;
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked in a thread".into()))).collect()
        });
        for r in results {
            r?;
            case.count("threads that shared an FBAS");
        }
        Ok(())
    });
    c.require("answers checked", 100000);
    c.require("held answers checked again", 50000);
    c.require("quorum intersection", 1000);
    c.require("disjoint quorums", 1000);
    c.require("more than 64 nodes", 50);
    c.require("threads that shared an FBAS", 100);
    c.finish();
}
