use fmodel::serde_json;
use vharness::*;

fn image(s: &Set, keep: &[usize]) -> Set {
    s.iter().filter_map(|x| keep.iter().position(|k| k == x)).collect()
}
/// What is left of a quorum set when only some nodes are kept (in normal form, blank inner sets left out).
fn rest(q: &Q, keep: &[usize]) -> Q {
    let v: Vec<usize> = q.v.iter().filter_map(|x| keep.iter().position(|k| k == x)).collect();
    let i: Vec<Q> = q.i.iter().map(|x| rest(x, keep)).filter(|x| *x != Q::default()).collect();
    Q { t: q.t, v, i, u: 0 }.norm()
}
fn some_nodes(r: &mut Rng, n: usize) -> Set {
    let p = r.range(0, 5);
    (0..n).filter(|_| r.chance(p, 5)).collect()
}
fn main() {
    let mut c = Check::start("C31", "exploration",
        "generated FBASs restricted to random sets of nodes (and to their relevant, satisfiable, all and no nodes), repeatedly, with groupings and sets translated back and forth; non-trivial = some but not all nodes are kept and one of them has a quorum set with members; distinct by (quorum sets, kept nodes)");
    c.cases("restrict", 40000, 900000, |case| {
        let max_n = case.rng.range(1, 12);
        let mut net = fmodel::gen::any(&mut case.rng, &fmodel::gen::Opts { max_n, pad: 90, ..Default::default() });
        let n = net.n();
        net.pks = fmodel::gen::odd_pks(&mut case.rng, n);
        case.input(net.show());
        let fbas = build_json(&net);
        let before = fbas.to_json_string();
        let keep: Set = match case.rng.below(8) {
            0 => to_set(&fbas.relevant_nodes()),
            1 => net.satisfiable(),
            2 => net.all(),
            3 => Set::new(),
            _ => some_nodes(&mut case.rng, n),
        };
        let order: Vec<usize> = keep.iter().copied().collect();
        case.more_input(&format!("kept {:?}", keep));
        let (small, tr) = fbas.shrunken(to_bits(&keep));
        ensure!(fbas.to_json_string() == before, "restricting changes the original");
        ensure!(small.number_of_nodes() == keep.len(), "{} nodes are left", small.number_of_nodes());
        ensure!(*tr.unshrink_table() == order, "the kept nodes are {:?}", tr.unshrink_table());
        let written: serde_json::Value = serde_json::from_str(&small.to_json_string()).unwrap();
        for x in 0..n {
            let at = order.iter().position(|&y| y == x);
            ensure!(small.get_node_id(&net.pks[x]) == at, "node {:?} has ID {:?} instead of {:?}", net.pks[x], small.get_node_id(&net.pks[x]), at);
            if let Some(i) = at {
                ensure!(written[i]["publicKey"].as_str() == Some(&net.pks[x]), "node {} is called {}", i, written[i]["publicKey"]);
                let q = from_qs(&small.get_quorum_set(i).unwrap()).norm();
                ensure!(q == rest(&net.qs[x], &order), "quorum set of node {}: {} instead of {}", i, q.show(), rest(&net.qs[x], &order).show());
                case.count("nodes kept");
            }
        }
        for i in 0..5 {
            ensure!(keep.is_empty() || net.pks.contains(&format!("n{}", i)) || small.get_node_id(&format!("n{}", i)).is_none(), "there is a node n{}", i);
        }
        // sets of kept nodes mean the same before and after
        for _ in 0..8 {
            let p = case.rng.range(1, 4);
            let s: Set = order.iter().copied().filter(|_| case.rng.chance(p, 4)).collect();
            let t = image(&s, &order);
            let b = tr.shrink_set(&to_bits(&s));
            ensure!(to_set(&b) == t, "{:?} is translated to {:?}", s, b);
            ensure!(to_set(&tr.unshrink_set(&b)) == s, "{:?} is translated back to {:?}", b, tr.unshrink_set(&b));
            ensure!(small.is_quorum(&b) == net.is_quorum(&s), "{:?} is a quorum of the original? {}", s, net.is_quorum(&s));
            for (i, &x) in order.iter().enumerate() {
                let q = small.get_quorum_set(i).unwrap();
                ensure!(q.is_quorum_slice(&b) == net.qs[x].sat_set(&s), "{:?} satisfies node {}? {}", s, x, net.qs[x].sat_set(&s));
            }
            let g = net.greatest_quorum(&s);
            ensure!(small.is_quorum(&tr.shrink_set(&to_bits(&g))) == !g.is_empty(), "the quorum {:?} is lost", g);
            if !g.is_empty() {
                case.count("quorums kept");
            }
        }
        let family: Vec<Set> = (0..case.rng.below(5)).map(|_| order.iter().copied().filter(|_| case.rng.chance(1, 2)).collect()).collect();
        let down = tr.shrink_sets(&bits(&family));
        ensure!(down.iter().map(to_set).collect::<Vec<_>>() == family.iter().map(|s| image(s, &order)).collect::<Vec<_>>(), "{:?} is translated to {:?}", family, down);
        ensure!(tr.unshrink_sets(&down) == bits(&family), "{:?} is translated back wrongly", family);
        // restricting further
        let again = some_nodes(&mut case.rng, order.len());
        let direct: Set = again.iter().map(|&i| order[i]).collect();
        let (twice, _) = small.shrunken(to_bits(&again));
        let (once, tr2) = fbas.shrunken(to_bits(&direct));
        ensure!(twice == once, "restricting to {:?} and then to {:?} differs from doing so at once: {} {}", keep, direct, twice, once);
        for &x in &direct {
            ensure!(twice.get_node_id(&net.pks[x]) == once.get_node_id(&net.pks[x]), "node {:?} after two restrictions", net.pks[x]);
        }
        // translating between two restrictions
        let common: Vec<Set> = family.iter().map(|s| s.intersection(&direct).copied().collect()).collect();
        let direct_order: Vec<usize> = direct.iter().copied().collect();
        let got = tr2.reshrink_sets(&tr.shrink_sets(&bits(&common)), &tr);
        ensure!(got.iter().map(to_set).collect::<Vec<_>>() == common.iter().map(|s| image(s, &direct_order)).collect::<Vec<_>>(), "{:?} is translated to {:?} between {:?} and {:?}", common, got, order, direct);
        case.count("restricted twice");
        // also between parts of which neither contains the other, not least such of the same size
        let mut other = some_nodes(&mut case.rng, n);
        if case.rng.chance(1, 2) {
            let mut all: Vec<usize> = (0..n).collect();
            case.rng.shuffle(&mut all);
            other = all[..keep.len()].iter().copied().collect();
        }
        let other_order: Vec<usize> = other.iter().copied().collect();
        let (_, tr3) = fbas.shrunken(to_bits(&other));
        let common: Vec<Set> = (0..4).map(|_| keep.intersection(&other).copied().filter(|_| case.rng.chance(2, 3)).collect()).collect();
        let got = tr3.reshrink_sets(&tr.shrink_sets(&bits(&common)), &tr);
        ensure!(got.iter().map(to_set).collect::<Vec<_>>() == common.iter().map(|s| image(s, &other_order)).collect::<Vec<_>>(), "{:?} is translated to {:?} between {:?} and {:?}", common, got, order, other_order);
        if other.len() == keep.len() && other != keep && common.iter().any(|s| !s.is_empty()) {
            case.count("translated between parts of the same size");
        }
        // groups
        let groups = random_groups(&mut case.rng, n);
        let gs = Groupings::organizations_from_json_str(&groups_json(&groups, &net.pks).to_string(), &fbas);
        let small_gs = Groupings::shrunken(&gs, &tr, &small);
        ensure!(small_gs.number_of_groupings() == groups.len(), "{} groups", small_gs.number_of_groupings());
        let listed = serde_json::to_value(&small_gs).unwrap();
        for (k, g) in groups.iter().enumerate() {
            ensure!(listed[k]["name"] == format!("group {}", k), "group {} is called {}", k, listed[k]["name"]);
            let mut got: Vec<&str> = listed[k]["validators"].as_array().unwrap().iter().map(|v| v.as_str().unwrap()).collect();
            let mut want: Vec<&str> = g.iter().filter(|x| keep.contains(x)).map(|&x| net.pks[x].as_str()).collect();
            got.sort();
            want.sort();
            ensure!(got == want, "group {}: {:?} instead of {:?}", k, got, want);
            for x in g {
                if let Some(i) = order.iter().position(|y| y == x) {
                    ensure!(small_gs.get_by_member(i).is_some() && small_gs.get_by_member(i) == small_gs.get_by_name(&format!("group {}", k)), "node {} has lost its group", x);
                    case.count("grouped nodes kept");
                }
            }
        }
        for (i, x) in order.iter().enumerate() {
            if !groups.iter().any(|g| g.contains(x)) {
                ensure!(small_gs.get_by_member(i).is_none(), "node {} gets into a group", x);
            }
        }
        if keep.len() < n && order.iter().any(|&x| net.qs[x].members() > 0) {
            case.nontrivial((&net.qs, &keep));
        }
        Ok(())
    });
    c.cases("analyses", 20000, 400000, |case| {
        // minimal quorums inside the part are those of the whole that lie in it
        let Some((net, truth)) = small_net(case) else { return Ok(()) };
        let fbas = build_any(&net, case);
        let keep = if case.rng.chance(1, 2) {
            let mut k: Set = truth.mq.iter().filter(|_| case.rng.chance(1, 2)).flatten().copied().collect();
            k.extend(some_nodes(&mut case.rng, net.n()));
            k
        } else {
            some_nodes(&mut case.rng, net.n())
        };
        case.more_input(&format!("kept {:?}", keep));
        let (small, tr) = fbas.shrunken(to_bits(&keep));
        let a = Analysis::new(&small);
        let got = tr.unshrink_sets(&a.minimal_quorums().unwrap());
        let want: std::collections::BTreeSet<Set> = truth.mq.iter().filter(|q| q.is_subset(&keep)).cloned().collect();
        ensure!(fam(&got) == want, "minimal quorums of the part: {} instead of {}", show_fam(&fam(&got)), show_fam(&want));
        let all: Vec<&Set> = want.iter().collect();
        let disjoint = all.iter().any(|a| all.iter().any(|b| a.is_disjoint(b)));
        ensure!(a.has_quorum_intersection() == (!want.is_empty() && !disjoint), "quorum intersection of the part");
        case.add("minimal quorums of parts", want.len() as u64);
        if !want.is_empty() && want.len() < truth.mq.len() {
            case.nontrivial((&net.qs, &keep));
        }
        Ok(())
    });
    let real = real_nets();
    c.cases("real", 12, 60, |case| {
        let net = &real[case.index as usize % real.len()];
        let fbas = build_json(net);
        let keep = some_nodes(&mut case.rng, net.n());
        let order: Vec<usize> = keep.iter().copied().collect();
        let (small, _) = fbas.shrunken(to_bits(&keep));
        for (i, &x) in order.iter().enumerate() {
            ensure!(small.get_node_id(&net.pks[x]) == Some(i), "ID of {}", net.pks[x]);
            ensure!(small.get_quorum_set(i).map(|q| from_qs(&q).norm()) == Some(rest(&net.qs[x], &order)), "quorum set of {}", net.pks[x]);
            case.count("nodes kept");
        }
        case.nontrivial((case.index, &keep));
        Ok(())
    });
    c.require("nodes kept", 100000);
    c.require("translated between parts of the same size", 2000);
    c.require("quorums kept", 20000);
    c.require("restricted twice", 20000);
    c.require("grouped nodes kept", 50000);
    c.require("minimal quorums of parts", 10000);
    c.finish();
}
