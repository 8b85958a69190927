use vharness::*;

fn means(r: &NodeIdSetVecResult, want: &[Set], what: &str) -> Verdict {
    let got: Vec<Set> = r.clone().unwrap().iter().map(to_set).collect();
    ensure!(got == want, "{}: {:?} instead of {:?}", what, got, want);
    let vv: Vec<Vec<usize>> = want.iter().map(|s| s.iter().copied().collect()).collect();
    ensure!(r.clone().into_vec_vec() == vv, "{}: listed as {:?} instead of {:?}", what, r.clone().into_vec_vec(), vv);
    let inv: Set = want.iter().flatten().copied().collect();
    ensure!(to_set(&r.involved_nodes()) == inv, "{}: involved nodes {:?} instead of {:?}", what, to_set(&r.involved_nodes()), inv);
    ensure!(r.len() == want.len() && r.is_empty() == want.is_empty(), "{}: length {}", what, r.len());
    ensure!(r.contains_empty_set() == want.iter().any(|s| s.is_empty()), "{}: contains the empty set? {}", what, r.contains_empty_set());
    let sizes: Vec<usize> = want.iter().map(|s| s.len()).collect();
    let (min, max) = (sizes.iter().min().copied().unwrap_or(0), sizes.iter().max().copied().unwrap_or(0));
    let mean = if sizes.is_empty() { 0.0 } else { sizes.iter().sum::<usize>() as f64 / sizes.len() as f64 };
    ensure!(r.min() == min && r.max() == max && (r.mean() - mean).abs() < 1e-9, "{}: sizes {} {} {} of {:?}", what, r.min(), r.max(), r.mean(), want);
    let hist: Vec<usize> = (0..=max).map(|k| sizes.iter().filter(|&&s| s == k).count()).collect();
    ensure!(r.histogram() == hist, "{}: histogram {:?} instead of {:?}", what, r.histogram(), hist);
    let (n, d, mmm, h) = r.describe();
    ensure!(n == want.len() && d == inv.len() && mmm == r.minmaxmean() && mmm == (r.min(), r.max(), r.mean()) && h == hist,
        "{}: described as {:?}", what, r.describe());
    Ok(())
}
fn means_one(r: &NodeIdSetResult, want: &Set, what: &str) -> Verdict {
    ensure!(to_set(&r.clone().unwrap()) == *want, "{}: {:?} instead of {:?}", what, r.clone().unwrap(), want);
    ensure!(r.clone().into_vec() == want.iter().copied().collect::<Vec<_>>(), "{}: listed as {:?}", what, r.clone().into_vec());
    ensure!(r.len() == want.len() && r.is_empty() == want.is_empty(), "{}: length {}", what, r.len());
    ensure!(to_set(&r.involved_nodes()) == *want, "{}: involved nodes {:?}", what, r.involved_nodes());
    Ok(())
}
fn main() {
    let mut c = Check::start("C16", "exploration",
        "the results of analyses of generated FBASs (with IDs scattered over up to 100 nodes), put through random chains of 1 to 6 operations (remove nodes by ID, public key or group name; merge by group; reduce to minimal sets), compared with a plain list-of-sets model after every operation; non-trivial = a family of two or more sets; distinct by (quorum sets, chain)");
    c.cases("chains", 80000, 2000000, |case| {
        let Some((net, truth)) = small_net(case) else { return Ok(()) };
        let fbas = build_json(&net);
        let n = net.n();
        let groups = random_groups(&mut case.rng, n);
        let m = merged_ids(&groups, n);
        // groups may be called like nodes are: the name then means the group
        let called: Vec<String> = {
            let order = case.rng.perm(n);
            let alike = case.rng.chance(1, 3);
            (0..groups.len()).map(|i| if alike && i < n && case.rng.chance(1, 2) { net.pks[order[i]].clone() } else { format!("group {}", i) }).collect()
        };
        let mut doc = groups_json(&groups, &net.pks);
        for (i, name) in called.iter().enumerate() {
            doc[i]["name"] = fmodel::serde_json::json!(name);
        }
        let gs = Groupings::organizations_from_json_str(&doc.to_string(), &fbas);
        let a = Analysis::new(&fbas);
        let (r0, t0) = match case.rng.below(3) {
            0 => (a.minimal_quorums(), &truth.mq),
            1 => (a.minimal_blocking_sets(), &truth.mbs),
            _ => (a.minimal_splitting_sets(), &truth.mss),
        };
        let mut want: Vec<Set> = r0.clone().unwrap().iter().map(to_set).collect();
        // exactness of the results themselves is judged by C01 to C03
        let _ = t0;
        means(&r0, &want, "fresh result")?;
        let start = r0.clone();
        let start_want = want.clone();
        let mut r = r0;
        let (mut one, mut one_want) = match case.rng.below(4) {
            0 => (a.top_tier(), truth.top.clone()),
            1 => (a.all_nodes(), net.all()),
            2 => (a.satisfiable_nodes(), truth.sat.iter().copied().collect()),
            _ => (a.unsatisfiable_nodes(), minus(&net.all(), &truth.sat.iter().copied().collect())),
        };
        means_one(&one, &one_want, "fresh set")?;
        let mut log = vec![];
        for _ in 0..case.rng.range(1, 6) {
            let mut del = Set::new();
            let op = case.rng.below(7);
            match op {
                0 | 1 => {
                    // by ID, including nodes that are in no set and nodes that do not exist
                    for _ in 0..case.rng.below(4) {
                        del.insert(case.rng.below(n + 3));
                    }
                    if let Some(&x) = one_want.iter().next() {
                        if case.rng.chance(1, 2) { del.insert(x); }
                    }
                    let mut ids: Vec<usize> = del.iter().copied().collect();
                    case.rng.shuffle(&mut ids);
                    if let Some(&x) = ids.first() { if case.rng.chance(1, 3) { ids.push(x); } }
                    log.push(format!("without_nodes {:?}", ids));
                    r = r.without_nodes(&ids);
                    one = one.without_nodes(&ids);
                }
                2 => {
                    let mut names: Vec<String> = vec!["nobody".into()];
                    for _ in 0..case.rng.below(4) {
                        let x = case.rng.below(n);
                        names.push(net.pks[x].clone());
                        del.insert(x);
                    }
                    case.rng.shuffle(&mut names);
                    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
                    log.push(format!("without_nodes_pretty {:?}", names));
                    r = r.without_nodes_pretty(&names, &fbas, None);
                    one = one.without_nodes_pretty(&names, &fbas, None);
                }
                3 => {
                    let mut names: Vec<String> = vec!["group x".into()];
                    for _ in 0..case.rng.below(3) {
                        let g = case.rng.below(groups.len());
                        names.push(called[g].clone());
                        del.extend(&groups[g]);
                    }
                    if case.rng.chance(1, 2) {
                        let x = case.rng.below(n);
                        names.push(net.pks[x].clone());
                        match called.iter().position(|c| *c == net.pks[x]) {
                            Some(g) => {
                                del.extend(&groups[g]);
                                case.count("groups called like nodes");
                            }
                            None => {
                                del.insert(x);
                            }
                        }
                    }
                    case.rng.shuffle(&mut names);
                    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
                    log.push(format!("without_nodes_pretty by group {:?} {:?} {:?}", names, called, groups));
                    r = r.without_nodes_pretty(&names, &fbas, Some(&gs));
                    one = one.without_nodes_pretty(&names, &fbas, Some(&gs));
                }
                4 => {
                    log.push(format!("merged_by_group {:?}", groups));
                    r = r.merged_by_group(&gs);
                    one = one.merged_by_group(&gs);
                    want = want.iter().map(|s| s.iter().map(|&x| m[x]).collect()).collect();
                    one_want = one_want.iter().map(|&x| m[x]).collect();
                }
                _ => {
                    log.push("minimal_sets".to_string());
                    r = r.minimal_sets();
                    let min = fmodel::net::minimal_sets(&want);
                    same_family(&format!("after {:?}", log), &r.clone().unwrap(), &min)?;
                    want = r.clone().unwrap().iter().map(to_set).collect();
                }
            }
            want = want.iter().map(|s| minus(s, &del)).collect();
            one_want = minus(&one_want, &del);
            means(&r, &want, &format!("after {:?}", log))?;
            means_one(&one, &one_want, &format!("set after {:?}", log))?;
            case.count("operations");
        }
        if start_want.len() > 1 {
            case.nontrivial((&net.qs, &log));
        }
        means(&start, &start_want, "the result the chain started from")
    });
    c.cases("large", 300, 5000, |case| {
        let net = large_or_wide_net(case);
        let fbas = build_json(&net);
        let a = Analysis::new(&fbas);
        let r = a.minimal_quorums();
        let want: Vec<Set> = r.clone().unwrap().iter().map(to_set).collect();
        means(&r, &want, "large result")?;
        let drop: Vec<usize> = (0..case.rng.range(1, 20)).map(|_| case.rng.below(net.n())).collect();
        let left: Vec<Set> = want.iter().map(|s| minus(s, &drop.iter().copied().collect())).collect();
        means(&r.without_nodes(&drop), &left, "large result without nodes")?;
        if left.len() < 1000 {
            same_family("large minimal sets", &r.without_nodes(&drop).minimal_sets().unwrap(), &fmodel::net::minimal_sets(&left))?;
        }
        case.count("large results");
        if want.len() > 1 { case.nontrivial(&net.qs); }
        Ok(())
    });
    c.cases("empty", 1, 1, |case| {
        means(&NodeIdSetVecResult::default(), &[], "the default family")?;
        means_one(&NodeIdSetResult::default(), &Set::new(), "the default set")?;
        case.count("default results");
        Ok(())
    });
    c.require("operations", 100000);
    c.require("large results", 50);
    c.require("groups called like nodes", 1000);
    c.require("more than 64 nodes", 100);
    c.finish();
}
