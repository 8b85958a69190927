use fmodel::serde_json;
use fmodel::serde_json::{json, Value};
use vharness::*;

type Owner<'a> = (&'a [Option<usize>], &'a [String]);
fn name(x: usize, net: &Net, owner: Option<Owner>) -> String {
    match owner.and_then(|o| o.0[x].map(|g| o.1[g].clone())) {
        Some(g) => g,
        None => net.pks[x].clone(),
    }
}
fn parse(s: &str) -> Result<Value, Violation> {
    serde_json::from_str(s).map_err(|e| Violation::from(format!("{:?} is not JSON: {}", s, e)))
}
fn q_ids(q: &Q) -> Value {
    json!({"threshold": q.t, "validators": q.v, "innerQuorumSets": q.i.iter().map(q_ids).collect::<Vec<_>>()})
}
/// The same with absent optional lists filled in.
fn fill(v: &mut Value) {
    if let Some(o) = v.as_object_mut() {
        o.entry("innerQuorumSets").or_insert(json!([]));
        o.entry("validators").or_insert(json!([]));
        if let Some(i) = o.get_mut("innerQuorumSets").and_then(|i| i.as_array_mut()) {
            i.iter_mut().for_each(fill);
        }
    } else if let Some(a) = v.as_array_mut() {
        a.iter_mut().for_each(fill);
    }
}
fn q_names(q: &Q, net: &Net, owner: Option<Owner>) -> Value {
    json!({"threshold": q.t,
           "validators": q.v.iter().map(|&x| name(x, net, owner)).collect::<Vec<_>>(),
           "innerQuorumSets": q.i.iter().map(|i| q_names(i, net, owner)).collect::<Vec<_>>()})
}
fn pretty_value(p: &PrettyQuorumSet) -> Value {
    json!({"threshold": p.threshold, "validators": p.validators,
           "innerQuorumSets": p.inner_quorum_sets.iter().map(pretty_value).collect::<Vec<_>>()})
}
fn sets(r: NodeIdSetVecResult, net: &Net, fbas: &Fbas, gs: &Groupings, owner: Owner, case: &mut Case) -> Verdict {
    let f: Vec<Set> = r.clone().unwrap().iter().map(to_set).collect();
    let ids: Value = json!(f);
    ensure!(parse(&r.clone().into_id_string())? == ids, "ID string {} instead of {}", r.clone().into_id_string(), ids);
    ensure!(serde_json::to_value(&r).unwrap() == ids, "serialized as {}", serde_json::to_value(&r).unwrap());
    for (g, o) in [(None, None), (Some(gs), Some(owner))] {
        let names: Vec<Vec<String>> = f.iter().map(|s| s.iter().map(|&x| name(x, net, o)).collect()).collect();
        let got = r.clone().into_pretty_vec_vec(fbas, g);
        ensure!(got == names, "names {:?} instead of {:?}", got, names);
        ensure!(parse(&r.clone().into_pretty_string(fbas, g))? == json!(names), "pretty string {}", r.clone().into_pretty_string(fbas, g));
        case.count("families rendered");
    }
    let sizes: Vec<usize> = f.iter().map(|s| s.len()).collect();
    let max = sizes.iter().max().copied().unwrap_or(0);
    let hist: Vec<usize> = (0..=max).map(|k| sizes.iter().filter(|&&s| s == k).count()).collect();
    let mean = if f.is_empty() { 0.0 } else { sizes.iter().sum::<usize>() as f64 / f.len() as f64 };
    let nodes: Set = f.iter().flatten().copied().collect();
    let d = parse(&r.clone().into_describe_string())?;
    ensure!(
        d[0] == json!(f.len()) && d[1] == json!(nodes.len()) && d[2][0] == json!(sizes.iter().min().copied().unwrap_or(0))
            && d[2][1] == json!(max) && (d[2][2].as_f64().unwrap_or(-1.0) - mean).abs() < 1e-9 && d[3] == json!(hist),
        "described as {} although the sets are {:?}", d, f
    );
    Ok(())
}
fn main() {
    let mut c = Check::start("C17", "exploration",
        "all results of analyses of generated FBASs with unusual public keys, rendered in every form (IDs, public keys, group names, description, serialization) and parsed back; non-trivial = two or more sets; distinct by (public keys, quorum sets)");
    c.cases("renderings", 60000, 1500000, |case| {
        let Some((mut net, truth)) = small_net(case) else { return Ok(()) };
        let n = net.n();
        net.pks = fmodel::gen::odd_pks(&mut case.rng, n);
        case.input(net.show());
        let fbas = build_json(&net);
        let groups = random_groups(&mut case.rng, n);
        let mut owner = vec![None; n];
        for (i, g) in groups.iter().enumerate() {
            for &x in g {
                owner[x] = Some(i);
            }
        }
        if truth.mq.len() > 1 {
            case.nontrivial((&net.pks, &net.qs));
        }
        let mut names = fmodel::gen::odd_pks(&mut case.rng, groups.len());
        let mut plain = groups_json(&groups, &net.pks);
        for (i, name) in names.iter_mut().enumerate() {
            *name = match case.rng.below(8) {
                0 => String::new(),
                1 => case.rng.pick(&[" ", "\t", "null", "[]", "\"", "\\"]).to_string(),
                2 => net.pks[case.rng.below(n)].clone(),
                3 => i.to_string(),
                4 => std::mem::take(name),
                _ => format!("group {}", i),
            };
            plain[i]["name"] = json!(name);
        }
        case.more_input(&format!(" groups {:?} named {:?}", groups, names));
        let owner: Owner = (&owner, &names);
        let gs = Groupings::organizations_from_json_str(&plain.to_string(), &fbas);
        let a = Analysis::new(&fbas);
        sets(a.minimal_quorums(), &net, &fbas, &gs, owner, case)?;
        sets(a.minimal_blocking_sets(), &net, &fbas, &gs, owner, case)?;
        sets(a.minimal_splitting_sets(), &net, &fbas, &gs, owner, case)?;
        sets(a.minimal_quorums().merged_by_group(&gs).minimal_sets(), &net, &fbas, &gs, owner, case)?;
        for r in [a.top_tier(), a.all_nodes(), a.unsatisfiable_nodes(), a.top_tier().merged_by_group(&gs)] {
            let s: Vec<usize> = r.clone().unwrap().iter().collect();
            ensure!(parse(&r.clone().into_id_string())? == json!(s), "ID string {}", r.clone().into_id_string());
            ensure!(serde_json::to_value(&r).unwrap() == json!(s), "serialized as {}", serde_json::to_value(&r).unwrap());
            ensure!(r.clone().into_describe_string() == s.len().to_string(), "described as {}", r.clone().into_describe_string());
            for (g, o) in [(None, None), (Some(&gs), Some(owner))] {
                let names: Vec<String> = s.iter().map(|&x| name(x, &net, o)).collect();
                ensure!(r.clone().into_pretty_vec(&fbas, g) == names, "names {:?} instead of {:?}", r.clone().into_pretty_vec(&fbas, g), names);
                ensure!(parse(&r.clone().into_pretty_string(&fbas, g))? == json!(names), "pretty string {}", r.clone().into_pretty_string(&fbas, g));
            }
            case.count("sets rendered");
        }
        // quorum sets
        let all: Vec<QuorumSet> = (0..n).map(|x| fbas.get_quorum_set(x).unwrap()).take(6).collect();
        let merged = gs.merge_quorum_sets(all.clone());
        let ids = json!(all.iter().map(|q| q_ids(&from_qs(q))).collect::<Vec<_>>());
        let mut got = parse(&all.clone().into_id_string())?;
        fill(&mut got);
        ensure!(got == ids, "quorum sets as IDs {} instead of {}", got, ids);
        ensure!(all.clone().into_describe_string() == all.clone().into_id_string(), "quorum sets described as {}", all.clone().into_describe_string());
        for (g, o, list) in [(None, None, &all), (Some(&gs), Some(owner), &merged)] {
            let want = json!(list.iter().map(|q| q_names(&from_qs(q), &net, o)).collect::<Vec<_>>());
            let mut got = parse(&all.clone().into_pretty_string(&fbas, g))?;
            fill(&mut got);
            ensure!(got == want, "quorum sets as names {} instead of {}", got, want);
            for (q, w) in all.iter().zip(want.as_array().unwrap()) {
                let p = q.clone().into_pretty_quorum_set(&fbas, g);
                ensure!(pretty_value(&p) == *w, "pretty quorum set {:?} instead of {}", p, w);
                let mut s = parse(&q.clone().into_pretty_string(&fbas, g))?;
                fill(&mut s);
                ensure!(s == *w, "pretty quorum set {} instead of {}", s, w);
                let back: PrettyQuorumSet = serde_json::from_str(&serde_json::to_string(&p).unwrap()).unwrap();
                ensure!(back == p, "a pretty quorum set does not survive serialization: {:?}", p);
                case.count("quorum sets rendered");
            }
        }
        for q in &all {
            let mut s = parse(&q.clone().into_id_string())?;
            fill(&mut s);
            ensure!(s == q_ids(&from_qs(q)), "quorum set as IDs {}", s);
        }
        let b = truth.qi;
        ensure!(b.into_id_string() == b.to_string() && b.into_describe_string() == b.to_string() && b.into_pretty_string(&fbas, None) == b.to_string(), "booleans");
        ensure!(n.into_id_string() == n.to_string() && n.into_describe_string() == n.to_string() && n.into_pretty_string(&fbas, Some(&gs)) == n.to_string(), "numbers");
        Ok(())
    });
    c.cases("large renderings", 200, 4000, |case| {
        let net = large_or_wide_net(case);
        let n = net.n();
        let fbas = build_json(&net);
        let groups = random_groups(&mut case.rng, n);
        let mut owner = vec![None; n];
        for (i, g) in groups.iter().enumerate() {
            for &x in g {
                owner[x] = Some(i);
            }
        }
        let names: Vec<String> = (0..groups.len()).map(|i| format!("group {}", i)).collect();
        let gs = Groupings::organizations_from_json_str(&groups_json(&groups, &net.pks).to_string(), &fbas);
        let r = Analysis::new(&fbas).minimal_quorums();
        if r.max() > 255 {
            case.count("sets of more than 255 nodes rendered");
        }
        if r.len() > 255 {
            case.count("families of more than 255 sets rendered");
        }
        case.nontrivial(&net.qs);
        sets(r, &net, &fbas, &gs, (&owner, &names), case)
    });
    c.require("families of more than 255 sets rendered", 10);
    c.require("families rendered", 100000);
    c.require("sets rendered", 50000);
    c.require("quorum sets rendered", 50000);
    c.require("more than 64 nodes", 100);
    c.finish();
}
