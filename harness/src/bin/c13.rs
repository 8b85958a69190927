use fmodel::serde_json;
use fmodel::serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vharness::*;

const NAMES: [&str; 46] = [
    "unknown", "Unknown", "N/A", "n/a", "null", "none", "None", "-", "?", "0", "Inc", "undefined",
    "OVH SAS ", " OVH SAS", "ovh sas", "A", " ", " .", ". ", "a. ", "a ,", "\ta\n", "OVH  SAS", "z",
    "Hetzner Online GmbH", "OVH SAS", "OVH, SAS", "OVH SAS.", "Amazon.com, Inc.", "Amazon.com Inc", "DigitalOcean, LLC",
    "DigitalOcean LLC", "a.", "a", "a..", ".", "", ",", ",.", ".,", "Österreich", "中国", "Côte d'Ivoire", "São Tomé", "Z", "é.",
];
fn clean(name: &str) -> String {
    let s: String = name.chars().filter(|c| *c != ',').collect();
    match s.strip_suffix('.') {
        Some(t) => t.to_string(),
        None => s,
    }
}
/// name -> members, as the groupings are expected to be listed
type Want = Vec<(String, Vec<usize>)>;
fn means(g: &Groupings, want: &Want, net: &Net, what: &str) -> Verdict {
    ensure!(g.number_of_groupings() == want.len(), "{}: {} groups instead of {:?}", what, g.number_of_groupings(), want);
    let v = serde_json::to_value(g).unwrap();
    let expect = Value::Array(
        want.iter()
            .map(|(n, m)| json!({"name": n, "validators": m.iter().map(|&x| net.pks[x].clone()).collect::<Vec<_>>()}))
            .collect(),
    );
    ensure!(v == expect, "{}: groups {} instead of {}", what, v, expect);
    let mut owner = vec![None; net.n()];
    for (i, (_, m)) in want.iter().enumerate() {
        for &x in m {
            owner[x] = Some(i);
        }
    }
    for x in 0..net.n() {
        match owner[x] {
            None => {
                ensure!(g.get_by_member(x).is_none(), "{}: node {} is in no group", what, x);
                ensure!(g.merge_node(x) == x, "{}: node {} is in no group but merged", what, x);
            }
            Some(i) => {
                let (name, m) = &want[i];
                ensure!(
                    g.get_by_member(x).is_some() && g.get_by_member(x) == g.get_by_name(name),
                    "{}: node {} should be found in group {:?}", what, x, name
                );
                ensure!(g.merge_node(x) == m[0], "{}: node {} is merged into {} instead of {}", what, x, g.merge_node(x), m[0]);
            }
        }
    }
    for (name, _) in want {
        ensure!(g.get_by_name(name).is_some(), "{}: group {:?} cannot be found", what, name);
    }
    // names that resemble those of groups but are not
    let mut others: Vec<String> = vec!["no such group".into(), "group".into(), "\u{a0}".into()];
    for (name, m) in want {
        others.extend([name.to_lowercase(), name.to_uppercase(), format!("{} ", name), format!(" {}", name), format!("{}.", name), format!("{},", name), name.trim().to_string()]);
        let mut cut = name.clone();
        if cut.pop().is_some() {
            others.push(cut);
        }
        if let Some(&x) = m.first() {
            others.push(net.pks[x].clone());
        }
    }
    for name in others.iter().filter(|o| !want.iter().any(|w| w.0 == **o)) {
        ensure!(g.get_by_name(name).is_none(), "{}: group {:?} is found", what, name);
    }
    Ok(())
}
fn main() {
    let mut c = Check::start("C13", "exploration",
        "generated FBASs with random ISP and country fields (names with commas, trailing dots, non-ASCII and empty names) and random organisation files (unknown members, empty groups); non-trivial = some group has two or more members; distinct by document");
    let scratch = Scratch::new("c13");
    c.cases("groupings", 60000, 1500000, |case| {
        let n = case.rng.size(1, 14, 300);
        let mut net = fmodel::gen::random_flat(&mut case.rng, n);
        let mut pks = fmodel::gen::odd_pks(&mut case.rng, n + 3);
        let unknown = pks.split_off(n);
        net.pks = pks;
        let mut pool: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
        if n > NAMES.len() {
            // as many groups as nodes, or few
            pool.extend((0..n).map(|i| format!("provider {}{}", i * 37 % 1000, *case.rng.pick(&["", "", ",", "."]))));
            case.count("more than 64 nodes");
        }
        let k = case.rng.range(1, pool.len());
        let mut doc = net_json(&net);
        let mut isps: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        let mut countries: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for x in 0..n {
            match case.rng.below(6) {
                0 => {}
                1 => doc[x]["isp"] = Value::Null,
                _ => {
                    let name = pool[case.rng.below(k)].as_str();
                    doc[x]["isp"] = json!(name);
                    isps.entry(clean(name)).or_default().push(x);
                }
            }
            match case.rng.below(8) {
                0 => {}
                1 => doc[x]["geoData"] = json!({}),
                2 => doc[x]["geoData"] = json!({"countryName": Value::Null, "latitude": 1.0}),
                3 => doc[x]["geoData"] = Value::Null,
                _ => {
                    let name = pool[case.rng.below(k)].as_str();
                    doc[x]["geoData"] = json!({"countryName": name, "countryCode": "XX"});
                    countries.entry(clean(name)).or_default().push(x);
                }
            }
        }
        // the groupings may come from a document that knows nodes the FBAS does not have
        let mut wide = doc.clone();
        if case.rng.chance(1, 3) {
            for u in &unknown {
                let at = case.rng.below(n + 1);
                wide.as_array_mut().unwrap().insert(at.min(n), json!({"publicKey": u, "isp": "nowhere to be seen", "geoData": {"countryName": "nowhere to be seen"}}));
            }
            case.count("members unknown to the FBAS");
        }
        let widened = wide != doc;
        let text = doc.to_string();
        case.input(text.clone());
        if isps.values().chain(countries.values()).any(|m| m.len() > 1) {
            case.nontrivial(&text);
        }
        let fbas = Fbas::from_json_str(&text);
        let mut want_isps: Want = isps.into_iter().collect();
        let mut want_countries: Want = countries.into_iter().collect();
        if widened {
            for w in [&mut want_isps, &mut want_countries] {
                w.push(("nowhere to be seen".into(), vec![]));
                w.sort();
            }
        }
        let wide = wide.to_string();
        let gi = Groupings::isps_from_json_str(&wide, &fbas);
        let gc = Groupings::countries_from_json_str(&wide, &fbas);
        means(&gi, &want_isps, &net, "ISPs")?;
        means(&gc, &want_countries, &net, "countries")?;
        case.add("groups from node documents", (want_isps.len() + want_countries.len()) as u64);
        // organisations: listed as given, names untouched, unknown members ignored
        let groups = random_groups(&mut case.rng, n);
        let mut names: Vec<String> = pool.clone();
        case.rng.shuffle(&mut names);
        if groups.len() > 256 {
            case.count("more than 256 groups");
        }
        let want_orgs: Want = groups.iter().enumerate().map(|(i, g)| (names[i].clone(), g.clone())).collect();
        let orgs = Value::Array(
            want_orgs
                .iter()
                .map(|(name, g)| {
                    let mut v: Vec<Value> = g.iter().map(|&x| json!(net.pks[x])).collect();
                    if case.rng.chance(1, 3) {
                        let at = case.rng.below(v.len() + 1);
                        v.insert(at, json!(unknown[0]));
                    }
                    json!({"id": "0815", "name": name, "validators": v, "dateDiscovered": "2019-09-17"})
                })
                .collect(),
        )
        .to_string();
        case.more_input(&orgs);
        let go = Groupings::organizations_from_json_str(&orgs, &fbas);
        means(&go, &want_orgs, &net, "organizations")?;
        case.add("groups from organization documents", want_orgs.len() as u64);
        ensure!(Groupings::from_json_str(&orgs, &fbas) == go, "from_json_str gives other groupings");
        // writing and reading again
        for (g, w) in [(&gi, &want_isps), (&gc, &want_countries), (&go, &want_orgs)] {
            let text = serde_json::to_string(g).unwrap();
            let back = Groupings::from_json_str(&text, &fbas);
            ensure!(back == *g, "written and read back, the groupings differ: {}", text);
            means(&back, w, &net, "read back")?;
        }
        if case.index % 40 == 0 {
            let (a, b) = (scratch.path(&format!("n{}", case.index)), scratch.path(&format!("o{}", case.index)));
            std::fs::write(&a, &wide).unwrap();
            std::fs::write(&b, &orgs).unwrap();
            ensure!(Groupings::isps_from_json_file(&a, &fbas) == gi, "ISPs from file");
            ensure!(Groupings::countries_from_json_file(&a, &fbas) == gc, "countries from file");
            ensure!(Groupings::organizations_from_json_file(&b, &fbas) == go, "organizations from file");
            ensure!(Groupings::from_json_file(&b, &fbas) == go, "groupings from file");
            case.count("files read");
        }
        Ok(())
    });
    // Real data: every group found again by every member
    c.cases("real", 4, 4, |case| {
        let nodes = std::fs::read_to_string(["/repo/test_data/stellarbeat_nodes_2019-09-17.json", "/repo/test_data/stellarbeat_nodes_2020-01-16_broken_by_hand.json"][case.index as usize % 2]).unwrap();
        let net = net_from_json(&nodes);
        let fbas = Fbas::from_json_str(&nodes);
        let doc: Value = serde_json::from_str(&nodes).unwrap();
        let mut isps: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        let mut countries: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        let mut seen = BTreeSet::new();
        for (x, node) in doc.as_array().unwrap().iter().enumerate() {
            if let Some(s) = node["isp"].as_str() {
                isps.entry(clean(s)).or_default().push(x);
                seen.insert(s.to_string());
            }
            if let Some(s) = node["geoData"]["countryName"].as_str() {
                countries.entry(clean(s)).or_default().push(x);
            }
        }
        case.nontrivial(&nodes);
        means(&Groupings::isps_from_json_str(&nodes, &fbas), &isps.into_iter().collect(), &net, "ISPs")?;
        means(&Groupings::countries_from_json_str(&nodes, &fbas), &countries.into_iter().collect(), &net, "countries")?;
        case.count("real documents");
        Ok(())
    });
    c.require("groups from node documents", 100000);
    c.require("groups from organization documents", 50000);
    c.require("members unknown to the FBAS", 5000);
    c.require("files read", 100);
    c.require("more than 64 nodes", 50);
    c.require("more than 256 groups", 3);
    c.finish();
}
