// needs: repo-binaries
use fmodel::serde_json::{self, json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vharness::*;
use fmodel::net::minimal_sets;

const RESULTS: [&str; 9] = [
    "nodes_total", "nodes_total_merged", "symmetric_clusters", "minimal_quorums", "has_quorum_intersection",
    "nonintersecting_quorums", "minimal_blocking_sets", "minimal_splitting_sets", "top_tier",
];
/// Result lines by name; every result may be printed at most once.
fn results(out: &str) -> Result<(BTreeMap<String, String>, Vec<String>), Violation> {
    let known: BTreeSet<String> = RESULTS.iter().flat_map(|r| [r.to_string(), format!("{}_analysis_duration", r)]).collect();
    let mut got: BTreeMap<String, String> = BTreeMap::new();
    let mut other = vec![];
    let mut open: Option<String> = None;
    for line in out.lines() {
        let key = line.split_once(": ").map(|(k, _)| k).filter(|k| known.contains(*k));
        if let Some(k) = key {
            ensure!(got.insert(k.to_string(), line[k.len() + 2..].to_string()).is_none(), "{} is printed twice", k);
            // pretty quorum sets span several lines
            open = if k == "symmetric_clusters" { Some(k.to_string()) } else { None };
        } else if let Some(k) = &open {
            let v = got.get_mut(k).unwrap();
            v.push('\n');
            v.push_str(line);
        } else {
            other.push(line.to_string());
        }
    }
    Ok((got, other))
}
fn parse(what: &str, s: &str) -> Result<Value, Violation> {
    serde_json::from_str(s).map_err(|e| format!("{}: {:?} is not JSON: {}", what, s, e).into())
}
struct Mode<'a> {
    describe: bool,
    pretty: bool,
    net: &'a Net,
    names: &'a [String],
    merge: Option<&'a [usize]>,
}
impl Mode<'_> {
    fn render(&self, s: &Set) -> Value {
        if self.pretty {
            json!(s.iter().map(|&x| self.names[x].clone()).collect::<Vec<_>>())
        } else {
            json!(s)
        }
    }
    fn family(&self, what: &str, text: &str, wants: &[BTreeSet<Set>]) -> Verdict {
        let got = parse(what, text)?;
        for want in wants {
            let want: Vec<Set> = match self.merge {
                Some(m) => fmodel::net::minimal_sets(&want.iter().map(|s| s.iter().map(|&x| m[x]).collect::<Set>()).collect::<Vec<_>>()).into_iter().collect(),
                None => want.iter().cloned().collect(),
            };
            if self.describe {
                if describes(&got, &want) {
                    return Ok(());
                }
                continue;
            }
            let Some(list) = got.as_array() else { continue };
            // smallest first; names in node order
            let sizes: Vec<usize> = list.iter().map(|x| x.as_array().map_or(0, |a| a.len())).collect();
            let mut a: Vec<String> = list.iter().map(|x| x.to_string()).collect();
            let mut b: Vec<String> = want.iter().map(|s| self.render(s).to_string()).collect();
            a.sort();
            b.sort();
            if a == b && sizes.windows(2).all(|w| w[0] <= w[1]) {
                return Ok(());
            }
        }
        Err(format!("{} printed as {} although by definition they are {}{}", what, text, show_fam(&wants[0]), if self.merge.is_some() { " before merging" } else { "" }).into())
    }
    fn nodes(&self, what: &str, text: &str, want: &Set, describe: bool) -> Verdict {
        let got = parse(what, text)?;
        let want = if describe { json!(want.len()) } else { self.render(want) };
        ensure!(got == want, "{}: {} instead of {}", what, got, want);
        Ok(())
    }
}
fn clusters(v: Value) -> Vec<String> {
    let mut l: Vec<String> = v.as_array().cloned().unwrap_or_default().iter().map(|x| x.to_string()).collect();
    l.sort();
    l
}
fn main() {
    let mut c = Check::start("C26", "exploration",
        "runs of the analysis tool on generated networks (as file or on standard input) with random combinations of its options (which results, merging by organization, ISP or country, description, names, results only, alternative or no intersection check), every printed result judged by definition; malformed inputs must fail; non-trivial = has a quorum; distinct by (options, quorum sets)");
    let scratch = Scratch::new("c26");
    c.cases("runs", 7000, 40000, |case| {
        let Some((mut net, truth)) = small_net(case) else { return Ok(()) };
        let n = net.n();
        if case.rng.chance(1, 4) {
            net.pks = fmodel::gen::odd_pks(&mut case.rng, n);
        }
        let docs = grouped_docs(&mut case.rng, &net);
        let p = scratch.path(&format!("{}-nodes.json", case.index));
        let o = scratch.path(&format!("{}-orgs.json", case.index));
        let text = docs.nodes.to_string();
        std::fs::write(&p, &text).unwrap();
        std::fs::write(&o, docs.orgs_doc.to_string()).unwrap();
        let mut a: Vec<String> = vec![];
        let mut flag = |case: &mut Case, num, den, short: &str, long: &str, a: &mut Vec<String>| {
            let on = case.rng.chance(num, den);
            if on {
                a.push(if !short.is_empty() && case.rng.chance(1, 2) { short.into() } else { long.into() });
            }
            on
        };
        let all = flag(case, 1, 4, "-a", "--all", &mut a);
        let q = flag(case, 1, 2, "-q", "--minimal-quorums", &mut a) || all;
        let b = flag(case, 1, 2, "-b", "--minimal-blocking-sets", &mut a) || all;
        let s = flag(case, 1, 2, "-s", "--minimal-splitting-sets", &mut a) || all;
        let describe = flag(case, 1, 3, "-d", "--describe", &mut a);
        let pretty = flag(case, 1, 3, "-p", "--pretty", &mut a);
        let only = flag(case, 1, 2, "", "--results-only", &mut a);
        let alternative = flag(case, 1, 3, "", "--alternative-quorum-intersection-check", &mut a);
        let no_check = flag(case, 1, 5, "", "--dont-check-quorum-intersection", &mut a);
        let by_country = flag(case, 1, 5, "", "--merge-by-country", &mut a);
        let by_isp = flag(case, 1, 4, "", "--merge-by-isp", &mut a);
        let by_org = case.rng.chance(1, 3);
        if by_org {
            a.push("--merge-by-org".into());
            a.push(o.to_str().unwrap().into());
        }
        let stdin = case.rng.chance(1, 4);
        if !stdin {
            let at = if a.iter().any(|x| x == "--merge-by-org") { 0 } else { case.rng.below(a.len() + 1) };
            a.insert(at, p.to_str().unwrap().into());
        }
        case.more_input(&format!(" options {:?}, stdin {}, document {}, organizations {}", a, stdin, text, docs.orgs_doc));
        let r = run_tool("fbas_analyzer", &a, if stdin { Some(text.as_bytes()) } else { None }, &scratch.0);
        let fbas = Fbas::from_json_str(&text);
        let groups: Option<(&Named, Groupings)> = if by_country {
            if stdin { None } else { Some((&docs.countries, Groupings::countries_from_json_str(&text, &fbas))) }
        } else if by_isp {
            if stdin { None } else { Some((&docs.isps, Groupings::isps_from_json_str(&text, &fbas))) }
        } else if by_org {
            Some((&docs.orgs, Groupings::organizations_from_json_str(&docs.orgs_doc.to_string(), &fbas)))
        } else {
            None
        };
        let _ = std::fs::remove_file(&p);
        let _ = std::fs::remove_file(&o);
        ensure!(r.ok(), "the run fails: {}", r.show());
        let merge = groups.as_ref().map(|(g, _)| merged_by(g, n));
        let names = groups.as_ref().map_or(net.pks.clone(), |(g, _)| display_names(g, &net));
        let mode = Mode { describe, pretty, net: &net, names: &names, merge: merge.as_deref() };
        let merged = |s: &Set| -> Set { mode.merge.map_or(s.clone(), |m| s.iter().map(|&x| m[x]).collect()) };
        let (mut got, other) = results(&r.out)?;
        if only {
            ensure!(other.is_empty(), "results only, but there is also {:?}", other);
            case.count("runs with results only");
        }
        let mut take = |what: &str, timed: bool| -> Result<String, Violation> {
            let Some(v) = got.remove(what) else { return Err(format!("{} is not printed", what).into()) };
            if timed {
                let d = got.remove(&format!("{}_analysis_duration", what));
                let secs = d.as_deref().and_then(|d| d.strip_suffix('s')).and_then(|d| d.parse::<f64>().ok());
                ensure!(secs.map_or(false, |x| x >= 0.0), "{}: duration {:?}", what, d);
            }
            Ok(v)
        };
        mode.nodes("nodes_total", &take("nodes_total", false)?, &net.all(), true)?;
        if mode.merge.is_some() {
            mode.nodes("nodes_total_merged", &take("nodes_total_merged", false)?, &merged(&net.all()), true)?;
            case.count("merged runs");
        }
        // clusters as the library sees them (judged by C06, C15 and C17)
        let mut cl = find_symmetric_clusters(&fbas);
        if let Some((_, g)) = &groups {
            cl = g.merge_quorum_sets(cl);
        }
        let want = if pretty { cl.into_pretty_string(&fbas, groups.as_ref().map(|g| &g.1)) } else { cl.into_id_string() };
        let text = take("symmetric_clusters", true)?;
        let v = if only { parse("symmetric_clusters", &text)? } else {
            // comments may follow
            let mut it = serde_json::Deserializer::from_str(&text).into_iter::<Value>();
            it.next().and_then(|x| x.ok()).ok_or_else(|| Violation::from(format!("symmetric_clusters: {:?}", text)))?
        };
        ensure!(clusters(v) == clusters(parse("clusters", &want)?), "symmetric clusters {} instead of {}", text, want);
        if q {
            mode.family("minimal_quorums", &take("minimal_quorums", true)?, &[truth.mq.clone()])?;
            case.count("minimal quorums printed");
        }
        if b {
            let mut ok = vec![truth.mbs.clone()];
            if truth.mq.is_empty() {
                ok = vec![BTreeSet::new(), std::iter::once(Set::new()).collect()];
            }
            mode.family("minimal_blocking_sets", &take("minimal_blocking_sets", true)?, &ok)?;
            case.count("minimal blocking sets printed");
        }
        if s {
            mode.family("minimal_splitting_sets", &take("minimal_splitting_sets", true)?, &[truth.mss.clone()])?;
            case.count("minimal splitting sets printed");
        }
        if q || b || s {
            mode.nodes("top_tier", &take("top_tier", false)?, &merged(&truth.top), false)?;
            case.count("top tiers printed");
        }
        if !no_check {
            let v = take("has_quorum_intersection", true)?;
            ensure!(v == truth.qi.to_string(), "has_quorum_intersection: {} although it is {}", v, truth.qi);
            case.count(if truth.qi { "intersection printed" } else { "no intersection printed" });
            if alternative && !truth.qi && !truth.mq.is_empty() {
                let v = take("nonintersecting_quorums", false)?;
                let w = parse("nonintersecting_quorums", &v)?;
                if describe {
                    ensure!(w[0].as_u64().unwrap_or(0) >= 2, "nonintersecting_quorums: {}", v);
                } else if groups.is_none() {
                    let id = |x: &Value| -> Option<usize> {
                        if pretty { mode.net.pks.iter().position(|p| Some(p.as_str()) == x.as_str()) } else { x.as_u64().map(|x| x as usize) }
                    };
                    let w: Option<Vec<Set>> = w.as_array().and_then(|l| l.iter().map(|s| s.as_array().and_then(|a| a.iter().map(id).collect())).collect());
                    let Some(w) = w else { return Err(format!("nonintersecting_quorums: {}", v).into()) };
                    ensure!(w.len() >= 2 && w.iter().all(|s| net.is_quorum(s)), "nonintersecting_quorums: {} are not quorums", v);
                    for (i, a) in w.iter().enumerate() {
                        ensure!(w[i + 1..].iter().all(|b| a.is_disjoint(b)), "nonintersecting_quorums: {} intersect", v);
                    }
                    case.count("nonintersecting quorums printed");
                }
            }
        }
        drop(take);
        // what the comments say has to be true as well
        let number = |l: &str| l.split_whitespace().find_map(|w| w.parse::<usize>().ok());
        for l in &other {
            let f = if l.contains("minimal quorums") { Some(&truth.mq) } else if l.contains("minimal blocking sets") && !truth.mq.is_empty() { Some(&truth.mbs) } else if l.contains("minimal splitting sets") { Some(&truth.mss) } else { None };
            if let (true, Some(f), Some(k)) = (l.contains("We found"), f, number(l)) {
                let m: Vec<Set> = f.iter().map(|s| merged(s)).collect();
                ensure!(k == f.len() || k == minimal_sets(&m).len(), "{:?} although there are {}", l, f.len());
                case.count("comments checked");
            }
            if let (true, Some(k)) = (l.contains("There is a total of"), number(l)) {
                ensure!(k == merged(&truth.top).len(), "{:?} although the top tier is {:?}", l, truth.top);
                case.count("comments checked");
            }
            ensure!(!(l.contains("All quorums intersect") && (no_check || !truth.qi)), "{:?} is printed", l);
            ensure!(!(l.contains("quorums don't intersect") && (no_check || truth.qi)), "{:?} is printed", l);
            ensure!(!(l.contains("identified by node IDs") && pretty), "{:?} is printed although names are", l);
            ensure!(!(l.contains("results are described as") && !describe), "{:?} is printed although results are listed", l);
        }
        ensure!(got.is_empty(), "also printed: {:?}", got);
        if !truth.mq.is_empty() {
            case.nontrivial((&a.iter().filter(|x| x.starts_with('-')).collect::<Vec<_>>(), &net.qs));
        }
        case.count(if stdin { "runs reading standard input" } else { "runs reading a file" });
        Ok(())
    });
    c.cases("failing runs", 160, 1600, |case| {
        let net = fmodel::gen::random_flat(&mut case.rng, 4);
        let good = net_json(&net).to_string();
        let p = scratch.path(&format!("f{}.json", case.index));
        let bad = match case.rng.below(4) {
            0 => good[..good.len() - 1 - case.rng.below(good.len() / 2)].to_string(),
            1 => String::new(),
            2 => "{}".into(),
            _ => good.replace("threshold", "treshold"),
        };
        let (mut a, mut input) = (vec![], None);
        match case.rng.below(4) {
            0 => a.push(scratch.path("no such file").to_str().unwrap().to_string()),
            1 => {
                std::fs::write(&p, &bad).unwrap();
                a.push(p.to_str().unwrap().to_string());
            }
            2 => {
                input = Some(bad.clone().into_bytes());
            }
            _ => {
                std::fs::write(&p, &good).unwrap();
                a.push(p.to_str().unwrap().to_string());
                a.push("--merge-by-org".into());
                a.push(scratch.path("no such file").to_str().unwrap().to_string());
            }
        }
        a.push("-a".into());
        case.input(format!("{:?} {:?} {}", a, input.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()), bad));
        let r = run_tool("fbas_analyzer", &a, input.as_deref(), &scratch.0);
        let _ = std::fs::remove_file(&p);
        ensure!(!r.ok(), "succeeds on bad input: {}", r.show());
        ensure!(results(&r.out)?.0.is_empty(), "prints results for bad input: {}", r.show());
        case.count("failing runs");
        case.nontrivial(case.index);
        Ok(())
    });
    // the published network
    c.cases("real", 2, 8, |case| {
        let file = "/repo/test_data/stellarbeat_nodes_2019-09-17.json";
        let org = "/repo/test_data/stellarbeat_organizations_2019-09-17.json";
        let mut a = args(&[file, "-a", "-d", "--results-only"]);
        let merged = case.index % 2 == 1;
        if merged {
            a.extend(args(&["--merge-by-org", org]));
        }
        case.input(format!("{:?}", a));
        let r = run_tool("fbas_analyzer", &a, None, &scratch.0);
        ensure!(r.ok(), "the run fails: {}", r.show());
        let (got, _) = results(&r.out)?;
        let net = net_from_json(&std::fs::read_to_string(file).unwrap());
        let fbas = Fbas::from_json_file(std::path::Path::new(file));
        let an = Analysis::new(&fbas);
        let mq = fam(&an.minimal_quorums().unwrap());
        let Some(hit) = certify_minimal_quorums(&net, &mq)? else { return Ok(()) };
        let orgs = Groupings::organizations_from_json_file(std::path::Path::new(org), &fbas);
        for (what, f) in [("minimal_quorums", mq.clone()), ("minimal_blocking_sets", hit), ("minimal_splitting_sets", splitting_sets_by_definition(&mq))] {
            let mut f: Vec<Set> = f.into_iter().collect();
            if merged {
                f = fmodel::net::minimal_sets(&f.iter().map(|s| s.iter().map(|&x| orgs.merge_node(x)).collect::<Set>()).collect::<Vec<_>>()).into_iter().collect();
            }
            let v = parse(what, got.get(what).map_or("", |s| s))?;
            ensure!(describes(&v, &f), "{}: described as {} although there are {}", what, v, f.len());
            case.count("real results");
        }
        case.nontrivial(&a);
        Ok(())
    });
    c.require("runs with results only", 400);
    c.require("merged runs", 300);
    c.require("minimal quorums printed", 400);
    c.require("minimal blocking sets printed", 400);
    c.require("minimal splitting sets printed", 400);
    c.require("intersection printed", 300);
    c.require("no intersection printed", 300);
    c.require("nonintersecting quorums printed", 30);
    c.require("runs reading standard input", 200);
    c.require("failing runs", 100);
    c.require("real results", 3);
    c.finish();
}
