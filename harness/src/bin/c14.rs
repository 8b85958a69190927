use std::collections::BTreeSet;
use vharness::*;

fn merged(s: &Set, m: &[usize]) -> Set {
    s.iter().map(|&x| m[x]).collect()
}
fn main() {
    let mut c = Check::start("C14", "exploration",
        "random families of node sets (repetitions, supersets, empty sets) and the results of analyses, merged by random disjoint groups (singletons, empty groups, nodes in no group), judged by merging in the model; non-trivial = some set loses a node by merging; distinct by (family, groups)");
    c.cases("families", 200000, 4000000, |case| {
        let wide = case.rng.chance(1, 5);
        let huge = case.rng.chance(1, 600);
        let n = if huge {
            case.rng.range(300, 900)
        } else if wide {
            case.rng.range(60, 140)
        } else {
            case.rng.size(1, 14, 300)
        };
        let wide = wide || n > 64;
        if n > 256 {
            case.count("more than 256 nodes");
        }
        let fbas = Fbas::new_generic_unconfigured(n);
        let net = Net::new(vec![Q::default(); n]);
        let mut groups = random_groups(&mut case.rng, n);
        if wide {
            groups.retain(|g| !g.is_empty());
        }
        let gs = Groupings::organizations_from_json_str(&groups_json(&groups, &net.pks).to_string(), &fbas);
        let family = random_family(&mut case.rng, n);
        case.input(format!("{} nodes, groups {:?}, sets {:?}", n, groups, family));
        let m = merged_ids(&groups, n);
        let want: Vec<Set> = family.iter().map(|s| merged(s, &m)).collect();
        if want.iter().zip(&family).any(|(a, b)| a.len() < b.len()) {
            case.nontrivial((&family, &groups));
        }
        for x in 0..n {
            ensure!(gs.merge_node(x) == m[x], "node {} is merged into {} instead of {}", x, gs.merge_node(x), m[x]);
        }
        for (s, w) in family.iter().zip(&want) {
            let got = to_set(&gs.merge_node_set(to_bits(s)));
            ensure!(got == *w, "{:?} is merged into {:?} instead of {:?}", s, got, w);
            // merging again changes nothing
            ensure!(to_set(&gs.merge_node_set(to_bits(w))) == *w, "merging {:?} twice is not merging once", s);
            case.count("sets merged");
            if w.len() > 256 {
                case.count("merged sets of more than 256 nodes");
            }
        }
        let got: Vec<Set> = gs.merge_node_sets(bits(&family)).iter().map(to_set).collect();
        ensure!(got == want, "merged sets {:?} instead of {:?}", got, want);
        let min = gs.merge_minimal_node_sets(bits(&family));
        same_family("minimal merged sets", &min, &fmodel::net::minimal_sets(&want))?;
        case.count("families merged");
        Ok(())
    });
    c.cases("results", 40000, 900000, |case| {
        let Some((net, truth)) = small_net(case) else { return Ok(()) };
        let fbas = build_json(&net);
        let groups = random_groups(&mut case.rng, net.n());
        case.more_input(&format!(" groups {:?}", groups));
        let gs = Groupings::organizations_from_json_str(&groups_json(&groups, &net.pks).to_string(), &fbas);
        let m = merged_ids(&groups, net.n());
        let a = Analysis::new(&fbas);
        for (what, r, t) in [
            ("quorums", a.minimal_quorums(), &truth.mq),
            ("blocking sets", a.minimal_blocking_sets(), &truth.mbs),
            ("splitting sets", a.minimal_splitting_sets(), &truth.mss),
        ] {
            if truth.mq.is_empty() && what == "blocking sets" {
                continue;
            }
            let want: Vec<Set> = t.iter().map(|s| merged(s, &m)).collect();
            let g = r.merged_by_group(&gs);
            let mut got: Vec<Set> = g.clone().unwrap().iter().map(to_set).collect();
            let mut all = want.clone();
            got.sort();
            all.sort();
            ensure!(got == all, "merged {}: {:?} instead of {:?}", what, got, all);
            let min = fmodel::net::minimal_sets(&want);
            same_family(&format!("minimal merged {}", what), &g.minimal_sets().unwrap(), &min)?;
            let inv: BTreeSet<usize> = want.iter().flatten().copied().collect();
            ensure!(to_set(&g.involved_nodes()) == inv, "nodes involved in the merged {}", what);
            // the unmerged result is untouched
            ensure!(fam(&r.unwrap()) == *t, "merging changed the {} it was given", what);
            case.count("results merged");
        }
        let top = a.top_tier();
        ensure!(to_set(&top.merged_by_group(&gs).unwrap()) == merged(&truth.top, &m), "merged top tier");
        ensure!(to_set(&top.unwrap()) == truth.top, "merging changed the top tier");
        if truth.top.len() > merged(&truth.top, &m).len() {
            case.nontrivial((&net.qs, &groups));
        }
        Ok(())
    });
    c.require("sets merged", 100000);
    c.require("families merged", 50000);
    c.require("results merged", 20000);
    c.require("more than 64 nodes", 100);
    c.require("more than 256 nodes", 50);
    c.require("merged sets of more than 256 nodes", 10);
    c.finish();
}
