use vharness::*;

fn memberless(q: &Q) -> bool {
    q.any_level(&|x| x.members() == 0)
}
fn sane(q: &Q) -> bool {
    !q.any_level(&|x| x.t == 0 || x.t > x.members() as u64)
}
fn judge(q: &Q, got: &Q, groups: &[Vec<usize>], n: usize, case: &mut Case) -> Verdict {
    let m = merged_ids(groups, n);
    let nodes = q.nodes();
    let merged_nodes: Set = nodes.iter().map(|&x| m[x]).collect();
    ensure!(got.nodes() == merged_nodes, "merged quorum set {} contains {:?} instead of {:?}", got.show(), got.nodes(), merged_nodes);
    if merged_nodes.len() == 1 && !memberless(q) {
        let x = *merged_nodes.iter().next().unwrap();
        ensure!(*got == Q::flat(1, vec![x]), "a quorum set over one group becomes {} instead of one validator", got.show());
        case.count("collapsed to one validator");
    }
    let ids: Vec<usize> = nodes.iter().copied().collect();
    let probes: Vec<Set> = if ids.len() <= 9 {
        (0..1u64 << ids.len()).map(|k| fmodel::net::mask_to_set(k, &ids)).collect()
    } else {
        (0..40).map(|_| {
            // node by node, or group by group
            let p = case.rng.range(1, 15);
            if case.rng.chance(1, 2) {
                ids.iter().copied().filter(|_| case.rng.chance(p, 16)).collect()
            } else {
                let take: Set = merged_nodes.iter().copied().filter(|_| case.rng.chance(p, 16)).collect();
                ids.iter().copied().filter(|&x| take.contains(&m[x])).collect()
            }
        }).collect()
    };
    for s in probes {
        let t: Set = s.iter().map(|&x| m[x]).collect();
        if q.sat_set(&s) {
            ensure!(got.sat_set(&t), "{:?} satisfies the quorum set but {:?} does not satisfy the merged {}", s, t, got.show());
            case.count("satisfying sets");
        }
        if sane(q) {
            // groups agree as a whole: exactly the groups whose members together suffice
            let all: Set = ids.iter().copied().filter(|&x| t.contains(&m[x])).collect();
            ensure!(
                got.sat_set(&t) == q.sat_set(&all),
                "the groups {:?} {} the merged {} but their members {:?} {} the quorum set",
                t, if got.sat_set(&t) { "satisfy" } else { "do not satisfy" }, got.show(),
                all, if q.sat_set(&all) { "satisfy" } else { "do not satisfy" }
            );
            case.count("sets of groups judged");
        }
    }
    Ok(())
}
fn main() {
    let mut c = Check::start("C15", "exploration",
        "random quorum sets (flat, nested to three levels, whole organisations, repeated members, odd thresholds) merged by random disjoint groups, judged on all subsets of the contained nodes; non-trivial = some group has two members inside the quorum set; distinct by (quorum set, groups)");
    c.cases("quorum sets", 120000, 3000000, |case| {
        let n = case.rng.range(1, 10);
        let small: Vec<usize> = (0..n).collect();
        // sometimes IDs beyond a machine word or a byte, or members in number
        let (n, ids) = match case.rng.below(20) {
            0 => {
                let all: Vec<usize> = (0..330).collect();
                (330, case.rng.sample(&all, n))
            }
            1 if case.rng.chance(1, 12) => {
                let n = case.rng.range(65, 280);
                (n, (0..n).collect())
            }
            _ => (n, small),
        };
        let many = ids.len() > 64;
        let groups: Vec<Vec<usize>> = {
            let mut g: Vec<Vec<usize>> = random_groups(&mut case.rng, ids.len()).iter().map(|g| g.iter().map(|&x| ids[x]).collect()).collect();
            if n > ids.len() && case.rng.chance(1, 2) {
                // groups start with members that the quorum set does not know
                for v in g.iter_mut() {
                    let x = case.rng.below(n);
                    if !ids.contains(&x) { v.insert(0, x); }
                }
                let mut seen = Set::new();
                for v in g.iter_mut() { v.retain(|&x| seen.insert(x)); }
            }
            g
        };
        if n > 64 {
            case.count(if many { "more than 64 members" } else { "IDs beyond 64" });
        }
        let depth = case.rng.below(4);
        let ok = case.rng.chance(3, 4);
        let q = match case.rng.below(4) {
            0 => {
                // one inner quorum set per group, next to single validators
                let mut i: Vec<Q> = vec![];
                let mut v: Vec<usize> = vec![];
                for g in groups.iter().filter(|g| !g.is_empty()) {
                    if g.len() == 1 && case.rng.chance(1, 2) {
                        v.push(g[0]);
                    } else {
                        i.push(Q::flat(fmodel::gen::sane_threshold(&mut case.rng, g.len()), g.clone()));
                    }
                }
                if case.rng.chance(1, 3) {
                    v.push(*case.rng.pick(&ids));
                }
                let t = fmodel::gen::sane_threshold(&mut case.rng, v.len() + i.len());
                Q::nest(t, v, i)
            }
            1 => fmodel::gen::build_q(&mut case.rng, &ids, depth, ok),
            _ => {
                let dups = case.rng.chance(1, 3);
                fmodel::gen::random_q(&mut case.rng, &ids, depth, dups, ok)
            }
        };
        case.input(format!("groups {:?}, quorum set {}", groups, q.show()));
        let inside = q.nodes();
        if groups.iter().any(|g| g.iter().filter(|x| inside.contains(x)).count() > 1) {
            case.nontrivial((&q, &groups));
        }
        let fbas = Fbas::new_generic_unconfigured(n);
        let net = Net::new(vec![Q::default(); n]);
        let gs = Groupings::organizations_from_json_str(&groups_json(&groups, &net.pks).to_string(), &fbas);
        let got = gs.merge_quorum_set(to_qs(&q));
        judge(&q, &from_qs(&got), &groups, n, case)?;
        ensure!(gs.merge_quorum_set(got.clone()) == got, "merging {} twice gives {}", from_qs(&got).show(), from_qs(&gs.merge_quorum_set(got.clone())).show());
        // lists are merged element by element
        let other = fmodel::gen::random_q(&mut case.rng, &ids, depth, false, true);
        let list = gs.merge_quorum_sets(vec![to_qs(&q), to_qs(&other), to_qs(&q)]);
        ensure!(list == vec![got.clone(), gs.merge_quorum_set(to_qs(&other)), got], "merging a list differs from merging its elements");
        if !q.i.is_empty() && !q.v.is_empty() {
            case.count("validators next to inner quorum sets");
        }
        case.count("quorum sets merged");
        Ok(())
    });
    c.require("quorum sets merged", 50000);
    c.require("collapsed to one validator", 1000);
    c.require("sets of groups judged", 500000);
    c.require("satisfying sets", 100000);
    c.require("validators next to inner quorum sets", 5000);
    c.require("more than 64 members", 100);
    c.require("IDs beyond 64", 1000);
    c.finish();
}
