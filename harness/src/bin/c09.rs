use vharness::*;

fn main() {
    let mut c = Check::start("C09", "exploration",
        "random quorum sets (nested to depth 5, repeated members, threshold 0, above-maximum and extreme thresholds) against random node sets, and random sets of nodes of generated FBASs; non-trivial = the quorum set can be satisfied; distinct by (quorum set, node set)");
    c.cases("slices", 150000, 4000000, |case| {
        let r = &mut case.rng;
        let n = r.range(1, 9);
        let wide = r.chance(1, 4);
        // spread over a large ID space sometimes
        let ids: Vec<usize> = (0..n).map(|i| if wide { i * 23 } else { i }).collect();
        let q = random_q(r, &ids, 4);
        let qs = to_qs(&q);
        case.input(q.show());
        let mut seen = vec![];
        q.occurrences(&mut seen);
        let nodes = q.nodes();
        ensure!(to_set(&qs.contained_nodes()) == nodes, "contained nodes {:?}", to_set(&qs.contained_nodes()));
        ensure!(
            qs.contains_duplicates() == (seen.len() != nodes.len()),
            "contains_duplicates is {}", qs.contains_duplicates()
        );
        for k in 0..12 {
            let p = k % 5;
            let mut s: Set = ids.iter().copied().filter(|_| case.rng.chance(p, 4)).collect();
            if case.rng.chance(1, 4) { s.insert(300 + case.rng.below(5)); }
            let want = q.sat_set(&s);
            let got = qs.is_quorum_slice(&to_bits(&s));
            ensure!(got == want, "{:?} is a slice: {} instead of {}", s, got, want);
            case.count(if want { "slices" } else { "sets that are no slice" });
            if want {
                case.nontrivial((&q, &s));
            }
        }
        if !q.any_level(&|x| x.slice_count() > 3000.0) && q.any_level(&|x| x.members() > 0) {
            let list = qs.to_quorum_slices();
            for s in &list {
                // thresholds of 0 (badly configured) give the empty combination
                if !q.any_level(&|x| x.t == 0) {
                    ensure!(q.sat_set(&to_set(s)), "enumerated slice {:?} does not satisfy", to_set(s));
                }
            }
            if !q.any_level(&|x| x.t == 0) {
                if let Some(min) = fmodel::net::minimal_slices(&q) {
                    let f = fam(&list);
                    for m in &min {
                        ensure!(f.contains(m), "minimal slice {:?} is not enumerated", m);
                    }
                    case.add("minimal slices seen", min.len() as u64);
                }
            }
        }
        Ok(())
    });
    // quorum sets with many members on one level, at the positions and the counts where a fixed width would give in
    c.cases("wide quorum sets", 3000, 100000, |case| {
        let r = &mut case.rng;
        let k = match r.below(6) {
            0 => *r.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257]),
            _ => r.range(60, 320),
        };
        // own validators, inner sets, or both in number
        let inner = match r.below(3) { 0 => 0, 1 => k, _ => r.below(k) };
        let pool: Vec<usize> = (0..2 * k).collect();
        let v = r.sample(&pool, k - inner);
        let rest: Vec<usize> = pool.iter().copied().filter(|x| !v.contains(x)).collect();
        let i: Vec<Q> = (0..inner).map(|_| {
            let m = r.range(1, 3);
            let v = r.sample(&rest, m);
            let t = r.range(1, m);
            Q::flat(t as u64, v)
        }).collect();
        let t = match r.below(5) { 0 => k, 1 => 1, 2 => k / 2 + 1, 3 => k - 1, _ => r.range(1, k) };
        let q = Q::nest(t as u64, v, i);
        let qs = to_qs(&q);
        case.input(format!("{} validators and {} inner quorum sets, {}", k - inner, inner, q.show()));
        ensure!(to_set(&qs.contained_nodes()) == q.nodes(), "contained nodes {:?}", to_set(&qs.contained_nodes()));
        for _ in 0..6 {
            // exactly at the threshold, one below, one above, or anything
            let off = case.rng.below(4);
            let mut s = Set::new();
            if off == 3 {
                let p = case.rng.range(1, 7);
                s = pool.iter().copied().filter(|_| case.rng.chance(p, 8)).collect();
            } else {
                // members in random order until enough of them are satisfied
                let order = { let all: Vec<usize> = (0..k).collect(); case.rng.sample(&all, k) };
                let mut done = 0;
                for m in order {
                    if done + 1 >= t + off { break; }
                    if m < q.v.len() { s.insert(q.v[m]); } else { s.extend(q.i[m - q.v.len()].v.iter()); }
                    done += 1;
                }
            }
            let want = q.sat_set(&s);
            let got = qs.is_quorum_slice(&to_bits(&s));
            ensure!(got == want, "{} nodes {:?} are a slice: {} instead of {}", s.len(), s, got, want);
            case.count(if want { "wide slices" } else { "sets that are no wide slice" });
            if want { case.nontrivial((&q, &s)); }
        }
        Ok(())
    });
    c.cases("quorums", 60000, 2000000, |case| {
        let max_n = case.rng.range(1, 12);
        let net = fmodel::gen::any(&mut case.rng, &fmodel::gen::Opts { max_n, ..Default::default() });
        case.input(net.show());
        if net.n() > 64 { case.count("more than 64 nodes"); }
        let fbas = build_any(&net, case);
        let n = net.n();
        let mut probes: Vec<Set> = vec![Set::new(), net.all(), net.satisfiable()];
        for k in 0..10 {
            let s: Set = (0..n).filter(|_| case.rng.chance(1 + k % 4, 4)).collect();
            probes.push(net.greatest_quorum(&s));
            probes.push(s);
        }
        for s in probes {
            let want = net.is_quorum(&s);
            let got = fbas.is_quorum(&to_bits(&s));
            ensure!(got == want, "{:?} is a quorum: {} instead of {}", s, got, want);
            case.count(if want { "quorums" } else { "sets that are no quorum" });
            if want { case.nontrivial((&net.qs, &s)); }
        }
        Ok(())
    });
    // the accessors through which quorum sets go in and out
    c.cases("containers", 30000, 500000, |case| {
        let max_n = case.rng.range(1, 12);
        let mut net = fmodel::gen::any(&mut case.rng, &fmodel::gen::Opts { max_n, ..Default::default() });
        case.input(net.show());
        let mut fbas = build_any(&net, case);
        // quorum sets that were put in come out exactly as they were, the order of members included
        let mut put = Set::new();
        let stored = |q: QuorumSet, exact: bool| if exact { from_qs(&q) } else { from_qs(&q).norm() };
        for _ in 0..case.rng.below(6) {
            let x = case.rng.below(net.n());
            let old = fbas.get_quorum_set(x).map(|q| stored(q, put.contains(&x)));
            let want = if put.contains(&x) { net.qs[x].clone() } else { net.qs[x].norm() };
            ensure!(old == Some(want.clone()), "node {} has quorum set {:?}", x, old);
            let ids: Vec<usize> = (0..net.n()).collect();
            if case.rng.chance(1, 3) {
                let q = random_q(&mut case.rng, &ids, 2);
                let id = fbas.add_generic_node(to_qs(&q));
                ensure!(id == net.n(), "added node got ID {}", id);
                net.pks.push(format!("n{}", id));
                net.qs.push(q);
                put.insert(id);
            } else {
                let q = random_q(&mut case.rng, &ids, 2);
                let was = fbas.swap_quorum_set(x, to_qs(&q));
                ensure!(stored(was.clone(), put.contains(&x)) == want, "swapped out {:?}", was);
                net.qs[x] = q;
                put.insert(x);
            }
            case.count("edits");
        }
        ensure!(fbas.number_of_nodes() == net.n(), "number of nodes");
        for x in 0..net.n() {
            let want = if put.contains(&x) { net.qs[x].clone() } else { net.qs[x].norm() };
            ensure!(fbas.get_quorum_set(x).map(|q| stored(q, put.contains(&x))) == Some(want), "quorum set of {}", x);
            ensure!(fbas.get_node_id(&net.pks[x]) == Some(x), "ID of {:?}", net.pks[x]);
        }
        ensure!(fbas.get_quorum_set(net.n()).is_none(), "quorum set of a node that does not exist");
        ensure!(fbas.get_node_id("no such node").is_none(), "ID of a node that does not exist");
        Ok(())
    });
    c.require("slices", 50000);
    c.require("minimal slices seen", 50000);
    c.require("quorums", 20000);
    c.require("wide slices", 1000);
    c.require("sets that are no wide slice", 1000);
    c.require("edits", 10000);
    c.finish();
}
fn random_q(r: &mut Rng, ids: &[usize], depth: usize) -> Q {
    let k = r.below(ids.len() + 1);
    let mut v = r.sample(ids, k);
    if !v.is_empty() && r.chance(1, 5) {
        let x = v[r.below(v.len())];
        v.push(x);
    }
    let mut i = vec![];
    if depth > 0 {
        for _ in 0..r.below(4) {
            if r.chance(1, 2) {
                i.push(random_q(r, ids, depth - 1));
            }
        }
    }
    let m = v.len() + i.len();
    let mut t = fmodel::gen::threshold(r, m);
    if r.chance(1, 20) {
        t = *r.pick(&fmodel::gen::HUGE);
    }
    Q::nest(t, v, i)
}
