use std::rc::Rc;
use vharness::simulation::monitors::DummyMonitor;
use vharness::simulation::qsc::*;
use vharness::simulation::*;
use vharness::*;

fn threshold(n: usize, rel: Option<f64>) -> (u64, u64) {
    match rel {
        None => (t67(n) as u64, t67(n) as u64),
        Some(x) => {
            // ceil(n*x), at least 1, forgiving rounding of the product
            let p = x * n as f64;
            (((p - 1e-9).ceil() as u64).max(1), ((p + 1e-9).ceil() as u64).max(1))
        }
    }
}
fn is_flat(q: &Q, v: &[usize], t: (u64, u64), what: &str) -> Verdict {
    ensure!(q.i.is_empty() && q.v == v, "{}: {} instead of validators {:?}", what, q.show(), v);
    ensure!(t.0 <= q.t && q.t <= t.1, "{}: threshold {} instead of {:?} for {} validators", what, q.t, t, v.len());
    Ok(())
}
/// Graphs on which ranks tend to be exact: 2, 4, 8 or 16 nodes that have 0, 1, 2 or 4 links each.
fn dyadic_links(r: &mut Rng) -> Vec<Vec<usize>> {
    let n = 1 << r.range(1, 4);
    let regular = r.chance(1, 2);
    let d = 1 << r.below(3);
    if regular {
        let steps: Vec<usize> = r.sample(&(1..n).collect::<Vec<_>>(), d.min(n - 1).next_power_of_two().min(n / 2).max(1));
        return (0..n).map(|x| sorted(steps.iter().map(|s| (x + s) % n).collect())).collect();
    }
    (0..n)
        .map(|x| {
            let others: Vec<usize> = (0..n).filter(|&y| y != x).collect();
            let k = *r.pick(&[0, 1, 1, 2, 2, 4]);
            sorted(r.sample(&others, if k < n { k } else { 1 }))
        })
        .collect()
}
fn sorted(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v
}
fn main() {
    let mut c = Check::start("C20", "exploration",
        "FBASs grown or configured by every quorum set configurator over random sizes, thresholds, weights and graphs (directed, undirected, with isolated nodes); quorum sets are compared with the documented rule computed from the graph alone; non-trivial = two or more nodes; distinct by setup");
    c.cases("whole network", 3000, 60000, |case| {
        let n = case.rng.size(1, 24, 100);
        if n > 64 {
            case.count("more than 64 nodes");
        }
        let first = case.rng.below(n + 1);
        case.input(format!("{} then {} nodes", first, n - first));
        let grow = |qsc: Rc<dyn QuorumSetConfigurator>| {
            let mut sim = Simulator::new(Fbas::new(), qsc, Rc::new(DummyMonitor));
            sim.simulate_growth(first);
            sim.simulate_growth(n - first);
            sim.finalize()
        };
        let all: Vec<usize> = (0..n).collect();
        for (x, q) in stored(&grow(Rc::new(SuperSafeQsc::new()))).iter().enumerate() {
            is_flat(q, &all, (n as u64, n as u64), &format!("super safe, node {} of {}", x, n))?;
        }
        for (x, q) in stored(&grow(Rc::new(IdealQsc::new()))).iter().enumerate() {
            is_flat(q, &all, threshold(n, None), &format!("ideal, node {} of {}", x, n))?;
        }
        for (x, q) in stored(&grow(Rc::new(DummyQsc))).iter().enumerate() {
            ensure!(*q == Q::default(), "dummy, node {}: {}", x, q.show());
        }
        case.nontrivial((n, first));
        case.add("nodes of whole-network configurators", 3 * n as u64);
        Ok(())
    });
    c.cases("random quorum sets", 30000, 500000, |case| {
        let n = case.rng.size(1, 20, 1500);
        let desired = if n > 64 { case.rng.range(1, n + 4) } else { case.rng.range(1, 24) };
        if n > 64 {
            case.count("more than 64 nodes");
        }

        let t = if case.rng.chance(1, 3) { Some(case.rng.range(1, desired)) } else { None };
        let weights: Option<Vec<usize>> = if case.rng.chance(1, 2) {
            let len = case.rng.below(n + 3);
            Some((0..len).map(|_| case.rng.range(1, 50)).collect())
        } else {
            None
        };
        case.input(format!("{} nodes, desired {}, threshold {:?}, weights {:?}", n, desired, t, weights));
        let qsc: Rc<dyn QuorumSetConfigurator> = if t.is_none() && weights.is_none() {
            Rc::new(RandomQsc::new_simple(desired))
        } else {
            Rc::new(RandomQsc::new(desired, t, weights.clone()))
        };
        let mut sim = Simulator::new(Fbas::new(), qsc, Rc::new(DummyMonitor));
        let mut before: Vec<Q> = vec![];
        for k in 1..=n {
            sim.simulate_growth(1);
            let now = stored(&sim.clone().finalize());
            let target = desired.min(k);
            for (x, q) in now.iter().enumerate() {
                let members = q.nodes();
                ensure!(q.i.is_empty() && members.len() == q.v.len() && q.v.len() == target, "with {} nodes, node {} has {} instead of {} distinct validators", k, x, q.show(), target);
                ensure!(members.contains(&x), "node {} is not in its own quorum set {}", x, q.show());
                ensure!(members.iter().all(|&y| y < k), "node {} lists a node that does not exist: {}", x, q.show());
                let want = t.unwrap_or_else(|| t67(target));
                ensure!(q.t == want as u64, "node {} has threshold {} instead of {}", x, q.t, want);
                if let Some(old) = before.get(x) {
                    ensure!(old.nodes().is_subset(&members), "node {} forgot validators: {} then {}", x, old.show(), q.show());
                }
                case.count("random quorum sets");
            }
            before = now;
        }
        case.nontrivial((n, desired, t, weights));
        Ok(())
    });
    c.cases_on("weights", 12, 60, 4, |case| {
        // the probability of being chosen is proportional to the weight; weight 0 is never chosen
        // (nodes beyond the weights count as 1)
        let mut w = vec![case.rng.below(40), case.rng.range(1, 9), case.rng.range(1, 9), 0, case.rng.range(1, 9)];
        let unknown = case.index as usize % 3;
        if unknown > 0 {
            case.count("fewer weights than nodes");
        }
        case.input(format!("weights {:?}, {} more nodes", w, unknown));
        let qsc = RandomQsc::new(2, None, Some(w.clone()));
        w.resize(5 + unknown, 1);
        let total: usize = w[1..].iter().sum();
        let mut hits = vec![0usize; w.len()];
        let runs = 4000;
        for _ in 0..runs {
            let mut fbas = Fbas::new_generic_unconfigured(w.len());
            qsc.configure(0, &mut fbas);
            let q = fbas.get_quorum_set(0).unwrap();
            ensure!(q.validators.len() == 2, "{:?}", q);
            for v in q.validators {
                hits[v] += 1;
            }
            case.count("weighted choices");
        }
        ensure!(hits[0] == runs && hits[3] == 0, "node 0 itself: {}, weight 0: {}", hits[0], hits[3]);
        for x in 1..w.len() {
            let got = hits[x] as f64 / runs as f64;
            let want = w[x] as f64 / total as f64;
            ensure!((got - want).abs() < 0.06, "weights {:?}: node {} is chosen with frequency {:.3} instead of {:.3}", w, x, got, want);
        }
        case.nontrivial(w);
        Ok(())
    });
    c.cases("graph based", 60000, 1200000, |case| {
        let n = case.rng.size(1, 14, 600);
        if n > 64 {
            case.count("more than 64 nodes");
        }
        let undirected = case.rng.chance(1, 2);
        let (n, links) = if case.rng.chance(1, 4) {
            let links = dyadic_links(&mut case.rng);
            (links.len(), links)
        } else {
            (n, random_links(&mut case.rng, n, undirected))
        };
        let rel = if case.rng.chance(1, 3) { Some(case.rng.range(0, 130) as f64 / 100.0) } else { None };
        case.input(format!("links {:?}, relative threshold {:?}", links, rel));
        let graph = Graph::new(links.clone());
        let mut connected = Set::new();
        for (x, l) in links.iter().enumerate() {
            for &y in l {
                connected.insert(x);
                connected.insert(y);
            }
        }
        if connected.len() > 1 {
            case.nontrivial((&links, rel.map(|x| x.to_bits())));
        }
        let order = case.rng.perm(n);
        // (members are chosen whether or not the FBAS knows them yet)
        let size = if case.rng.chance(1, 5) { case.rng.range(1, n) } else { n };
        if size < n {
            case.count("FBASs smaller than the graph");
        }
        // all neighbours
        let qsc = match rel {
            Some(x) => AllNeighborsQsc::new_relative(graph.clone(), x),
            None => AllNeighborsQsc::new_67p(graph.clone()),
        };
        let mut fbas = Fbas::new_generic_unconfigured(size);
        for &x in order.iter().filter(|&&x| x < size) {
            qsc.configure(x, &mut fbas);
        }
        for (x, q) in stored(&fbas).iter().enumerate() {
            if connected.contains(&x) {
                let mut v = links[x].clone();
                v.push(x);
                let v = sorted(v);
                is_flat(q, &v, threshold(v.len(), rel), &format!("all neighbours of {}", x))?;
                case.count("neighbour quorum sets");
            } else {
                ensure!(*q == Q::default(), "isolated node {} gets {}", x, q.show());
                case.count("isolated nodes left alone");
            }
        }
        // existing configurations are kept
        let keep = case.rng.below(n);
        let mine = QuorumSet { threshold: 1, validators: vec![keep], inner_quorum_sets: vec![] };
        let mut fbas = Fbas::new_generic_unconfigured(n);
        fbas.swap_quorum_set(keep, mine.clone());
        qsc.configure(keep, &mut fbas);
        ensure!(fbas.get_quorum_set(keep) == Some(mine.clone()), "a configured node is reconfigured from all neighbours");
        // ranks, as the graph reports them (judged by C25)
        let scores = graph.get_rank_scores();
        // ranks that are short binary fractions are exact, and so are comparisons between them
        let exact = n.is_power_of_two() && scores.iter().all(|s| (s * (1u64 << 36) as f64).fract() == 0.0);
        let close = |a: f64, b: f64| !exact && (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()));
        let average = scores.iter().sum::<f64>() / n as f64;
        if exact {
            case.count("graphs with exact ranks");
            if scores.iter().any(|&s| s == average) {
                case.count("graphs with nodes of exactly average rank");
            }
        }
        let qsc = match rel {
            Some(x) => GlobalRankQsc::new_relative(graph.clone(), x),
            None => GlobalRankQsc::new_67p(graph.clone()),
        };
        let mut fbas = Fbas::new_generic_unconfigured(size);
        for &x in order.iter().filter(|&&x| x < size) {
            qsc.configure(x, &mut fbas);
        }
        let now = stored(&fbas);
        for (x, q) in now.iter().enumerate() {
            if links[x].is_empty() {
                ensure!(*q == Q::default(), "node {} without links gets {}", x, q.show());
                continue;
            }
            let members = q.nodes();
            ensure!(members.len() == q.v.len() && q.i.is_empty(), "{}", q.show());
            for y in 0..n {
                if !close(scores[y], average) {
                    ensure!(members.contains(&y) == (scores[y] > average), "global rank: node {} with score {} (average {}) {} the quorum set of {}", y, scores[y], average, if members.contains(&y) { "is in" } else { "is not in" }, x);
                }
            }
            if q.v.is_empty() {
                // nobody stands out
                case.count("no node above average");
            } else {
                let t = threshold(q.v.len(), rel);
                ensure!(t.0 <= q.t && q.t <= t.1, "global rank: threshold {} for {} validators", q.t, q.v.len());
            }
            ensure!(*q == now[now.iter().position(|p| *p != Q::default()).unwrap_or(x)] || *q == Q::default(), "global rank: nodes differ");
            case.count("global rank quorum sets");
        }
        let mut fbas = Fbas::new_generic_unconfigured(n);
        fbas.swap_quorum_set(keep, mine.clone());
        qsc.configure(keep, &mut fbas);
        ensure!(fbas.get_quorum_set(keep) == Some(mine), "a configured node is reconfigured by global rank");
        // higher tier neighbours
        for enforcing in [false, true] {
            let qsc = match rel {
                Some(x) => HigherTierNeighborsQsc::new_relative(graph.clone(), x, enforcing),
                None => HigherTierNeighborsQsc::new_67p(graph.clone(), enforcing),
            };
            // some FBAS to start from; the graph may know more nodes than the FBAS
            let size = if case.rng.chance(1, 4) { case.rng.range(1, n) } else { n };
            let mut fbas = Fbas::new_generic_unconfigured(size);
            for x in 0..size {
                if case.rng.chance(1, 2) {
                    let v: Vec<usize> = (0..size).filter(|_| case.rng.chance(1, 3)).collect();
                    let inner = QuorumSet { threshold: 1, validators: vec![case.rng.below(size)], inner_quorum_sets: vec![] };
                    fbas.swap_quorum_set(x, QuorumSet { threshold: 1, validators: v, inner_quorum_sets: if case.rng.chance(1, 4) { vec![inner] } else { vec![] } });
                }
            }
            for &x in order.iter().filter(|&&x| x < size) {
                let before = stored(&fbas);
                qsc.configure(x, &mut fbas);
                let after = stored(&fbas);
                for y in 0..size {
                    ensure!(y == x || before[y] == after[y], "configuring {} changes {}", x, y);
                }
                if !connected.contains(&x) {
                    ensure!(before[x] == after[x], "isolated node {} is reconfigured", x);
                    continue;
                }
                let own = scores[x];
                if links[x].iter().any(|&y| close(scores[y], 2.0 * own) && own > 0.0 || close(own, 2.0 * scores[y]) && scores[y] > 0.0) {
                    case.count("skipped: tier on the border");
                    continue;
                }
                if exact && links[x].iter().any(|&y| scores[y] == 2.0 * own && own > 0.0) {
                    case.count("neighbours of exactly twice the rank");
                }
                let higher: Vec<usize> = links[x].iter().copied().filter(|&y| scores[y] >= 2.0 * own).collect();
                let base: Vec<usize> = if higher.is_empty() {
                    links[x].iter().copied().filter(|&y| own < 2.0 * scores[y]).collect()
                } else {
                    case.count("higher tier neighbours");
                    higher
                };
                let mut v: Set = base.iter().copied().collect();
                v.insert(x);
                if enforcing {
                    for &y in &base {
                        if y < size {
                            let theirs = before[y].nodes();
                            if theirs.contains(&x) {
                                if !theirs.is_subset(&v) {
                                    case.count("symmetry enforced");
                                }
                                v.extend(theirs);
                            }
                        }
                    }
                }
                let v: Vec<usize> = v.into_iter().collect();
                is_flat(&after[x], &v, threshold(v.len(), rel), &format!("tier-based (symmetry enforcing: {}), node {}, scores {:?}", enforcing, x, scores))?;
                case.count("tier-based quorum sets");
            }
        }
        Ok(())
    });
    c.cases("foreign quorum sets", 30000, 600000, |case| {
        // whatever a node has before, configuring it gives it what the policy calls for
        let n = case.rng.size(1, 14, 600);
        if n > 64 {
            case.count("more than 64 nodes");
        }
        let undirected = case.rng.chance(1, 2);
        let links = random_links(&mut case.rng, n, undirected);
        let graph = Graph::new(links.clone());
        let rel = if case.rng.chance(1, 3) { Some(case.rng.range(0, 130) as f64 / 100.0) } else { None };
        let kind = case.rng.below(5);
        let desired = case.rng.range(1, n + 2);
        let t = if case.rng.chance(1, 3) { Some(case.rng.range(1, desired)) } else { None };
        let (name, qsc): (&str, Rc<dyn QuorumSetConfigurator>) = match kind {
            0 => ("super safe", Rc::new(SuperSafeQsc::new())),
            1 => ("ideal", Rc::new(IdealQsc::new())),
            2 => ("higher tier", Rc::new(HigherTierNeighborsQsc::new(graph.clone(), rel, false))),
            3 => ("higher tier, symmetric", Rc::new(HigherTierNeighborsQsc::new(graph.clone(), rel, true))),
            _ => ("random", Rc::new(RandomQsc::new(desired, t, None))),
        };
        let x = case.rng.below(n);
        let mut fbas = Fbas::new_generic_unconfigured(n);
        for _ in 0..case.rng.below(2 * n) {
            let y = case.rng.below(n);
            qsc.configure(y, &mut fbas);
        }
        if kind == 4 {
            let k = case.rng.range(1, n);
            let v: Vec<usize> = case.rng.perm(n)[..k].to_vec();
            let old = QuorumSet { threshold: case.rng.below(k + 2), validators: v.clone(), inner_quorum_sets: vec![] };
            case.input(format!("random, desired {} threshold {:?}, {} nodes, node {} has {:?}", desired, t, n, x, old));
            fbas.swap_quorum_set(x, old.clone());
            qsc.configure(x, &mut fbas);
            let q = fbas.get_quorum_set(x).unwrap();
            let target = desired.min(n);
            if k >= target {
                ensure!(q == old, "a large enough quorum set becomes {:?}", q);
                case.count("large enough quorum sets");
            } else {
                let s: Set = q.validators.iter().copied().collect();
                ensure!(q.validators.len() == target && s.len() == target && v.iter().all(|y| s.contains(y)) && q.inner_quorum_sets.is_empty(), "{:?}", q);
                ensure!(q.threshold == t.unwrap_or_else(|| t67(target)), "threshold of {:?}", q);
                case.count("foreign quorum sets extended");
            }
            case.nontrivial((n, desired, t, x, v));
            return Ok(());
        }
        let mut want = fbas.clone();
        qsc.configure(x, &mut want);
        let right = want.get_quorum_set(x).unwrap();
        let mut foreign = right.clone();
        match case.rng.below(5) {
            0 => foreign.threshold += 1,
            1 => foreign.threshold = foreign.threshold.saturating_sub(1),
            2 => foreign.inner_quorum_sets.push(QuorumSet { threshold: 1, validators: vec![x], inner_quorum_sets: vec![] }),
            3 => {
                let k = foreign.validators.len();
                if k > 0 {
                    foreign.validators[case.rng.below(k)] = case.rng.below(n);
                }
            }
            _ => {
                foreign.validators.pop();
            }
        }
        case.input(format!("{} {:?} on links {:?}, node {} has {:?}", name, rel, links, x, foreign));
        let connected = !links[x].is_empty() || links.iter().any(|l| l.contains(&x));
        fbas.swap_quorum_set(x, foreign.clone());
        qsc.configure(x, &mut fbas);
        if kind < 2 || connected {
            let got = fbas.get_quorum_set(x).unwrap();
            ensure!(got == right, "{}: node {} has {:?} before and {:?} after, instead of {:?}", name, x, foreign, got, right);
            if foreign != right {
                case.nontrivial((name, &links, x, format!("{:?}", foreign)));
                case.count("foreign quorum sets replaced");
            }
        } else {
            ensure!(fbas.get_quorum_set(x) == Some(foreign), "isolated node {} is reconfigured", x);
        }
        Ok(())
    });
    c.require("more than 64 nodes", 50);
    c.require("foreign quorum sets replaced", 5000);
    c.require("foreign quorum sets extended", 1000);
    c.require("large enough quorum sets", 1000);
    c.require("nodes of whole-network configurators", 5000);
    c.require("random quorum sets", 50000);
    c.require("weighted choices", 10000);
    c.require("fewer weights than nodes", 6);
    c.require("neighbour quorum sets", 50000);
    c.require("isolated nodes left alone", 5000);
    c.require("global rank quorum sets", 50000);
    c.require("higher tier neighbours", 5000);
    c.require("FBASs smaller than the graph", 2000);
    c.require("symmetry enforced", 2000);
    c.require("tier-based quorum sets", 50000);
    c.require("graphs with nodes of exactly average rank", 500);
    c.require("neighbours of exactly twice the rank", 200);
    c.finish();
}
