use std::rc::Rc;
use vharness::simulation::monitors::DummyMonitor;
use vharness::simulation::qsc::*;
use vharness::simulation::*;
use vharness::*;

const KINDS: usize = 8;
fn configurator(kind: usize, graph: &Graph, rng: &mut Rng) -> (String, Rc<dyn QuorumSetConfigurator>) {
    let g = graph.clone();
    let rel = if rng.chance(1, 2) { Some(rng.range(1, 100) as f64 / 100.0) } else { None };
    match kind {
        0 => ("super safe".into(), Rc::new(SuperSafeQsc::new())),
        1 => ("ideal".into(), Rc::new(IdealQsc::new())),
        2 => ("dummy".into(), Rc::new(DummyQsc)),
        3 => {
            let (d, t) = (rng.range(1, 12), if rng.chance(1, 3) { Some(rng.range(1, 5)) } else { None });
            (format!("random {} {:?}", d, t), Rc::new(RandomQsc::new(d, t, None)))
        }
        4 => (format!("all neighbours {:?}", rel), Rc::new(AllNeighborsQsc::new(g, rel))),
        5 => (format!("global rank {:?}", rel), Rc::new(GlobalRankQsc::new(g, rel))),
        6 => (format!("higher tier {:?}", rel), Rc::new(HigherTierNeighborsQsc::new(g, rel, false))),
        _ => (format!("higher tier, symmetric {:?}", rel), Rc::new(HigherTierNeighborsQsc::new(g, rel, true))),
    }
}
/// Passes calls on to a real configurator and compares what it reports with what it did.
struct Watched {
    inner: Rc<dyn QuorumSetConfigurator>,
    wrong: std::cell::RefCell<Vec<String>>,
    seen: std::cell::Cell<(u64, u64)>,
}
impl QuorumSetConfigurator for Watched {
    fn configure(&self, node_id: usize, fbas: &mut Fbas) -> ChangeEffect {
        let before = stored(fbas);
        let e = self.inner.configure(node_id, fbas);
        let after = stored(fbas);
        let changed = before != after;
        let mut wrong = self.wrong.borrow_mut();
        if changed != (e == ChangeEffect::Change) {
            wrong.push(format!("node {}: reports {:?} but goes from {} to {}", node_id, e, before[node_id].show(), after[node_id].show()));
        }
        if before.len() != after.len() || (0..before.len()).any(|y| y != node_id && before[y] != after[y]) {
            wrong.push(format!("configuring node {} touches other nodes", node_id));
        }
        let (a, b) = self.seen.get();
        self.seen.set(if changed { (a + 1, b) } else { (a, b + 1) });
        e
    }
}
fn main() {
    let mut c = Check::start("C21", "exploration",
        "every configurator, wrapped so that each call is compared with the change it makes, in random simulations (growth, re-evaluation, FBASs that start with foreign quorum sets) on random graphs; non-trivial = two or more nodes; distinct by setup");
    c.cases("simulations", 60000, 1200000, |case| {
        let n = case.rng.size(1, 12, 3000);
        if n > 64 {
            case.count("more than 64 nodes");
        }
        let undirected = case.rng.chance(1, 2);
        let links = random_links(&mut case.rng, n, undirected);
        let graph = Graph::new(links.clone());
        let kind = case.index as usize % KINDS;
        let (name, inner) = configurator(kind, &graph, &mut case.rng);
        let n0 = case.rng.below(n + 1);
        let mut fbas = Fbas::new_generic_unconfigured(n0);
        let foreign = case.rng.chance(1, 2);
        if foreign {
            for x in 0..n0 {
                if case.rng.chance(1, 2) {
                    let v: Vec<usize> = (0..n0).filter(|_| case.rng.chance(1, 3)).collect();
                    let t = case.rng.below(v.len() + 2);
                    fbas.swap_quorum_set(x, QuorumSet { threshold: t, validators: v, inner_quorum_sets: vec![] });
                }
            }
        }
        case.input(format!("{} on links {:?}, {} nodes at the start: {:?}", name, links, n0, stored(&fbas).iter().map(|q| q.show()).collect::<Vec<_>>()));
        let w = Rc::new(Watched { inner: inner.clone(), wrong: Default::default(), seen: Default::default() });
        let mut sim = Simulator::new(fbas, w.clone(), Rc::new(DummyMonitor));
        let max = case.rng.range(1, 8);
        let rounds = sim.simulate_global_reevaluation(max);
        sim.simulate_growth(n - n0);
        let more = sim.simulate_global_reevaluation(50);
        ensure!(w.wrong.borrow().is_empty(), "{}", w.wrong.borrow()[0]);
        let (a, b) = w.seen.get();
        case.add(&format!("changes by {}", name.split(' ').next().unwrap()), a);
        case.add("calls that changed something", a);
        case.add("calls that changed nothing", b);
        if n > 1 {
            case.nontrivial((&name, &links, n0));
        }
        ensure!(rounds <= max && more <= 50, "{} rounds, {} rounds", rounds, more);
        // after a re-evaluation that ended by itself nobody wants to change anything
        let out = sim.finalize();
        if more < 50 {
            let mut again = out.clone();
            for x in case.rng.perm(n) {
                let e = inner.configure(x, &mut again);
                ensure!(e == ChangeEffect::NoChange && again == out, "{}: stable after {} rounds, but node {} still changes", name, more, x);
            }
            case.count("stable outcomes");
        } else {
            ensure!(kind >= 6, "{} does not become stable", name);
            case.count("never stable");
        }
        Ok(())
    });
    c.cases("look-alikes", 60000, 1200000, |case| {
        // what a node has already looks much like what it should get
        let n = case.rng.size(1, 12, 3000);
        if n > 64 {
            case.count("more than 64 nodes");
        }
        let undirected = case.rng.chance(1, 2);
        let links = random_links(&mut case.rng, n, undirected);
        let graph = Graph::new(links.clone());
        let kind = case.index as usize % KINDS;
        let (name, inner) = configurator(kind, &graph, &mut case.rng);
        let mut fbas = Fbas::new_generic_unconfigured(n);
        for x in case.rng.perm(n) {
            inner.configure(x, &mut fbas);
        }
        case.input(format!("{} on links {:?}", name, links));
        for _ in 0..case.rng.range(1, 6) {
            let x = case.rng.below(n);
            let mut q = fbas.get_quorum_set(x).unwrap();
            let k = q.validators.len();
            match case.rng.below(8) {
                0 if k > 0 => q.validators[case.rng.below(k)] = case.rng.below(n),
                1 if k > 1 => q.validators.reverse(),
                2 if k > 1 => {
                    let (a, b) = (case.rng.below(k), case.rng.below(k));
                    q.validators[a] = q.validators[b];
                }
                3 => q.threshold = q.threshold.saturating_sub(1),
                4 => q.threshold += 1,
                5 if k > 0 => {
                    let v = q.validators.pop().unwrap();
                    q.inner_quorum_sets.push(QuorumSet { threshold: 1, validators: vec![v], inner_quorum_sets: vec![] });
                }
                6 => q.inner_quorum_sets.push(QuorumSet { threshold: 0, validators: vec![], inner_quorum_sets: vec![] }),
                _ => q.validators.push(case.rng.below(n)),
            }
            case.more_input(&format!(", node {} has {}", x, from_qs(&q).show()));
            fbas.swap_quorum_set(x, q);
            let y = if case.rng.chance(3, 4) { x } else { case.rng.below(n) };
            let before = stored(&fbas);
            let e = inner.configure(y, &mut fbas);
            let after = stored(&fbas);
            ensure!((after != before) == (e == ChangeEffect::Change), "{}: node {} reports {:?} but goes from {} to {}", name, y, e, before[y].show(), after[y].show());
            ensure!((0..n).all(|z| z == y || before[z] == after[z]), "{}: configuring node {} touches other nodes", name, y);
            let e = inner.configure(y, &mut fbas);
            ensure!(e == ChangeEffect::NoChange && stored(&fbas) == after, "{}: node {} changes again when asked twice", name, y);
            case.count("look-alikes");
        }
        case.nontrivial((&name, &links));
        Ok(())
    });
    c.cases("twice", 40000, 800000, |case| {
        // configuring the same node twice in a row changes nothing the second time
        let n = case.rng.size(1, 12, 3000);
        if n > 64 {
            case.count("more than 64 nodes");
        }
        let undirected = case.rng.chance(1, 2);
        let links = random_links(&mut case.rng, n, undirected);
        let graph = Graph::new(links.clone());
        let kind = case.index as usize % KINDS;
        let (name, inner) = configurator(kind, &graph, &mut case.rng);
        let mut fbas = Fbas::new_generic_unconfigured(n);
        case.input(format!("{} on links {:?}", name, links));
        for _ in 0..case.rng.range(1, 2 * n) {
            let x = case.rng.below(n);
            let before = fbas.clone();
            let e = inner.configure(x, &mut fbas);
            ensure!((fbas != before) == (e == ChangeEffect::Change), "{}: node {} reports {:?}", name, x, e);
            let once = fbas.clone();
            let e = inner.configure(x, &mut fbas);
            ensure!(e == ChangeEffect::NoChange && fbas == once, "{}: node {} changes again when asked twice", name, x);
            case.count("asked twice");
        }
        case.nontrivial((&name, &links));
        Ok(())
    });
    for k in ["super", "ideal", "random", "all", "global", "higher"] {
        c.require(&format!("changes by {}", k), 2000);
    }
    c.require("calls that changed nothing", 50000);
    c.require("more than 64 nodes", 12);
    c.require("stable outcomes", 20000);
    c.require("asked twice", 50000);
    c.require("look-alikes", 100000);
    c.finish();
}
