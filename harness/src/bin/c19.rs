use std::cell::RefCell;
use std::rc::Rc;
use vharness::simulation::monitors::*;
use vharness::simulation::*;
use vharness::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Log {
    Configure(usize, bool, usize),
    Event(Event),
}
/// Reconfigures node x as often as the script says; logs each call together with the events.
struct Scripted {
    log: Rc<RefCell<Vec<Log>>>,
    budget: RefCell<Vec<usize>>,
    fresh: usize,
    lies: bool,
}
impl QuorumSetConfigurator for Scripted {
    fn configure(&self, node_id: usize, fbas: &mut Fbas) -> ChangeEffect {
        let mut b = self.budget.borrow_mut();
        while b.len() <= node_id {
            b.push(self.fresh);
        }
        let change = b[node_id] > 0;
        if change {
            b[node_id] -= 1;
            if !self.lies {
                let old = fbas.get_quorum_set(node_id).unwrap();
                fbas.swap_quorum_set(node_id, QuorumSet { threshold: old.threshold + 1, validators: vec![node_id], inner_quorum_sets: vec![] });
            }
        }
        self.log.borrow_mut().push(Log::Configure(node_id, change, fbas.number_of_nodes()));
        if change { ChangeEffect::Change } else { ChangeEffect::NoChange }
    }
}
struct Recorder {
    log: Rc<RefCell<Vec<Log>>>,
    twin: DebugMonitor,
}
impl SimulationMonitor for Recorder {
    fn register_event(&self, event: Event) {
        self.log.borrow_mut().push(Log::Event(event));
        self.twin.register_event(event);
    }
}
struct Cursor<'a> {
    log: &'a [Log],
    at: usize,
}
impl<'a> Cursor<'a> {
    fn expect(&mut self, want: Log, what: &str) -> Verdict {
        let got = self.log.get(self.at);
        ensure!(got == Some(&want), "{}: log position {} is {:?} instead of {:?}", what, self.at, got, want);
        self.at += 1;
        Ok(())
    }
}
/// Follows one re-evaluation through the log. Returns the number of rounds.
fn follow(c: &mut Cursor, n: usize, max: usize, orders: &mut Vec<Vec<usize>>, changes: &mut [usize]) -> Result<usize, Violation> {
    c.expect(Log::Event(Event::StartGlobalReevaluation), "start of a re-evaluation")?;
    let mut rounds = 0;
    let mut stable = false;
    while rounds < max && !stable {
        c.expect(Log::Event(Event::StartGlobalReevaluationRound), "start of a round")?;
        rounds += 1;
        stable = true;
        let mut order = vec![];
        for _ in 0..n {
            let Some(&Log::Configure(x, change, size)) = c.log.get(c.at) else {
                return Err(Violation::from(format!("position {}: round {} visits only {} of {} nodes: {:?}", c.at, rounds, order.len(), n, c.log.get(c.at))));
            };
            c.at += 1;
            ensure!(x < n && !order.contains(&x), "round {} visits node {} again or beyond {} nodes", rounds, x, n);
            ensure!(size == n, "the FBAS has {} instead of {} nodes during the round", size, n);
            order.push(x);
            let e = if change { ChangeEffect::Change } else { ChangeEffect::NoChange };
            c.expect(Log::Event(Event::QuorumSetChange(x, e)), "report of a visit")?;
            if change {
                changes[x] += 1;
                stable = false;
            }
        }
        orders.push(order);
    }
    c.expect(Log::Event(Event::FinishGlobalReevaluation(rounds)), "end of a re-evaluation")?;
    Ok(rounds)
}
fn main() {
    let mut c = Check::start("C19", "exploration",
        "simulations with scripted configurators (random numbers of changes per node, some that only claim changes) in random sequences of growth and re-evaluation; the complete interleaved log of configurator calls and monitor events is checked against the protocol; non-trivial = some round had a change; distinct by (steps, script)");
    c.cases("protocol", 300000, 6000000, |case| {
        let log = Rc::new(RefCell::new(vec![]));
        let n0 = case.rng.below(6);
        let budget: Vec<usize> = (0..n0).map(|_| if case.rng.chance(1, 2) { 0 } else { case.rng.below(8) }).collect();
        let fresh = case.rng.below(5);
        let lies = case.rng.chance(1, 4);
        let qsc = Rc::new(Scripted { log: log.clone(), budget: RefCell::new(budget.clone()), fresh, lies });
        let rec = Rc::new(Recorder { log: log.clone(), twin: DebugMonitor::new() });
        let fbas = Fbas::new_generic_unconfigured(n0);
        let mut sim = Simulator::new(fbas, qsc.clone(), rec.clone());
        let mut n = n0;
        let mut changes = vec![0usize; n0];
        let mut orders = vec![];
        let steps: Vec<(bool, usize)> = (0..case.rng.range(1, 4))
            .map(|_| (case.rng.chance(1, 2), case.rng.below(6)))
            .collect();
        case.input(format!("{} nodes, budget {:?}, fresh {}, steps (grow?, by or max) {:?}", n0, budget, fresh, steps));
        for &(grow, k) in &steps {
            log.borrow_mut().clear();
            if grow {
                sim.simulate_growth(k);
                let l = log.borrow().clone();
                let mut cur = Cursor { log: &l, at: 0 };
                for _ in 0..k {
                    n += 1;
                    changes.push(0);
                    let Some(&Log::Configure(x, change, size)) = l.get(cur.at) else {
                        return Err(Violation::from(format!("a new node is not configured first: {:?}", l.get(cur.at))));
                    };
                    cur.at += 1;
                    ensure!(x == n - 1 && size == n, "the new node is {} in an FBAS of {} instead of {}", x, size, n);
                    if change {
                        changes[x] += 1;
                    }
                    cur.expect(Log::Event(Event::AddNode(x)), "report of a new node")?;
                    let r = follow(&mut cur, n, n, &mut orders, &mut changes)?;
                    case.add("rounds followed", r as u64);
                    if r < n { case.count("re-evaluations that became stable"); } else { case.count("re-evaluations cut off"); }
                    case.count("nodes added");
                }
                ensure!(cur.at == l.len(), "unexpected {:?} after the growth", l[cur.at]);
            } else {
                let returned = sim.simulate_global_reevaluation(k);
                let l = log.borrow().clone();
                let mut cur = Cursor { log: &l, at: 0 };
                let r = follow(&mut cur, n, k, &mut orders, &mut changes)?;
                ensure!(cur.at == l.len(), "unexpected {:?} after the re-evaluation", l[cur.at]);
                ensure!(returned == r, "{} rounds reported, {} happened", returned, r);
                case.add("rounds followed", r as u64);
                case.count("explicit re-evaluations");
            }
            case.add("events observed", log.borrow().len() as u64);
        }
        // the recording monitor has seen the same events
        let twin = rec.twin.events_clone();
        ensure!(*rec.twin.events_ref() == twin, "two views of the recorded events differ");
        let tail: Vec<Event> = log.borrow().iter().filter_map(|l| if let Log::Event(e) = l { Some(*e) } else { None }).collect();
        ensure!(twin.ends_with(&tail), "recorded events differ from the registered ones");
        let adds = twin.iter().filter(|e| matches!(e, Event::AddNode(_))).count();
        ensure!(adds == n - n0, "{} added nodes recorded, {} added", adds, n - n0);
        // and the FBAS that comes out is the one that was configured
        let before = sim.clone();
        let out = sim.finalize();
        ensure!(out.number_of_nodes() == n, "{} nodes come out instead of {}", out.number_of_nodes(), n);
        for x in 0..n {
            ensure!(out.get_node_id(&format!("n{}", x)) == Some(x), "node {} has another name", x);
            let q = out.get_quorum_set(x).unwrap();
            let want = if lies { 0 } else { changes[x] };
            ensure!(q.threshold == want, "node {} was reconfigured {} times but {} times in the result", x, want, q.threshold);
        }
        ensure!(before.finalize() == out, "the copy of the simulator holds another FBAS");
        if changes.iter().any(|&x| x > 0) {
            case.nontrivial((n0, &budget, fresh, steps.iter().map(|s| s.1).collect::<Vec<_>>(), steps.iter().map(|s| s.0).collect::<Vec<_>>()));
        }
        Ok(())
    });
    c.cases("restless", 400, 4000, |case| {
        // networks that never come to rest, or do so only late, while they grow large
        let log = Rc::new(RefCell::new(vec![]));
        let crowd = case.rng.chance(1, 20);
        let n0 = if crowd { case.rng.range(100, 300) } else { case.rng.below(30) };
        let grow = if crowd { case.rng.range(1, 4) } else { case.rng.range(1, 40 - n0.min(30)) };
        let fresh = *case.rng.pick(&[3, 12, 25, 1000000]);
        let (often, most) = if crowd { (60, 400) } else { (2, 60) };
        let budget: Vec<usize> = (0..n0).map(|_| if !case.rng.chance(1, often) { 0 } else { case.rng.below(most) }).collect();
        if crowd {
            case.count("simulations of a hundred nodes and more");
        }
        case.input(format!("{} nodes, grown by {}, budget {:?}, fresh {}", n0, grow, budget, fresh));
        let qsc = Rc::new(Scripted { log: log.clone(), budget: RefCell::new(budget.clone()), fresh, lies: true });
        let rec = Rc::new(Recorder { log: log.clone(), twin: DebugMonitor::new() });
        let mut sim = Simulator::new(Fbas::new_generic_unconfigured(n0), qsc, rec);
        sim.simulate_growth(grow);
        let l = std::mem::take(&mut *log.borrow_mut());
        let mut cur = Cursor { log: &l, at: 0 };
        let mut changes = vec![0; n0];
        for n in n0 + 1..=n0 + grow {
            changes.push(0);
            let Some(&Log::Configure(x, _, size)) = l.get(cur.at) else {
                return Err(Violation::from(format!("a new node is not configured first: {:?}", l.get(cur.at))));
            };
            cur.at += 1;
            ensure!(x == n - 1 && size == n, "the new node is {} in an FBAS of {} instead of {}", x, size, n);
            cur.expect(Log::Event(Event::AddNode(x)), "report of a new node")?;
            let r = follow(&mut cur, n, n, &mut vec![], &mut changes)?;
            case.add("rounds followed", r as u64);
            if r > 10 { case.count("re-evaluations of more than ten rounds"); }
        }
        ensure!(cur.at == l.len(), "unexpected {:?} after the growth", l[cur.at]);
        let max = case.rng.below(if crowd { 450 } else { 120 });
        let returned = sim.simulate_global_reevaluation(max);
        let l = log.borrow().clone();
        let mut cur = Cursor { log: &l, at: 0 };
        let r = follow(&mut cur, n0 + grow, max, &mut vec![], &mut changes)?;
        ensure!(cur.at == l.len() && r == returned, "{} rounds reported, {} happened", returned, r);
        case.nontrivial((n0, grow, fresh, &budget));
        Ok(())
    });
    c.cases("copies", 10000, 20000, |case| {
        // a copied simulator goes its own way
        let a = Rc::new(DebugMonitor::new());
        let mut sim = Simulator::new(Fbas::new(), Rc::new(qsc::IdealQsc), a.clone());
        let k = case.rng.range(1, 5);
        sim.simulate_growth(k);
        let mut copy = sim.clone();
        let extra = case.rng.range(1, 4);
        copy.simulate_growth(extra);
        let (x, y) = (sim.finalize(), copy.finalize());
        ensure!(x.number_of_nodes() == k && y.number_of_nodes() == k + extra, "{} and {} nodes", x.number_of_nodes(), y.number_of_nodes());
        let adds = a.events_clone().iter().filter(|e| matches!(e, Event::AddNode(_))).count();
        ensure!(adds == k + extra, "{} added nodes recorded", adds);
        let mut plain = Simulator::new(Fbas::new(), Rc::new(qsc::IdealQsc), Rc::new(DummyMonitor));
        plain.simulate_growth(k);
        ensure!(plain.finalize() == x, "the monitor influences the outcome");
        case.nontrivial((k, extra));
        case.count("copies compared");
        Ok(())
    });
    c.cases_on("orders", 1, 10, 1, |case| {
        // every round draws its order afresh
        let log = Rc::new(RefCell::new(vec![]));
        let n = 6;
        let qsc = Rc::new(Scripted { log: log.clone(), budget: RefCell::new(vec![3000; n]), fresh: 0, lies: true });
        let rec = Rc::new(Recorder { log: log.clone(), twin: DebugMonitor::new() });
        let mut sim = Simulator::new(Fbas::new_generic_unconfigured(n), qsc, rec);
        let r = sim.simulate_global_reevaluation(2000);
        ensure!(r == 2000, "{} rounds although every round changed something", r);
        let l = log.borrow().clone();
        let mut orders = vec![];
        follow(&mut Cursor { log: &l, at: 0 }, n, 2000, &mut orders, &mut vec![0; n])?;
        let distinct: std::collections::BTreeSet<&Vec<usize>> = orders.iter().collect();
        case.add("distinct orders of 6 nodes in 2000 rounds", distinct.len() as u64);
        ensure!(distinct.len() > 500, "only {} of 720 orders occur in 2000 rounds", distinct.len());
        for x in 0..n {
            let first = orders.iter().filter(|o| o[0] == x).count();
            ensure!((200..=480).contains(&first), "node {} goes first {} times in 2000 rounds", x, first);
        }
        case.nontrivial(1);
        Ok(())
    });
    c.require("rounds followed", 50000);
    c.require("events observed", 200000);
    c.require("re-evaluations that became stable", 10000);
    c.require("re-evaluations cut off", 2000);
    c.require("explicit re-evaluations", 10000);
    c.require("re-evaluations of more than ten rounds", 1000);
    c.require("simulations of a hundred nodes and more", 5);
    c.require("copies compared", 1000);
    c.require("distinct orders of 6 nodes in 2000 rounds", 500);
    c.finish();
}
