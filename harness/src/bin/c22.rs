use std::rc::Rc;
use vharness::simulation::monitors::DummyMonitor;
use vharness::simulation::qsc::*;
use vharness::simulation::*;
use vharness::*;

fn judge67(n: u64) -> Verdict {
    let t = calculate_67p_threshold(n as usize) as u64;
    // f faults are tolerated: n >= 3f+1 for f = n-t, and one more fault would be too many
    ensure!(1 <= t && t <= n, "67% of {} nodes is {}", n, t);
    let f = (n - t) as u128;
    let n128 = n as u128;
    ensure!(3 * f + 1 <= n128 && 3 * (f + 1) + 1 > n128, "67% of {} nodes is {}: tolerates {} faults", n, t, f);
    ensure!(t as u128 == (2 * n128 + 1).div_ceil(3), "67% of {} nodes is {}", n, t);
    Ok(())
}
fn judgex(n: u64, num: u64, den: u64) -> Verdict {
    let x = num as f64 / den as f64;
    let t = calculate_x_threshold(n as usize, x) as f64;
    let p = num as f64 * n as f64 / den as f64;
    let slack = 1e-9 * (1.0 + p);
    ensure!(
        t >= 1.0 && t >= p - slack && (t < p + 1.0 + slack || t == 1.0),
        "{}/{} of {} nodes is {}", num, den, n, t
    );
    Ok(())
}
fn choose(n: u64, k: u64) -> u64 {
    (0..k).fold(1, |a, i| a * (n - i) / (i + 1))
}
fn main() {
    let mut c = Check::start("C22", "exploration",
        "every number of nodes up to 400 000 (and random ones up to 2^50), relative thresholds n/d for d up to 1000, and analyses of ideal and super safe networks of up to 10 nodes compared with closed forms; non-trivial = two or more nodes; distinct by (number of nodes, relative threshold)");
    c.cases("67 percent", 400, 4000, |case| {
        let from = 1 + case.index * 1000;
        case.input(format!("{}..{}", from, from + 1000));
        for n in from..from + 1000 {
            judge67(n)?;
        }
        case.add("67% thresholds", 1000);
        for _ in 0..200 {
            let bits = case.rng.range(1, 50);
            judge67(1 + (case.rng.next() >> (64 - bits)))?;
            case.count("67% thresholds");
        }
        case.nontrivial(from);
        Ok(())
    });
    c.cases("relative", 100000, 1000000, |case| {
        let den = case.rng.range(1, 1000) as u64;
        let most = if case.rng.chance(1, 4) { 3 * den } else { den };
        let num = case.rng.range(0, most as usize) as u64;
        let n = if case.rng.chance(1, 5) { case.rng.range(1, 1 << 30) } else { case.rng.range(1, 300) } as u64;
        case.input(format!("{}/{} of {}", num, den, n));
        judgex(n, num, den)?;
        if num == den {
            ensure!(calculate_x_threshold(n as usize, 1.0) == n as usize, "all of {}", n);
        }
        case.count("relative thresholds");
        case.nontrivial((num, den, n));
        Ok(())
    });
    // relative thresholds that are binary fractions leave nothing to rounding
    c.cases("exact relative", 200000, 3000000, |case| {
        let bits = case.rng.range(1, 30);
        let den = 1u64 << bits;
        let bound = if case.rng.chance(1, 4) { 4 * den } else { den + 1 };
        let num = case.rng.next() % bound;
        let n = match case.rng.below(3) {
            0 => case.rng.range(1, 40),
            1 => case.rng.range(1, 3000),
            _ => case.rng.range(1, 1 << 20),
        } as u64;
        case.input(format!("{}/2^{} of {}", num, bits, n));
        let want = (num * n).div_ceil(den).max(1);
        let got = calculate_x_threshold(n as usize, num as f64 / den as f64) as u64;
        ensure!(got == want, "{}/{} of {} nodes is {} instead of {}", num, den, n, got, want);
        if num > den {
            case.count("relative thresholds above one");
        }
        ensure!(calculate_x_threshold(n as usize, -(num as f64) / den as f64) == 1 && calculate_x_threshold(0, num as f64 / den as f64) == 1, "at least 1");
        case.count("exact relative thresholds");
        case.nontrivial((num, den, n));
        Ok(())
    });
    // what the thresholds are for
    c.cases("networks", 20, 24, |case| {
        let n = case.index / 2 + 1;
        let ideal = case.index % 2 == 0;
        let qsc: Rc<dyn QuorumSetConfigurator> = if ideal { Rc::new(IdealQsc) } else { Rc::new(SuperSafeQsc) };
        let mut sim = Simulator::new(Fbas::new(), qsc, Rc::new(DummyMonitor));
        sim.simulate_growth(n as usize);
        let fbas = sim.finalize();
        let a = Analysis::new(&fbas);
        let t = if ideal { t67(n as usize) as u64 } else { n };
        case.input(format!("{} nodes, threshold {}", n, t));
        let (q, b, s) = (a.minimal_quorums(), a.minimal_blocking_sets(), a.minimal_splitting_sets());
        ensure!(a.has_quorum_intersection(), "no quorum intersection");
        ensure!(q.len() as u64 == choose(n, t) && q.min() as u64 == t && q.max() as u64 == t, "{} minimal quorums of {} to {}", q.len(), q.min(), q.max());
        ensure!(b.len() as u64 == choose(n, n - t + 1) && b.min() as u64 == n - t + 1, "{} minimal blocking sets of {}", b.len(), b.min());
        if t < n {
            ensure!(s.min() as u64 == 2 * t - n && s.len() as u64 == choose(n, 2 * t - n), "{} minimal splitting sets of {}", s.len(), s.min());
        } else {
            ensure!(s.is_empty(), "{} minimal splitting sets", s.len());
        }
        ensure!(a.top_tier().len() as u64 == n && a.symmetric_top_tier().is_some(), "top tier");
        case.count("networks analysed");
        if n > 1 {
            case.nontrivial((n, ideal));
        }
        Ok(())
    });
    c.require("67% thresholds", 100000);
    c.require("relative thresholds", 50000);
    c.require("networks analysed", 18);
    c.require("relative thresholds above one", 5000);
    c.require("exact relative thresholds", 100000);
    c.finish();
}
