// needs: repo-binaries
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use vharness::simulation::monitors::DummyMonitor;
use vharness::simulation::qsc::*;
use vharness::simulation::*;
use vharness::*;

/// Links in the AS relationship format: `provider|customer|-1` (the customer links to the provider), `a|b|0`.
fn document(rng: &mut Rng, l: &[Vec<usize>]) -> String {
    let mut lines = vec!["# made up".to_string()];
    for a in 0..l.len() {
        for &b in &l[a] {
            if l[b].contains(&a) {
                if a < b {
                    lines.push(if rng.chance(1, 2) { format!("{}|{}|0", a, b) } else { format!("{}|{}|0|x", b, a) });
                }
            } else {
                lines.push(format!("{}|{}|-1", b, a));
            }
        }
    }
    rng.shuffle(&mut lines);
    lines.join("\n") + "\n"
}
/// Nodes and edges of a generated document; every edge must be a peering and appear once.
fn edges(text: &str) -> Result<(BTreeSet<(usize, usize)>, usize), Violation> {
    let mut e = BTreeSet::new();
    for line in text.lines().filter(|l| !l.is_empty() && !l.starts_with('#')) {
        let p: Vec<&str> = line.split('|').collect();
        let num = |i: usize| p.get(i).and_then(|x| x.parse::<usize>().ok());
        let (Some(a), Some(b), Some(0)) = (num(0), num(1), num(2)) else {
            return Err(format!("line {:?}", line).into());
        };
        ensure!(a != b && e.insert((a.min(b), a.max(b))), "edge {} is a loop or repeated", line);
    }
    let n = e.iter().map(|x| x.1 + 1).max().unwrap_or(0);
    Ok((e, n))
}
/// All members exist.
fn complete(text: &str) -> Result<Vec<Q>, Violation> {
    let qs = simulated(text)?;
    ensure!(!qs.iter().any(|q| q.any_level(&|x| x.u > 0)), "the output lists nodes that do not exist: {:?}", text);
    Ok(qs)
}
fn simulated(text: &str) -> Result<Vec<Q>, Violation> {
    let v: Result<fmodel::serde_json::Value, _> = fmodel::serde_json::from_str(text);
    ensure!(v.as_ref().map_or(false, |v| v.is_array()), "the output is not an FBAS: {:?}", text);
    let net = net_from_json(text);
    for (i, pk) in net.pks.iter().enumerate() {
        ensure!(net.pks[..i].iter().all(|p| p != pk), "public key {} is used twice", pk);
    }
    Ok(net.qs)
}
fn flat_set(q: &Q) -> (u64, Set, usize, usize) {
    (q.t, q.nodes(), q.v.len(), q.i.len())
}
fn main() {
    let mut c = Check::start("C29", "exploration",
        "runs of the quorum set simulator (every policy, random network sizes, growth, thresholds, graphs from files or standard input) and of the graph generator (both models, shuffled or not, to file or standard output), and pipelines of both; the printed networks and graphs judged by rule; non-trivial = two or more nodes; distinct by arguments and graph");
    let scratch = Scratch::new("c29");
    c.cases("simulator", 4000, 40000, |case| {
        let n = case.rng.size(1, 14, 150);
        if n > 64 {
            case.count("large networks");
        }
        let undirected = case.rng.chance(1, 2);
        let links = random_links(&mut case.rng, n, undirected);
        let used = (0..n).rev().find(|&x| !links[x].is_empty() || links.iter().any(|v| v.contains(&x))).map_or(0, |x| x + 1);
        let links = links[..used].to_vec();
        let doc = document(&mut case.rng, &links);
        let kind = case.rng.below(8);
        let graph_based = kind >= 3;
        if graph_based && used == 0 {
            return Ok(());
        }
        // size: explicit, grown, or that of the graph
        // (nodes that the graph does not know have no links and nothing special about them)
        let extra = if (3..7).contains(&kind) && case.rng.chance(1, 4) { case.rng.range(1, 4) } else { 0 };
        // (neighbours are chosen independent of node existence)
        let smaller = (4..8).contains(&kind) && extra == 0 && used > 1 && case.rng.chance(1, 5);
        let nothing = !graph_based && case.rng.chance(1, 40);
        let total = if nothing {
            case.count("neither sizes nor a graph");
            0
        } else if smaller {
            case.count("networks smaller than the graph");
            case.rng.range(1, used - 1)
        } else if graph_based {
            used + extra
        } else {
            n
        };
        if extra > 0 {
            case.count("networks larger than the graph");
        }
        let mut a: Vec<String> = vec![];
        let (initial, grow) = match case.rng.below(3) {
            0 if graph_based => (total, 0),
            1 => (total, 0),
            _ if nothing => (0, 0),
            _ => {
                let g = case.rng.range(1, total);
                (total - g, g)
            }
        };
        if !(graph_based && extra == 0 && !smaller && grow == 0 && case.rng.chance(1, 2)) {
            if initial > 0 {
                a.extend(args(&[*case.rng.pick(&["-i", "--initial"]), &initial.to_string()]));
            }
            if grow > 0 {
                a.extend(args(&[*case.rng.pick(&["-g", "--grow-by"]), &grow.to_string()]));
            }
        } else {
            case.count("network as large as the graph");
        }
        a.push(["SuperSafe", "Ideal", "Random", "FameWeightedRandom", "AllNeighbors", "HigherTierNeighbors", "SymmetryEnforcingHigherTierNeighbors", "GlobalRank"][kind].into());
        let top = *case.rng.pick(&[3, 5, 16]);
        let desired = case.rng.range(1, top);
        if kind == 2 || kind == 3 {
            a.push(desired.to_string());
        }
        let mut input = None;
        let p = scratch.path(&format!("g{}", case.index));
        let mut in_degree = vec![0usize; used];
        links.iter().flatten().for_each(|&y| in_degree[y] += 1);
        let obscure = in_degree.iter().filter(|&&d| d == 0).count();
        if kind == 3 && obscure > 0 && (grow > 0 || desired.min(total) >= total - obscure) {
            return Ok(()); // there may be nobody to choose
        }
        if graph_based {
            if case.rng.chance(1, 3) {
                a.push("-".into());
                input = Some(doc.clone());
            } else {
                std::fs::write(&p, &doc).unwrap();
                a.push(p.to_str().unwrap().into());
            }
        }
        let mut rel = None;
        let mut fixed = None;
        if graph_based && case.rng.chance(1, 2) {
            if kind == 3 {
                fixed = Some(case.rng.range(1, desired));
                a.push(fixed.unwrap().to_string());
            } else {
                let x = case.rng.range(0, 130) as f64 / 100.0;
                rel = Some(x);
                a.push(x.to_string());
            }
        }
        case.input(format!("{:?} {:?}", a, if graph_based { doc.as_str() } else { "" }));
        let r = run_tool("qsc_simulator", &a, input.as_ref().map(|s| s.as_bytes()), &scratch.0);
        let _ = std::fs::remove_file(&p);
        ensure!(r.ok(), "the run fails: {}", r.show());
        let got = simulated(&r.out)?;
        ensure!(got.len() == total, "{} nodes instead of {}", got.len(), total);
        let unknown = |q: &Q| q.any_level(&|x| x.u > 0);
        ensure!(smaller || !got.iter().any(unknown), "the output lists nodes that do not exist: {:?}", r.out);
        // what is expected, as far as the network knows the nodes
        let known = |q: &Q| {
            let mut k = q.clone();
            k.v.retain(|&y| y < total);
            k.u = q.v.len() - k.v.len();
            k
        };
        // the same in process for policies without chance
        let graph = || Graph::new(sorted_links(&links));
        let qsc: Option<Rc<dyn QuorumSetConfigurator>> = match kind {
            0 => Some(Rc::new(SuperSafeQsc::new())),
            1 => Some(Rc::new(IdealQsc::new())),
            4 => Some(Rc::new(AllNeighborsQsc::new(graph(), rel))),
            5 => Some(Rc::new(HigherTierNeighborsQsc::new(graph(), rel, false))),
            7 => Some(Rc::new(GlobalRankQsc::new(graph(), rel))),
            _ => None,
        };
        if let Some(qsc) = qsc {
            let mut sim = Simulator::new(Fbas::new_generic_unconfigured(initial), qsc, Rc::new(DummyMonitor));
            sim.simulate_global_reevaluation(initial);
            sim.simulate_growth(grow);
            let want = stored(&sim.finalize());
            for x in 0..total {
                let want = [known(&want[x])];
                ensure!(flat_set(&got[x]) == flat_set(&want[0]) && got[x].u == want[0].u, "{}: node {} has {} instead of {}", a[a.len() - 1], x, got[x].show(), want[0].show());
            }
            case.count("simulations of fixed policies");
        }
        match kind {
            0 | 1 => {
                let t = if kind == 0 || total == 0 { total } else { t67(total) } as u64;
                for (x, q) in got.iter().enumerate() {
                    ensure!(flat_set(q) == (t, (0..total).collect(), total, 0), "node {} of {}: {}", x, total, q.show());
                }
            }
            2 | 3 => {
                let size = desired.min(total);
                for (x, q) in got.iter().enumerate() {
                    let (t, nodes, v, i) = flat_set(q);
                    ensure!(v == size && nodes.len() == size && i == 0 && nodes.contains(&x), "node {}: {} instead of {} validators", x, q.show(), size);
                    ensure!(t == fixed.unwrap_or_else(|| t67(size)) as u64, "node {}: threshold {}", x, t);
                    if kind == 3 && obscure > 0 {
                        let bad = nodes.iter().find(|&&y| y != x && in_degree.get(y) == Some(&0));
                        ensure!(bad.is_none(), "node {} chooses node {:?}, to which nobody links", x, bad);
                        case.count("choices that leave unknown nodes out");
                    }
                }
                case.count("simulations of random policies");
            }
            4 => {
                for (x, q) in got.iter().enumerate() {
                    let mut want: Set = links.get(x).into_iter().flatten().copied().collect();
                    if want.is_empty() && in_degree.get(x).map_or(true, |&d| d == 0) {
                        ensure!(q.v.is_empty() && q.u == 0, "isolated node {}: {}", x, q.show());
                        continue;
                    }
                    want.insert(x);
                    let there = want.range(..total).copied().collect::<Set>();
                    ensure!(q.nodes() == there && q.u == want.len() - there.len(), "node {} links to {:?} but trusts {}", x, links.get(x), q.show());
                }
            }
            6 => {
                // whom the order of visits adds is open, whom the graph demands is not
                let mut sim = Simulator::new(Fbas::new_generic_unconfigured(total), Rc::new(HigherTierNeighborsQsc::new(graph(), rel, false)), Rc::new(DummyMonitor));
                sim.simulate_global_reevaluation(total);
                let base = stored(&sim.finalize());
                for x in 0..total {
                    let base = [known(&base[x])];
                    ensure!(base[0].nodes().is_subset(&got[x].nodes()) && base[0].u <= got[x].u, "node {}: {} lacks some of {}", x, got[x].show(), base[0].show());
                    ensure!(got[x].v.len() == got[x].nodes().len() && got[x].i.is_empty(), "node {}: {}", x, got[x].show());
                    if rel.is_none() && !got[x].v.is_empty() {
                        ensure!(got[x].t == t67(got[x].v.len() + got[x].u) as u64, "node {}: {}", x, got[x].show());
                    }
                }
                case.count("simulations of the symmetry enforcing policy");
            }
            _ => {}
        }
        if graph_based {
            case.count("simulations over graphs");
        }
        if grow > 0 {
            case.count("grown networks");
        }
        if total > 1 {
            case.nontrivial((&a.iter().filter(|x| !x.contains('/')).collect::<Vec<_>>(), &links));
        }
        Ok(())
    });
    c.cases("generator", 1500, 15000, |case| {
        let ba = case.rng.chance(1, 2);
        let plain = case.rng.chance(1, 2);
        let n = case.rng.size(3, 40, 60);
        if n > 64 {
            case.count("large graphs");
        }
        let mut a: Vec<String> = vec![];
        if plain {
            a.push("--dont-shuffle".into());
        }
        let out = scratch.path(&format!("o{}", case.index));
        let to_file = case.rng.chance(1, 2);
        if to_file {
            a.extend(args(&[*case.rng.pick(&["-o", "--output"]), out.to_str().unwrap()]));
        }
        let m0 = case.rng.range(1, n);
        let m = case.rng.range(1, m0);
        let k = 2 * case.rng.range(1, (n - 1) / 2);
        let beta = *case.rng.pick(&["0", "0", "0.1", "0.5", "1"]);
        let name = if ba { "BarabasiAlbert" } else { "WattsStrogatz" };
        a.push(name.into());
        a.push(n.to_string());
        if ba {
            a.extend(args(&[&m0.to_string(), &m.to_string()]));
        } else {
            a.extend(args(&[&k.to_string(), beta]));
        }
        case.input(format!("{:?}", a));
        let r = run_tool("graph_generator", &a, None, &scratch.0);
        ensure!(r.ok(), "the run fails: {}", r.show());
        let text = if to_file {
            ensure!(r.out.is_empty(), "the graph goes to a file, but there is output {:?}", r.out);
            // compressed, as the reader of such files finds out
            let g = Graph::from_as_rel_file(&out);
            let _ = std::fs::remove_file(&out);
            let l = outlinks_of(&g);
            let mut t = String::new();
            for x in 0..l.len() {
                for &y in &l[x] {
                    ensure!(l[y].contains(&x), "an edge is written in one direction only");
                    if x < y {
                        t.push_str(&format!("{}|{}|0\n", x, y));
                    }
                }
            }
            case.count("graphs written to files");
            t
        } else {
            case.count("graphs printed");
            r.out
        };
        let (e, seen) = edges(&text)?;
        // (a lone node has no edges to show)
        ensure!(seen == n || (ba && n == 1) || (ba && m0 == n && n == 1), "{} nodes instead of {}", seen, n);
        let mut deg = vec![0; n];
        for &(x, y) in &e {
            deg[x] += 1;
            deg[y] += 1;
        }
        if ba {
            let want = m0 * (m0 - 1) / 2 + (n - m0) * m;
            ensure!(e.len() == want, "{} edges instead of {}", e.len(), want);
            if plain {
                ensure!((0..m0).all(|x| (x + 1..m0).all(|y| e.contains(&(x, y)))), "the first {} nodes are not fully connected", m0);
            }
        } else {
            ensure!(e.len() == n * k / 2, "{} edges instead of {}", e.len(), n * k / 2);
            if beta == "0" {
                ensure!(deg.iter().all(|&d| d == k), "degrees {:?} in a ring lattice", deg);
                let ring = e.iter().all(|&(x, y)| (y - x).min(n - (y - x)) <= k / 2);
                if plain {
                    ensure!(ring, "unshuffled, but not a ring lattice: {:?}", e);
                } else if !ring {
                    case.count("visibly shuffled");
                } else {
                    // 2n of n! orders look alike
                    ensure!(n < 16 || k > n / 2, "node IDs are to be shuffled, but form a ring in the order in which they are created");
                }
                case.count("ring lattices");
            }
        }
        case.nontrivial((a, e));
        Ok(())
    });
    c.cases("settled", 120, 1200, |case| {
        // nodes keep reconsidering until nobody changes anything (if there are enough rounds, one per node)
        let n = case.rng.range(8, 24);
        let undirected = case.rng.chance(1, 2);
        let mut links = random_links(&mut case.rng, n, undirected);
        for x in 0..n {
            // (everybody is linked, and some a lot)
            let y = case.rng.below(1 + n / 4);
            if x != y && !links[x].contains(&y) {
                links[x].push(y);
            }
        }
        let links = sorted_links(&links);
        let doc = document(&mut case.rng, &links);
        let qsc: Rc<dyn QuorumSetConfigurator> = Rc::new(HigherTierNeighborsQsc::new(Graph::new(links.clone()), None, true));
        case.input(doc.clone());
        let settled = |fbas: &Fbas| -> bool {
            let mut f = fbas.clone();
            (0..n).for_each(|x| {
                qsc.configure(x, &mut f);
            });
            f == *fbas
        };
        let after = |rounds: usize| -> bool {
            let mut sim = Simulator::new(Fbas::new_generic_unconfigured(n), Rc::clone(&qsc), Rc::new(DummyMonitor));
            sim.simulate_global_reevaluation(rounds);
            settled(&sim.finalize())
        };
        if !(0..40).all(|_| after(n)) {
            case.count("networks that may not settle");
            return Ok(());
        }
        let mut unsettled = 0;
        for _ in 0..6 {
            let r = run_tool("qsc_simulator", &args(&["SymmetryEnforcingHigherTierNeighbors", "-"]), Some(doc.as_bytes()), &scratch.0);
            ensure!(r.ok(), "the run fails: {}", r.show());
            ensure!(complete(&r.out)?.len() == n, "{} nodes instead of {}", simulated(&r.out)?.len(), n);
            unsettled += !settled(&Fbas::from_json_str(&r.out)) as usize;
        }
        ensure!(unsettled < 6, "six of six simulations end before the network has settled, although {} rounds are enough", n);
        if !(0..20).any(|_| after(1)) {
            case.count("networks that take several rounds");
        }
        case.nontrivial(&links);
        Ok(())
    });
    c.require("networks that take several rounds", 20);
    c.cases("pipelines", 300, 3000, |case| {
        let n = case.rng.range(3, 25);
        let m0 = case.rng.range(1, 3);
        let a = args(&["BarabasiAlbert", &n.to_string(), &m0.to_string(), &case.rng.range(1, m0).to_string()]);
        case.input(format!("{:?}", a));
        let r = run_tool("graph_generator", &a, None, &scratch.0);
        ensure!(r.ok(), "the generator fails: {}", r.show());
        let (e, _) = edges(&r.out)?;
        let s = run_tool("qsc_simulator", &args(&["AllNeighbors", "-"]), Some(r.out.as_bytes()), &scratch.0);
        ensure!(s.ok(), "the simulator fails: {}", s.show());
        let got = complete(&s.out)?;
        ensure!(got.len() == n, "{} nodes instead of {}", got.len(), n);
        let mut want: BTreeMap<usize, Set> = (0..n).map(|x| (x, std::iter::once(x).collect())).collect();
        for (x, y) in e {
            want.get_mut(&x).unwrap().insert(y);
            want.get_mut(&y).unwrap().insert(x);
        }
        for (x, q) in got.iter().enumerate() {
            ensure!(q.nodes() == want[&x] && q.t == t67(q.v.len()) as u64, "node {}: {} instead of {:?}", x, q.show(), want[&x]);
        }
        // and on to the analysis
        let f = run_tool("fbas_analyzer", &args(&["--results-only"]), Some(s.out.as_bytes()), &scratch.0);
        ensure!(f.ok(), "the analysis fails: {}", f.show());
        ensure!(f.out.lines().any(|l| l == format!("nodes_total: {}", n)), "analysis of {} nodes: {}", n, f.out);
        let net = Net::new(got);
        if let Some(truth) = Truth::of_up_to(&net, 13) {
            ensure!(f.out.lines().any(|l| l == format!("has_quorum_intersection: {}", truth.qi)), "intersection is {}: {}", truth.qi, f.out);
            case.count("pipelines analysed");
        }
        case.nontrivial(case.index);
        Ok(())
    });
    c.cases("refused", 60, 600, |case| {
        let bad = *case.rng.pick(&["1|2|5\n", "1|2\n", "a|b|0\n"]);
        let (tool, a) = match case.rng.below(6) {
            0 => ("qsc_simulator", args(&["AllNeighbors", "-"])),
            1 => ("qsc_simulator", args(&["GlobalRank", "/no/such/graph"])),
            2 => ("qsc_simulator", args(&["-i", "3", "Random"])),
            3 => ("graph_generator", args(&["BarabasiAlbert", "10", "2", "3"])),
            4 => ("graph_generator", args(&["WattsStrogatz", "10", "3", "0.5"])),
            _ => ("qsc_simulator", args(&["-i", "x", "Ideal"])),
        };
        case.input(format!("{} {:?} {:?}", tool, a, bad));
        let r = run_tool(tool, &a, Some(bad.as_bytes()), &scratch.0);
        ensure!(!r.ok() && r.out.is_empty(), "accepted: {}", r.show());
        case.nontrivial((tool, a, bad));
        case.count("refused runs");
        Ok(())
    });
    c.require("simulations of fixed policies", 1000);
    c.require("simulations of random policies", 300);
    c.require("choices that leave unknown nodes out", 100);
    c.require("simulations of the symmetry enforcing policy", 200);
    c.require("simulations over graphs", 1000);
    c.require("network as large as the graph", 200);
    c.require("networks larger than the graph", 100);
    c.require("networks smaller than the graph", 100);
    c.require("neither sizes nor a graph", 10);
    c.require("grown networks", 500);
    c.require("graphs written to files", 300);
    c.require("graphs printed", 300);
    c.require("ring lattices", 100);
    c.require("visibly shuffled", 30);
    c.require("pipelines analysed", 100);
    c.require("refused runs", 40);
    c.require("large networks", 5);
    c.require("large graphs", 5);
    c.finish();
}
