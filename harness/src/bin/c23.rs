use std::collections::BTreeSet;
use vharness::simulation::Graph;
use vharness::*;

/// Symmetric links, none to oneself, none twice. Returns the number of edges.
fn simple_undirected(g: &Graph, what: &str) -> Result<(Vec<Vec<usize>>, usize), Violation> {
    let l = outlinks_of(g);
    let n = g.number_of_nodes();
    let out = g.get_out_degrees();
    for x in 0..n {
        let d: BTreeSet<usize> = l[x].iter().copied().collect();
        ensure!(d.len() == l[x].len(), "{}: node {} links twice to a node: {:?}", what, x, l[x]);
        ensure!(out[x] == l[x].len(), "{}: node {} links to itself", what, x);
        for &y in &l[x] {
            ensure!(y < n && l[y].contains(&x), "{}: {} links to {} but not back", what, x, y);
        }
    }
    ensure!(g.is_undirected(), "{}: not recognized as undirected", what);
    let e: usize = l.iter().map(|v| v.len()).sum::<usize>() / 2;
    Ok((l, e))
}
fn main() {
    let mut c = Check::start("C23", "exploration",
        "graphs from every generator over random parameters, observed through the links a configurator adopts; structure, edge counts and (over thousands of graphs) the frequencies that define the random models; non-trivial = two or more nodes; distinct by parameters");
    c.cases("meshes", 20000, 300000, |case| {
        let n = case.rng.size(0, 29, 200);
        let g = Graph::new_full_mesh(n);
        case.input(format!("full mesh of {}", n));
        ensure!(g.number_of_nodes() == n, "{} nodes", g.number_of_nodes());
        let (l, e) = simple_undirected(&g, "full mesh")?;
        ensure!(e == n * n.saturating_sub(1) / 2 && l.iter().all(|v| v.len() + 1 == n), "full mesh of {} has {} edges", n, e);
        case.count("full meshes");
        let tiers: Vec<usize> = (0..case.rng.below(6)).map(|_| case.rng.size(0, 5, 1000)).collect();
        case.input(format!("tiers {:?}", tiers));
        let g = Graph::new_tiered_full_mesh(&tiers);
        let n: usize = tiers.iter().sum();
        ensure!(g.number_of_nodes() == n, "{} nodes instead of {}", g.number_of_nodes(), n);
        let l = outlinks_of(&g);
        let out = g.get_out_degrees();
        let mut start = 0;
        let mut above: Vec<usize> = vec![];
        for (t, &size) in tiers.iter().enumerate() {
            let mine: Vec<usize> = (start..start + size).collect();
            for &x in &mine {
                let mut want: Vec<usize> = above.iter().chain(&mine).copied().filter(|&y| y != x).collect();
                want.sort();
                ensure!(l[x] == want && out[x] == want.len(), "tier {} of {:?}: node {} links to {:?} instead of {:?}", t, tiers, x, l[x], want);
                case.count("nodes of tiered meshes");
            }
            above = mine;
            start += size;
        }
        if n > 1 {
            case.nontrivial(("tiers", &tiers));
        }
        Ok(())
    });
    c.cases("scale free", 20000, 300000, |case| {
        let n = case.rng.size(1, 40, 200);
        if n > 64 {
            case.count("more than 64 nodes");
        }
        let m0 = case.rng.range(1, n);
        let m = case.rng.range(1, m0);
        case.input(format!("Barabasi-Albert {} {} {}", n, m0, m));
        let g = Graph::new_random_scale_free(n, m0, m);
        ensure!(g.number_of_nodes() == n, "{} nodes", g.number_of_nodes());
        let (l, e) = simple_undirected(&g, "scale free")?;
        let want = m0 * (m0 - 1) / 2 + (n - m0) * m;
        ensure!(e == want, "{} edges instead of {}", e, want);
        for x in 0..m0 {
            ensure!((0..m0).all(|y| y == x || l[x].contains(&y)), "the first {} nodes are not fully connected", m0);
        }
        for x in m0..n {
            let older = l[x].iter().filter(|&&y| y < x).count();
            ensure!(older == m, "node {} arrives with {} instead of {} links", x, older, m);
        }
        if n > 1 {
            case.nontrivial(("ba", n, m0, m));
        }
        case.count("scale-free graphs");
        Ok(())
    });
    c.cases("small world", 20000, 300000, |case| {
        let n = case.rng.size(2, 40, 200);
        if n > 64 {
            case.count("more than 64 nodes");
        }
        let k = 2 * case.rng.below((n - 1) / 2 + 1);
        let beta = *case.rng.pick(&[0.0, 0.05, 0.3, 0.5, 1.0]);
        case.input(format!("Watts-Strogatz {} {} {}", n, k, beta));
        let g = Graph::new_random_small_world(n, k, beta);
        ensure!(g.number_of_nodes() == n, "{} nodes", g.number_of_nodes());
        let (l, e) = simple_undirected(&g, "small world")?;
        ensure!(e == n * k / 2, "{} edges instead of {}", e, n * k / 2);
        let ring = |x: usize, y: usize| {
            let d = (x + n - y) % n;
            d.min(n - d) <= k / 2
        };
        let kept: usize = (0..n).map(|x| l[x].iter().filter(|&&y| ring(x, y)).count()).sum::<usize>() / 2;
        if beta == 0.0 {
            ensure!(kept == e, "without rewiring {} of {} edges are not on the ring lattice", e - kept, e);
            case.count("ring lattices");
        }
        // a rewired edge keeps one of its ends: nobody loses more than half of the ring's links
        ensure!(l.iter().all(|v| v.len() >= k / 2), "some node is left with fewer than {} links: {:?}", k / 2, l);
        case.nontrivial(("ws", n, k, (beta * 100.0) as u64));
        case.count("small-world graphs");
        Ok(())
    });
    c.cases_on("frequencies", 1, 4, 1, |case| {
        case.nontrivial(case.index);
        // preferential attachment: the fourth node joins the better connected node with probability 1/2
        let runs = 6000;
        let mut hub = 0;
        let mut late = 0;
        for _ in 0..runs {
            let l = outlinks_of(&Graph::new_random_scale_free(4, 2, 1));
            let t = if l[2].contains(&0) { 0 } else { 1 };
            if l[3].contains(&t) { hub += 1; }
            if l[3].contains(&2) { late += 1; }
            case.count("attachments observed");
        }
        let (h, l) = (hub as f64 / runs as f64, late as f64 / runs as f64);
        ensure!((h - 0.5).abs() < 0.05 && (l - 0.25).abs() < 0.05, "attachment frequencies {:.3} (expected 0.5) and {:.3} (expected 0.25)", h, l);
        // rewiring happens about as often as asked, and to anywhere
        let (n, k) = (60, 4);
        for beta in [0.1, 0.5, 1.0] {
            let mut off = 0;
            let mut far: BTreeSet<(usize, usize)> = BTreeSet::new();
            let rounds = 60;
            for _ in 0..rounds {
                let l = outlinks_of(&Graph::new_random_small_world(n, k, beta));
                for x in 0..n {
                    for &y in &l[x] {
                        let d = (x + n - y) % n;
                        if d.min(n - d) > k / 2 && x < y {
                            off += 1;
                            far.insert((x, y));
                        }
                    }
                }
                case.count("rewirings observed");
            }
            let rate = off as f64 / (rounds * n * k / 2) as f64;
            ensure!((rate - beta).abs() < 0.05 + 0.12 * beta * beta, "with beta = {}, {:.3} of the edges are rewired", beta, rate);
            if beta == 1.0 {
                ensure!(far.len() > 1200, "rewired edges only ever lead to {} pairs", far.len());
            }
        }
        Ok(())
    });
    c.cases("attachment", 24, 400, |case| {
        // Every attachment is compared with its probability at the time (the order of arrival is
        // the order of IDs), summed up by the degree and by the age of the node attached to.
        let (n, m0, m) = [(2000, 2, 1), (900, 5, 1), (300, 2, 2), (250, 6, 2), (400, 30, 1), (300, 40, 2)][case.index as usize % 6];
        case.input(format!("Barabasi-Albert {} {} {}", n, m0, m));
        let graphs = if m == 1 { 12 } else { 6 };
        let mut by: std::collections::BTreeMap<String, (f64, f64, f64)> = Default::default();
        for _ in 0..graphs {
            let l = outlinks_of(&Graph::new_random_scale_free(n, m0, m));
            let mut w: Vec<f64> = vec![(m0 - 1).max(1) as f64; m0];
            for i in m0..n {
                let chosen: BTreeSet<usize> = l[i].iter().copied().filter(|&y| y < i).collect();
                ensure!(chosen.len() == m, "node {} arrives with {} links", i, chosen.len());
                let total: f64 = w.iter().sum();
                // probability that the first draw is z, divided by what is left for the second
                let rest: f64 = w.iter().map(|z| z / total / (total - z)).sum();
                for y in 0..i {
                    let first = w[y] / total;
                    let p = if m == 1 { first } else { first + w[y] * (rest - first / (total - w[y])) };
                    let hit = chosen.contains(&y) as u8 as f64;
                    let age = ["first tenth", "second tenth", "later"][(y * 10 / i).min(2)];
                    for key in [format!("degree 2^{}", w[y].log2() as usize), format!("age {}", age), format!("previous {}", y + 1 == i), format!("parity {}", y % 2), format!("initial {}", y < m0)] {
                        let e = by.entry(key).or_default();
                        *e = (e.0 + hit, e.1 + p, e.2 + p * (1.0 - p));
                    }
                }
                for &y in &chosen {
                    w[y] += 1.0;
                }
                w.push(m as f64);
                case.add("attachments compared with their probability", m as u64);
            }
        }
        for (key, (hits, expected, variance)) in &by {
            if *variance > 20.0 {
                let z = (hits - expected) / variance.sqrt();
                ensure!(z.abs() < 7.0, "{}: {} attachments, {:.1} expected ({:.1} standard deviations)", key, hits, expected, z);
                case.count("classes of nodes compared");
            }
        }
        case.nontrivial((n, m0, m));
        Ok(())
    });
    c.cases("rewiring", 12, 200, |case| {
        // every edge of the ring is equally likely to be rewired, to every node alike
        let (n, k) = [(40, 2), (20, 4), (13, 2), (30, 6)][case.index as usize % 4];
        case.input(format!("Watts-Strogatz {} {}", n, k));
        let runs = 1500;
        let count = |beta: f64| {
            let mut seen = vec![vec![0usize; n]; n];
            for _ in 0..runs {
                for (x, v) in outlinks_of(&Graph::new_random_small_world(n, k, beta)).iter().enumerate() {
                    for &y in v {
                        seen[x][y] += 1;
                    }
                }
            }
            seen
        };
        let on = |x: usize, y: usize| {
            let d = (x + n - y) % n;
            d.min(n - d) <= k / 2
        };
        let (half, full) = (count(0.5), count(1.0));
        let mut off = vec![];
        for x in 0..n {
            for y in 0..x {
                if on(x, y) {
                    let f = half[x][y] as f64 / runs as f64;
                    ensure!(f > 0.4 && f < 0.72, "with beta = 0.5 the edge {}-{} of the ring remains in {:.3} of the graphs", y, x, f);
                    case.count("edges of rings followed");
                } else {
                    off.push((full[x][y], x, y));
                }
            }
        }
        let mean = off.iter().map(|o| o.0).sum::<usize>() as f64 / off.len() as f64;
        let slack = 0.3 * mean + 7.0 * mean.sqrt();
        for (f, x, y) in off {
            ensure!((f as f64 - mean).abs() < slack, "with beta = 1 nodes {} and {} are linked {} times, others {:.1} times", y, x, f, mean);
            case.count("pairs beyond rings followed");
        }
        case.nontrivial((n, k));
        Ok(())
    });
    c.require("attachments compared with their probability", 50000);
    c.require("classes of nodes compared", 200);
    c.require("edges of rings followed", 200);
    c.require("pairs beyond rings followed", 1000);
    c.require("full meshes", 5000);
    c.require("nodes of tiered meshes", 50000);
    c.require("scale-free graphs", 5000);
    c.require("small-world graphs", 5000);
    c.require("ring lattices", 1000);
    c.require("attachments observed", 6000);
    c.require("more than 64 nodes", 80);
    c.finish();
}
