use std::collections::BTreeMap;
use vharness::simulation::Graph;
use vharness::*;

type Links = Vec<Vec<usize>>;
fn in_links(l: &Links) -> Links {
    let mut t = vec![vec![]; l.len()];
    for (x, v) in l.iter().enumerate() {
        for &y in v {
            t[y].push(x);
        }
    }
    t
}
/// Colour refinement on both graphs at once.
fn colours(a: &Links, b: &Links) -> (Vec<usize>, Vec<usize>) {
    let all = [(a, in_links(a)), (b, in_links(b))];
    let mut col = vec![vec![0usize; a.len()], vec![0usize; b.len()]];
    let mut classes = 1;
    loop {
        let mut names: BTreeMap<(usize, Vec<usize>, Vec<usize>), usize> = BTreeMap::new();
        let mut sigs = vec![];
        for (k, (l, t)) in all.iter().enumerate() {
            for x in 0..l.len() {
                let of = |v: &Vec<usize>| {
                    let mut c: Vec<usize> = v.iter().map(|&y| col[k][y]).collect();
                    c.sort();
                    c
                };
                let s = (col[k][x], of(&l[x]), of(&t[x]));
                names.insert(s.clone(), 0);
                sigs.push((k, x, s));
            }
        }
        for (i, v) in names.values_mut().enumerate() {
            *v = i;
        }
        let n = names.len();
        for (k, x, s) in sigs {
            col[k][x] = names[&s];
        }
        if n == classes {
            break;
        }
        classes = n;
    }
    let b = col.pop().unwrap();
    (col.pop().unwrap(), b)
}
/// A relabelling of `a` that gives `b`, or how far the search got: None = too expensive to say.
fn isomorphic(a: &Links, b: &Links) -> Option<bool> {
    let n = a.len();
    let (ca, cb) = colours(a, b);
    let (mut sa, mut sb) = (ca.clone(), cb.clone());
    sa.sort();
    sb.sort();
    if sa != sb {
        return Some(false);
    }
    fn go(x: usize, map: &mut Vec<usize>, used: &mut Vec<bool>, a: &Links, b: &Links, ca: &[usize], cb: &[usize], fuel: &mut u64) -> Option<bool> {
        let n = a.len();
        if x == n {
            return Some(true);
        }
        for y in 0..n {
            if used[y] || ca[x] != cb[y] {
                continue;
            }
            if *fuel == 0 {
                return None;
            }
            *fuel -= 1;
            if (0..x).all(|z| a[x].contains(&z) == b[y].contains(&map[z]) && a[z].contains(&x) == b[map[z]].contains(&y)) {
                map[x] = y;
                used[y] = true;
                let r = go(x + 1, map, used, a, b, ca, cb, fuel);
                used[y] = false;
                if r != Some(false) {
                    return r;
                }
            }
        }
        Some(false)
    }
    go(0, &mut vec![0; n], &mut vec![false; n], a, b, &ca, &cb, &mut 20000)
}
/// Simplified page rank; None if rounding could decide when it stops.
fn rank_scores(l: &Links) -> Option<(Vec<f64>, usize)> {
    let n = l.len();
    let start = 1.0 / n as f64;
    let eps = (start / n as f64).max(1e-5);
    let mut s = vec![start; n];
    for round in 1..=(2 * n).max(1000) {
        let mut next = vec![0.0; n];
        for (x, v) in l.iter().enumerate() {
            for &y in v {
                next[y] += s[x] / v.len() as f64;
            }
        }
        let change = s.iter().zip(&next).map(|(a, b): (&f64, &f64)| (a - b).abs()).fold(0.0, f64::max);
        s = next;
        if (change - eps).abs() < 1e-9 {
            return None;
        }
        if change < eps {
            return Some((s, round));
        }
    }
    Some((s, 0))
}
fn fbas_rank(net: &Net) -> Vec<f64> {
    rank_within(net, &(0..net.n()).collect::<Vec<_>>())
}
fn rank_within(net: &Net, part: &[usize]) -> Vec<f64> {
    let n = net.n();
    let mut s = vec![1.0 / part.len() as f64; n];
    for _ in 0..100 {
        let mut next = vec![0.0; n];
        for &x in part {
            let members = net.qs[x].nodes();
            for &y in &members {
                next[y] += s[x] / members.len() as f64;
            }
        }
        s = next;
    }
    s
}
fn main() {
    let mut c = Check::start("C25", "exploration",
        "random directed and undirected graphs, generated scale-free, small-world, tiered and mesh graphs: shuffles checked by isomorphism search, degrees and connectivity by definition, rank scores against an independent rank iteration; non-trivial = at least one link; distinct by link table");
    let some_graph = |case: &mut Case| -> Links {
        let n = match case.rng.below(8) {
            0 => case.rng.size(20, 120, 40),
            1..=3 => case.rng.range(8, 20),
            _ => case.rng.range(1, 8),
        };
        let undirected = case.rng.chance(1, 3);
        random_links(&mut case.rng, n, undirected)
    };
    c.cases("shuffled", 30000, 600000, |case| {
        let l = match case.rng.below(8) {
            0 => {
                let n = case.rng.range(2, 30);
                let m0 = case.rng.range(1, n);
                outlinks_of(&Graph::new_random_scale_free(n, m0, case.rng.range(1, m0)))
            }
            1 => {
                let n = case.rng.range(3, 30);
                outlinks_of(&Graph::new_random_small_world(n, 2 * case.rng.below((n - 1) / 2 + 1), 0.3))
            }
            2 => outlinks_of(&Graph::new_tiered_full_mesh(&[case.rng.range(1, 5), case.rng.range(1, 5), case.rng.range(1, 5)])),
            _ => some_graph(case),
        };
        case.input(format!("{:?}", l));
        let g = Graph::new(l.clone());
        let s = g.clone().shuffled();
        ensure!(s.number_of_nodes() == l.len(), "{} nodes become {}", l.len(), s.number_of_nodes());
        let m = outlinks_of(&s);
        ensure!(sorted_links(&outlinks_of(&g)) == sorted_links(&l), "the original graph is {:?}", outlinks_of(&g));
        match isomorphic(&l, &m) {
            Some(true) => case.count("isomorphisms found"),
            Some(false) => return Err(format!("shuffled into {:?}, which is a different graph", m).into()),
            None => case.count("skipped: isomorphism search too long"),
        }
        if l.iter().any(|v| !v.is_empty()) {
            case.nontrivial(sorted_links(&l));
        }
        if m != sorted_links(&l) {
            case.count("shuffles that change the numbering");
        }
        Ok(())
    });
    // every one of the 24 numberings of a directed path, about equally often
    let tally: std::sync::Mutex<BTreeMap<Links, u64>> = Default::default();
    let path: Links = vec![vec![1], vec![2], vec![3], vec![]];
    let total = c.scaled(400, 4000);
    c.cases("every numbering", total, total, |case| {
        case.input(format!("{:?}", path));
        let mut mine: BTreeMap<Links, u64> = BTreeMap::new();
        for _ in 0..100 {
            *mine.entry(outlinks_of(&Graph::new(path.clone()).shuffled())).or_default() += 1;
        }
        let mut t = tally.lock().unwrap();
        for (k, v) in mine {
            *t.entry(k).or_default() += v;
        }
        Ok(())
    });
    c.cases_on("numberings tally", 1, 1, 1, |case| {
        let t = tally.lock().unwrap();
        let sum: u64 = t.values().sum();
        if sum == 0 {
            return Ok(()); // replaying something else
        }
        case.input(format!("{:?}", t));
        let mean = sum as f64 / 24.0;
        ensure!(t.len() == 24, "only {} of 24 numberings in {} shuffles", t.len(), sum);
        for (k, &v) in t.iter() {
            ensure!((v as f64 - mean).abs() < 12.0 * mean.sqrt(), "numbering {:?} appears {} times in {} shuffles", k, v, sum);
        }
        case.add("numberings reached", 24);
        Ok(())
    });
    // sizes at which the rank iteration's tolerance and number of rounds stop depending on the size alike
    let crowd = |case: &mut Case| -> Links {
        let n = case.rng.range(300, 900);
        if case.rng.chance(1, 2) {
            let undirected = case.rng.chance(1, 2);
            return random_links(&mut case.rng, n, undirected);
        }
        // every node links to one other: scores go round in circles for ever
        let short = case.rng.range(2, 9);
        (0..n).map(|x| vec![if x < short { (x + 1) % short } else { case.rng.below(x) }]).collect()
    };
    c.cases("structure and ranks", 60000, 1200000, |case| {
        let mut l = if case.rng.chance(1, 600) { crowd(case) } else { some_graph(case) };
        let n = l.len();
        if n > 500 {
            case.count("more than 500 nodes");
        }
        if case.rng.chance(1, 6) {
            let x = case.rng.below(n);
            l[x].push(x);
            case.count("graphs with a node linking to itself");
        }
        case.input(format!("{:?}", l));
        let g = Graph::new(l.clone());
        ensure!(g.number_of_nodes() == n, "{} nodes", g.number_of_nodes());
        if n > 256 {
            case.count("more than 256 nodes");
        }
        let t = in_links(&l);
        let sizes = |l: &Links| -> Vec<usize> { l.iter().map(|v| v.len()).collect() };
        ensure!(g.get_out_degrees() == sizes(&l), "out degrees {:?}", g.get_out_degrees());
        ensure!(g.get_in_degrees() == sizes(&t), "in degrees {:?}", g.get_in_degrees());
        let connected: Set = (0..n).filter(|&x| !l[x].is_empty() || !t[x].is_empty()).collect();
        ensure!(to_set(&g.get_connected_nodes()) == connected, "connected nodes {:?}", g.get_connected_nodes());
        let undirected = (0..n).all(|x| l[x].iter().all(|&y| l[y].contains(&x)));
        ensure!(g.is_undirected() == undirected, "undirected: {}", g.is_undirected());
        case.count(if undirected { "undirected graphs" } else { "directed graphs" });
        let scores = g.get_rank_scores();
        ensure!(scores.len() == n, "{} scores", scores.len());
        ensure!(scores.iter().all(|s| s.is_finite() && *s >= 0.0), "scores {:?}", scores);
        ensure!(scores.iter().sum::<f64>() <= 1.0 + 1e-9, "scores {:?} add up to more than 1", scores);
        if l.iter().all(|v| !v.is_empty()) {
            ensure!((scores.iter().sum::<f64>() - 1.0).abs() < 1e-6, "scores {:?} do not add up to 1", scores);
            case.count("rank conserved");
        }
        for x in 0..n {
            if t[x].is_empty() {
                ensure!(scores[x] == 0.0, "node {} has score {} although nothing links to it", x, scores[x]);
            }
        }
        match rank_scores(&l) {
            None => case.count("skipped: convergence on the border"),
            Some((want, rounds)) => {
                let ok = scores.iter().zip(&want).all(|(a, b)| (a - b).abs() < 1e-9);
                ensure!(ok, "rank scores {:?} instead of {:?}", scores, want);
                case.count(if rounds == 0 { "rank without convergence" } else if rounds > 10 { "rank converged late" } else { "rank converged" });
            }
        }
        if l.iter().any(|v| !v.is_empty()) {
            case.nontrivial(&l);
        }
        Ok(())
    });
    c.cases("quorum set ranks", 10000, 200000, |case| {
        let net = fmodel::gen::any(&mut case.rng, &fmodel::gen::Opts { max_n: 10, ..Default::default() });
        case.input(net.show());
        if net.n() == 0 {
            return Ok(());
        }
        let fbas = build_any(&net, case);
        let (got, want) = (fbas.rank_nodes(), fbas_rank(&net));
        ensure!(got.len() == net.n(), "{} scores", got.len());
        ensure!(got.iter().zip(&want).all(|(a, b)| (a - b).abs() < 1e-9), "FBAS rank scores {:?} instead of {:?}", got, want);
        if net.qs.iter().any(|q| !q.nodes().is_empty()) {
            case.nontrivial(&net.qs);
        }
        // ranks within a part of the FBAS: links from nodes outside are ignored
        let part = case.rng.range(1, net.n());
        let all: Vec<usize> = (0..net.n()).collect();
        let part = case.rng.sample(&all, part);
        let got = preprocessing::rank_nodes(&part, &fbas);
        let want = rank_within(&net, &part);
        ensure!(part.iter().all(|&x| (got[x] - want[x]).abs() < 1e-9), "FBAS rank scores {:?} within {:?} instead of {:?}", got, part, want);
        let sorted = preprocessing::sort_by_rank(part.clone(), &fbas);
        let (mut a, mut b) = (sorted.clone(), part.clone());
        a.sort();
        b.sort();
        ensure!(a == b, "sorting {:?} by rank gives {:?}", part, sorted);
        ensure!(sorted.windows(2).all(|w| want[w[0]] >= want[w[1]] - 1e-9), "sorted by rank: {:?} with scores {:?}", sorted, want);
        case.count("FBAS ranks");
        Ok(())
    });
    c.require("isomorphisms found", 15000);
    c.require("shuffles that change the numbering", 10000);
    c.require("numberings reached", 24);
    c.require("directed graphs", 10000);
    c.require("undirected graphs", 5000);
    c.require("graphs with a node linking to itself", 3000);
    c.require("rank converged", 5000);
    c.require("rank converged late", 5000);
    c.require("rank without convergence", 500);
    c.require("rank conserved", 5000);
    c.require("FBAS ranks", 5000);
    c.require("more than 256 nodes", 20);
    c.require("more than 500 nodes", 15);
    c.finish();
}
