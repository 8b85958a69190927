use std::collections::BTreeMap;
use vharness::simulation::Graph;
use vharness::*;

type Links = Vec<Vec<usize>>;
fn links(g: &Graph) -> Result<Links, Violation> {
    let l = outlinks_of(g);
    let out = g.get_out_degrees();
    for (x, v) in l.iter().enumerate() {
        ensure!(v.len() == out[x], "node {} links to itself", x);
    }
    Ok(l)
}
fn without_tail(l: &Links) -> Links {
    // nodes at the end that no line mentions are not part of the format
    let used = (0..l.len())
        .rev()
        .find(|&x| !l[x].is_empty() || l.iter().any(|v| v.contains(&x)))
        .map_or(0, |x| x + 1);
    sorted_links(&l[..used])
}
fn transposed(l: &Links) -> Links {
    let mut t = vec![vec![]; l.len()];
    for (x, v) in l.iter().enumerate() {
        for &y in v {
            t[y].push(x);
        }
    }
    t
}
fn back_is(what: &str, got: &Links, want: &Links) -> Verdict {
    if got == want {
        return Ok(());
    }
    let t = without_tail(&transposed(want));
    // one specific known way to go wrong: every one-way edge comes back reversed
    if *got == t {
        return Err(Violation {
            sig: "one-way edges come back reversed".into(),
            detail: format!("{}: {:?} comes back as {:?}", what, want, got),
        });
    }
    Err(Violation::from(format!("{}: {:?} comes back as {:?}", what, want, got)))
}
fn main() {
    let mut c = Check::start("C24", "exploration",
        "random AS relationship documents (peerings, one-way links, repeated lines, comments, blank lines, gaps in numbering) read and judged line by line, and random graphs written and read back as text, plain files and bzip2 files; non-trivial = at least one edge; distinct by document");
    let scratch = Scratch::new("c24");
    let put = |name: &str, bytes: &[u8]| {
        let p = scratch.path(name);
        std::fs::write(&p, bytes).unwrap();
        p
    };
    c.cases("read", 60000, 1200000, |case| {
        // long documents, and numbers of real autonomous systems
        let long = case.rng.chance(1, 300);
        let n = match case.rng.below(600) { 0 => 70_000, 1 => 400_000, _ => case.rng.size(1, 30, 300) };
        let mut want: BTreeMap<usize, Set> = BTreeMap::new();
        let mut size = 0;
        let mut text = String::new();
        for _ in 0..if long { case.rng.range(500, 3000) } else { case.rng.below(25) } {
            if case.rng.chance(1, 6) {
                text.push_str(*case.rng.pick(&["\n", "# 1|2|0\n", "#\n", "# comment | with | bars\n"]));
                continue;
            }
            let (a, b) = (case.rng.below(n), case.rng.below(n));
            if a == b {
                continue;
            }
            let peer = case.rng.chance(1, 2);
            text.push_str(&format!("{}|{}|{}", a, b, if peer { 0 } else { -1 }));
            if case.rng.chance(1, 4) {
                text.push_str("|bgp");
            }
            text.push('\n');
            size = size.max(a + 1).max(b + 1);
            // provider a, customer b: b links to a; peers link to each other
            want.entry(b).or_default().insert(a);
            if peer {
                want.entry(a).or_default().insert(b);
            }
            case.count("edges read");
        }
        if long {
            case.count("long documents");
        }
        if size > 65536 {
            case.count("numbers beyond two bytes");
        }
        if case.rng.chance(1, 4) {
            text = text.trim_end().to_string();
        }
        case.input(text.clone());
        let want: Links = (0..size).map(|x| want.get(&x).map_or(vec![], |s| s.iter().copied().collect())).collect();
        let g = Graph::from_as_rel_string(&text);
        ensure!(g.number_of_nodes() == size, "{} nodes instead of {}", g.number_of_nodes(), size);
        ensure!(links(&g)? == want, "read as {:?} instead of {:?}", links(&g)?, want);
        if size > 0 {
            case.nontrivial(&text);
        }
        if long || case.index % 50 == 0 {
            // what is in a file counts, not how it is called
            let ext = *case.rng.pick(&["", ".txt", ".bz2", ".as-rel", ".txt.bz2", ".BZ2"]);
            let p = put(&format!("r{}{}", case.index, ext), text.as_bytes());
            let f = Graph::from_as_rel_file(&p);
            std::fs::remove_file(&p).unwrap();
            ensure!(f == g, "the file is read differently");
            ensure!(fmodel::guarded(|| Graph::from_as_rel_file(&p)).is_err(), "a missing file is accepted");
            case.count("plain files read");
        }
        Ok(())
    });
    c.cases("refused", 3000, 30000, |case| {
        let good = "1|2|0\n3|1|-1\n";
        let bad = *case.rng.pick(&["1|2|1", "1|2", "1", "a|2|0", "1|b|0", "1|2|x", "-1|2|0", "1 2 0", "1||0", "1|2|", "1,2,0", "1|2|-2", "1.5|2|0", "1|2|0 # comment", "1|2|0#", " 1|2|0", "1|2|0 ", "1 |2|0", "1| 2|0", "1|2| -1", " # comment", "x# 1|2|0", "0x1|2|0", "1_0|2|0", "1|2|0.0", "1|-2|0", "1|2|00000000000x"]);
        let text = match case.rng.below(3) {
            0 => format!("{}{}\n", good, bad),
            1 => format!("{}\n{}", bad, good),
            _ => format!("1|2|0\n{}\n3|1|-1", bad),
        };
        case.input(text.clone());
        ensure!(fmodel::guarded(|| Graph::from_as_rel_string(&text)).is_err(), "{:?} is accepted", bad);
        case.count("malformed documents refused");
        case.nontrivial(&text);
        Ok(())
    });
    c.cases("round trip", 60000, 1200000, |case| {
        let n = case.rng.size(1, 16, 600);
        let undirected = case.rng.chance(2, 3);
        let l = random_links(&mut case.rng, n, undirected);
        case.input(format!("{:?}", l));
        let g = Graph::new(l.clone());
        let want = without_tail(&l);
        if !want.is_empty() {
            case.nontrivial(&want);
        }
        let comment = *case.rng.pick(&[None, Some(""), Some("a comment"), Some("1|2|0"), Some("# number sign"), Some("#"), Some("  spaces  "), Some("\u{4e2d}|\u{56fd}")]);
        let text = Graph::to_as_rel_string(&g, comment).unwrap();
        if let Some(comment) = comment {
            ensure!(text.lines().next() == Some(&format!("# {}", comment)), "the head comment {:?} is written as {:?}", comment, text.lines().next());
        }
        ensure!(text.lines().filter(|l| l.starts_with('#')).count() == comment.is_some() as usize, "comments nobody asked for");
        // independent look at the text: each edge once, undirected ones as peerings
        let mut seen: BTreeMap<(usize, usize), i32> = BTreeMap::new();
        for line in text.lines().filter(|l| !l.starts_with('#')) {
            let p: Vec<&str> = line.split('|').collect();
            let (a, b, k): (usize, usize, i32) = (p[0].parse().unwrap(), p[1].parse().unwrap(), p[2].parse().unwrap());
            ensure!(seen.insert((a.min(b), a.max(b)), k).is_none(), "the edge {}|{} is written twice", a, b);
            let (ab, ba) = (l[a].contains(&b), l[b].contains(&a));
            ensure!(ab || ba, "the edge {}|{} does not exist", a, b);
            ensure!((k == 0) == (ab && ba), "the edge {}|{} is written as {}", a, b, k);
        }
        let edges = (0..n).map(|a| (a + 1..n).filter(|&b| l[a].contains(&b) || l[b].contains(&a)).count()).sum::<usize>();
        ensure!(seen.len() == edges, "{} edges written, {} exist", seen.len(), edges);
        case.add("edges written", edges as u64);
        let r = back_is("text", &links(&Graph::from_as_rel_string(&text))?, &want);
        if undirected {
            r.clone()?;
            case.count("undirected graphs read back");
        }
        if n > 64 || case.index % 40 == 0 {
            let ext = *case.rng.pick(&["", ".txt", ".bz2", ".as-rel", ".txt.bz2", ".BZ2"]);
            let p = scratch.path(&format!("w{}{}", case.index, ext));
            Graph::to_as_rel_file(&g, &p, comment).unwrap();
            let raw = std::fs::read(&p).unwrap();
            let f = Graph::from_as_rel_file(&p);
            ensure!(f == Graph::from_as_rel_string(&text), "the written file is read differently");
            ensure!(raw.starts_with(b"BZh"), "the written file is not compressed");
            // several compressed streams in one file are one document
            let (head, tail) = text.split_at(text.find('\n').map_or(0, |i| i + 1));
            if !tail.is_empty() && tail.lines().all(|l| !l.starts_with('#')) {
                let half = Graph::from_as_rel_string(tail);
                let q = scratch.path(&format!("s{}", case.index));
                let top = Graph::from_as_rel_string(head);
                Graph::to_as_rel_file(&top, &q, None).unwrap();
                let mut both = std::fs::read(&q).unwrap();
                let one = Graph::to_as_rel_string(&top, None).unwrap();
                Graph::to_as_rel_file(&half, &q, None).unwrap();
                both.extend(std::fs::read(&q).unwrap());
                let two = Graph::to_as_rel_string(&half, None).unwrap();
                std::fs::write(&q, &both).unwrap();
                let got = Graph::from_as_rel_file(&q);
                ensure!(got == Graph::from_as_rel_string(&format!("{}{}", one, two)), "two compressed streams in one file are read as {:?}", links(&got)?);
                std::fs::remove_file(&q).unwrap();
                case.count("files of several streams");
            }
            // a damaged file is refused rather than read in part
            let mut bad = raw.clone();
            if case.rng.chance(1, 2) {
                bad.truncate(case.rng.range(1, raw.len() - 1));
            } else {
                let at = case.rng.range(4, raw.len() - 5);
                bad[at] ^= 1 << case.rng.below(8);
            }
            std::fs::write(&p, &bad).unwrap();
            if let Ok(g) = fmodel::guarded(|| Graph::from_as_rel_file(&p)) {
                ensure!(g == f, "a damaged compressed file ({} of {} bytes: {:?}) is read as another graph: {:?}", bad.len(), raw.len(), bad, links(&g)?);
                case.count("harmless damage");
            }
            case.count("damaged compressed files");
            std::fs::remove_file(&p).unwrap();
            case.count("compressed files");
        }
        if !undirected {
            case.count("directed graphs read back");
            r?;
        }
        Ok(())
    });
    c.cases("generated", 300, 3000, |case| {
        let n = case.rng.range(2, 60);
        let g = if case.rng.chance(1, 2) {
            let m0 = case.rng.range(1, n);
            Graph::new_random_scale_free(n, m0, case.rng.range(1, m0))
        } else {
            Graph::new_random_small_world(n, 2 * case.rng.below((n - 1) / 2 + 1), 0.3)
        };
        let l = links(&g)?;
        case.input(format!("{:?}", l));
        let back = links(&Graph::from_as_rel_string(&Graph::to_as_rel_string(&g, None).unwrap()))?;
        back_is("text", &back, &without_tail(&l))?;
        case.nontrivial(&l);
        case.count("undirected graphs read back");
        Ok(())
    });
    c.require("edges read", 100000);
    c.require("malformed documents refused", 1000);
    c.require("edges written", 100000);
    c.require("undirected graphs read back", 10000);
    c.require("directed graphs read back", 5000);
    c.require("compressed files", 200);
    c.require("damaged compressed files", 200);
    c.require("files of several streams", 100);
    c.require("plain files read", 200);
    c.require("long documents", 50);
    c.require("numbers beyond two bytes", 50);
    c.finish();
}
