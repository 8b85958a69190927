// needs: repo-binaries
// needs: faults
use vharness::simulation::Graph;
use vharness::*;

/// A run of a tool that is bound to succeed as long as nothing goes wrong around it.
struct Job {
    tool: &'static str,
    args: Vec<String>,
    stdin: Option<Vec<u8>>,
    /// Where the results go (standard output otherwise).
    to: Option<std::path::PathBuf>,
    /// What the results file contains before.
    before: Option<String>,
    /// Not to be seen with random choices: the same again.
    repeatable: bool,
}
impl Job {
    fn begin(&self) {
        if let Some(p) = &self.to {
            let _ = std::fs::remove_file(p);
            if let Some(b) = &self.before {
                std::fs::write(p, b).unwrap();
            }
        }
    }
    /// The results, without what differs from run to run.
    fn results(&self, out: &str) -> Result<String, Violation> {
        let text = match &self.to {
            None => out.to_string(),
            Some(p) => {
                if self.tool == "graph_generator" {
                    return match fmodel::guarded(|| Graph::from_as_rel_file(p)) {
                        Ok(g) => Ok(format!("{:?}", outlinks_of(&g))),
                        Err(e) => Err(format!("the written graph cannot be read: {}", e).into()),
                    };
                }
                std::fs::read_to_string(p).unwrap_or_default()
            }
        };
        Ok(match self.tool {
            "bulk_fbas_analyzer" => format!("{:?}", csv(&text)?.iter().map(timeless).collect::<Vec<_>>()),
            "bulk_performance_experiment" => {
                // (the runs of one size come in any order)
                let mut rows: Vec<Row> = csv(&text)?.iter().map(timeless).collect();
                rows.sort();
                format!("{:?}", rows)
            }
            "fbas_analyzer" => {
                let (mut t, mut clusters, mut inside) = (String::new(), vec![], false);
                for l in text.lines() {
                    if l.starts_with(|c: char| c.is_ascii_lowercase()) {
                        inside = l.starts_with("symmetric_clusters:");
                    }
                    if inside {
                        // (they come in any order)
                        clusters.extend(l.chars());
                    } else if !l.contains("_duration") && !l.starts_with("nonintersecting_quorums") {
                        t.push_str(l);
                        t.push('\n');
                    }
                }
                clusters.sort();
                format!("{}{}", t, clusters.iter().collect::<String>())
            }
            _ => text,
        })
    }
}
fn job(case: &mut Case, dir: &std::path::Path) -> Option<Job> {
    let path = |name: &str| dir.join(name).to_str().unwrap().to_string();
    let kind = case.rng.below(6);
    case.count(match kind {
        0 | 1 => "runs of the analysis",
        2 => "runs of the bulk analysis",
        3 => "runs of the performance experiment",
        4 => "runs of the simulator",
        _ => "runs of the graph generator",
    });
    Some(match kind {
        0 | 1 => {
            let (net, _) = small_net(case)?;
            let docs = grouped_docs(&mut case.rng, &net);
            let mut text = docs.nodes.to_string();
            if case.rng.chance(1, 2) {
                text = fmodel::serde_json::to_string_pretty(&docs.nodes).unwrap();
            }
            std::fs::write(path("nodes.json"), &text).unwrap();
            std::fs::write(path("orgs.json"), docs.orgs_doc.to_string()).unwrap();
            let mut a = args(&["--results-only"]);
            let stdin = case.rng.chance(1, 2);
            if !stdin {
                a.insert(0, path("nodes.json"));
                match case.rng.below(4) {
                    0 => a.push("--merge-by-isp".into()),
                    1 => a.push("--merge-by-country".into()),
                    _ => {}
                }
            }
            if case.rng.chance(1, 3) && !a.iter().any(|x| x.starts_with("--merge")) {
                a.extend(["--merge-by-org".to_string(), path("orgs.json")]);
            }
            for f in ["-a", "-d", "-p", "--alternative-quorum-intersection-check"] {
                if case.rng.chance(1, 2) {
                    a.push(f.into());
                }
            }
            case.more_input(&format!(" {:?} {}", a, docs.orgs_doc));
            Job { tool: "fbas_analyzer", args: a, stdin: if stdin { Some(text.into_bytes()) } else { None }, to: None, before: None, repeatable: true }
        }
        2 => {
            let k = case.rng.range(1, 3);
            let sub = dir.join("in");
            std::fs::create_dir_all(&sub).unwrap();
            let (_, mut a) = bulk_inputs(case, k, &sub, "stellarbeat")?;
            let to = if case.rng.chance(1, 2) { Some(dir.join("r.csv")) } else { None };
            if let Some(p) = &to {
                a.extend(args(&["-o", p.to_str().unwrap()]));
            }
            // (several threads end at different reads)
            a.extend(args(&["-j", "1"]));
            Job { tool: "bulk_fbas_analyzer", args: a, stdin: None, to, before: None, repeatable: true }
        }
        3 => {
            let mut a = args(&["-m", &case.rng.range(3, 6).to_string(), "-r", &case.rng.range(1, 2).to_string()]);
            if case.rng.chance(1, 2) {
                a.push("--stellar-like".into());
            }
            let to = if case.rng.chance(2, 3) { Some(dir.join("r.csv")) } else { None };
            let mut before = None;
            if let Some(p) = &to {
                a.extend(args(&["-o", p.to_str().unwrap()]));
                if case.rng.chance(1, 2) {
                    let mut b = args(&["-m", "4", "-r", "1", "-o", p.to_str().unwrap()]);
                    if a.contains(&"--stellar-like".to_string()) {
                        b.push("--stellar-like".into());
                    }
                    let r = run_tool("bulk_performance_experiment", &b, None, dir);
                    assert!(r.ok(), "{}", r.show());
                    before = Some(std::fs::read_to_string(p).unwrap());
                    a.push("-u".into());
                }
            }
            case.more_input(&format!(" {:?}", a));
            Job { tool: "bulk_performance_experiment", args: a, stdin: None, to, before, repeatable: true }
        }
        4 => {
            let n = case.rng.range(2, 30);
            let undirected = case.rng.chance(1, 2);
            let links = random_links(&mut case.rng, n, undirected);
            let g = Graph::new(links);
            let text = Graph::to_as_rel_string(&g, Some("head")).unwrap();
            let mut a = args(&[*case.rng.pick(&["AllNeighbors", "HigherTierNeighbors", "SymmetryEnforcingHigherTierNeighbors", "GlobalRank"])]);
            let mut stdin = None;
            match case.rng.below(3) {
                0 => {
                    stdin = Some(text.clone().into_bytes());
                    a.push("-".into());
                }
                1 => {
                    std::fs::write(path("graph.txt"), &text).unwrap();
                    a.push(path("graph.txt"));
                }
                _ => {
                    Graph::to_as_rel_file(&g, &dir.join("graph.bz2"), None).unwrap();
                    a.push(path("graph.bz2"));
                }
            }
            case.more_input(&format!(" {:?} {}", a, text));
            Job { tool: "qsc_simulator", args: a, stdin, to: None, before: None, repeatable: true }
        }
        _ => {
            let n = case.rng.range(4, 40);
            // (no choice is left to chance in these)
            let fixed = case.rng.chance(1, 2);
            let mut a = if fixed {
                args(&["--dont-shuffle", "WattsStrogatz", &n.to_string(), "2", "0"])
            } else {
                args(&["BarabasiAlbert", &n.to_string(), "3", "2"])
            };
            let to = if case.rng.chance(1, 2) { Some(dir.join("g.bz2")) } else { None };
            if let Some(p) = &to {
                a.splice(0..0, args(&["-o", p.to_str().unwrap()]));
            }
            case.more_input(&format!(" {:?}", a));
            Job { tool: "graph_generator", args: a, stdin: None, to, before: None, repeatable: fixed }
        }
    })
}
fn main() {
    let mut c = Check::start("C33", "fault_enumeration",
        "runs of all five tools on generated inputs (files and standard input) repeated under short and interrupted reads, under a read error at each read in turn, with short and interrupted writes and no space left at each file operation in turn, with a full device as standard output, and with every verbosity; a run that reports success must have given the same results as without faults; non-trivial = at least one fault hit a read or a write; distinct by (tool, arguments, input)");
    c.cases("runs", 700, 9000, |case| {
        let scratch = Scratch::new(&format!("c33-{}", case.index));
        let log = scratch.path("log");
        // only what happens in here is watched
        let dir = scratch.path("watched");
        std::fs::create_dir(&dir).unwrap();
        let Some(j) = job(case, &dir) else { return Ok(()) };
        let input = j.stdin.as_deref();
        let run = |fault: &Fault| {
            j.begin();
            run_tool_faulty(j.tool, &j.args, input, &dir, &log, fault)
        };
        j.begin();
        let plain = run_tool(j.tool, &j.args, input, &dir);
        ensure!(plain.ok(), "{} fails: {}", j.tool, plain.show());
        let want = j.results(&plain.out)?;
        let same = |what: &str, r: &Run| -> Verdict {
            ensure!(r.ok(), "{}: {} fails: {}", what, j.tool, r.show());
            let got = j.results(&r.out).map_err(|e| Violation::from(format!("{}: {}", what, e.detail)))?;
            ensure!(!j.repeatable || got == want, "{}: {} gives {:?} instead of {:?}", what, j.tool, got, want);
            Ok(())
        };
        let (r, events, reads, trace) = run(&Fault::None);
        same("again", &r)?;
        ensure!(events > 0, "no operation seen: the injector does not work");
        // how much is said on the side does not matter
        for (flags, level) in [("-v", ""), ("-vv", ""), ("-vvv", ""), ("", "trace"), ("-vvvv", "trace")] {
            let mut a = j.args.clone();
            if !flags.is_empty() {
                a.insert(0, flags.into());
            }
            j.begin();
            let env = if level.is_empty() { vec![] } else { vec![("RUST_LOG", level.to_string()), ("RUST_BACKTRACE", "full".to_string())] };
            let r = run_tool_with(j.tool, &a, input, &dir, &env);
            same(&format!("with {:?} {:?}", flags, level), &r)?;
            case.count("verbose runs");
        }
        // nobody takes the results
        if j.to.is_none() {
            j.begin();
            let r = run_tool_with(j.tool, &j.args, input, &dir, &[("STDOUT", "/dev/full".to_string())]);
            ensure!(!r.ok(), "{} succeeds although its results cannot be written: {}", j.tool, r.show());
            case.count("runs into a full device");
        }
        let mut hit = 0;
        if reads > 0 {
            let (r, _, n, _) = run(&Fault::Dribble);
            ensure!(n > reads || n > 3, "{}: {} reads, but {} in small pieces", j.tool, reads, n);
            same("with short and interrupted reads", &r)?;
            case.count("runs with short reads");
            for k in 1..=reads {
                if reads > 24 && !case.rng.chance(24, reads as usize) {
                    continue;
                }
                let (r, _, _, _) = run(&Fault::ReadError(k));
                ensure!(!r.ok(), "{} succeeds although read {} of {} and all later ones fail: {}", j.tool, k, reads, r.show());
                ensure!(!r.out.contains("top_tier") || !j.to.is_none() || j.tool.starts_with("bulk"), "{} prints results although read {} of {} fails: {}", j.tool, k, reads, r.show());
                case.count("runs with a read error");
                // where reading is tried again, all is well
                let (r, _, _, _) = run(&Fault::OneReadError(k));
                if r.ok() {
                    same(&format!("with an error at read {} of {}", k, reads), &r)?;
                    case.count("read errors overcome");
                } else {
                    case.count("runs with one read error");
                }
                hit += 1;
            }
        }
        for k in 1..=events {
            if events > 24 && !case.rng.chance(24, events as usize) {
                continue;
            }
            for kind in ["short", "again", "space"] {
                let (r, seen, _, _) = run(&Fault::At(kind, k));
                if seen < k {
                    continue; // (a shorter run this time)
                }
                let what = format!("{} at operation {} of [{}]", kind, k, trace.replace('\n', ", "));
                if kind == "space" {
                    let is_write = trace.lines().nth(k as usize - 1) == Some("write");
                    if r.ok() {
                        same(&what, &r)?;
                        ensure!(!is_write || !j.repeatable || j.to.is_some(), "{}: {} succeeds although its results cannot be written", what, j.tool);
                    } else {
                        case.count("runs without space");
                    }
                } else {
                    same(&what, &r)?;
                    case.count("runs with a short or interrupted write");
                }
                hit += 1;
            }
        }
        if hit > 0 {
            case.nontrivial((j.tool, &j.args.iter().filter(|a| !a.starts_with('/')).collect::<Vec<_>>(), &want, &j.stdin));
        }
        Ok(())
    });
    for (what, n) in [
        ("runs of the analysis", 100), ("runs of the bulk analysis", 60), ("runs of the performance experiment", 60), ("runs of the simulator", 60), ("runs of the graph generator", 60),
        ("verbose runs", 1500), ("runs into a full device", 150), ("runs with short reads", 200), ("runs with a read error", 500), ("runs without space", 400),
        ("runs with a short or interrupted write", 1000),
    ] {
        c.require(what, n);
    }
    c.finish();
}
