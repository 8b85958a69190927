// needs: sanitizers
//! The monitors here are the compilers' sanitizers (and Miri): they watch every memory access of runs of
//! `sandriver` and of the tools; this program makes the inputs and reads what they report.
use vharness::*;

fn built(san: &str, tool: &str) -> String {
    format!("{}/{}/x86_64-unknown-linux-gnu/plain/{}", std::env::var("VERIF_SAN").expect("VERIF_SAN"), san, tool)
}
fn run(san: &str, tool: &str, a: &[String], stdin: Option<&[u8]>, dir: &std::path::Path) -> Run {
    let env = [
        ("TSAN_OPTIONS", "exitcode=66 halt_on_error=0 report_thread_leaks=0".to_string()),
        ("MSAN_OPTIONS", "exitcode=68".to_string()),
        ("ASAN_OPTIONS", "exitcode=67 detect_leaks=0 detect_stack_use_after_return=1".to_string()),
    ];
    run_tool_with(&built(san, tool), a, stdin, dir, &env)
}
/// Reports of a sanitizer, if there are any.
fn report(r: &Run) -> Option<String> {
    let at = ["WARNING: ThreadSanitizer", "ERROR: AddressSanitizer", "WARNING: MemorySanitizer", "error: Undefined Behavior", "unsafe precondition"].iter().filter_map(|w| r.err.find(w)).min()?;
    Some(r.err[at..].chars().take(1500).collect())
}
fn silent(r: &Run, what: &str) -> Verdict {
    if let Some(text) = report(r) {
        return Err(format!("{}: {}", what, text).into());
    }
    ensure!(!matches!(r.code, None | Some(66..=68) | Some(132..=139)), "{} died: {}", what, r.show());
    Ok(())
}
fn driver(san: &str, n: u64, case: &mut Case) -> Verdict {
    let dir = Scratch::new("c34d");
    let seed = case.rng.next() >> 12;
    let a = args(&[&seed.to_string(), "0", &n.to_string()]);
    case.input(format!("sandriver {:?} under the {} sanitizer", a, san));
    let r = run(san, "sandriver", &a, None, &dir.0);
    silent(&r, "sandriver")?;
    ensure!(r.ok(), "sandriver: {}", r.show());
    for line in r.out.lines() {
        if let Some((k, what)) = line.split_once('\t') {
            case.add(&format!("{} ({} sanitizer)", what, san), k.parse().unwrap_or(0));
        }
    }
    case.nontrivial((san.to_string(), seed));
    Ok(())
}

fn main() {
    let mut c = Check::start("C34", "exploration",
        "runs of a driver that lets several threads analyse, merge, render and simulate with shared networks, groupings and graphs, and of the tools (bulk tools with one to eight threads), built with ThreadSanitizer, AddressSanitizer and MemorySanitizer (thorough: also interpreted by Miri), which watch every memory access; deliberate errors show that they do; non-trivial = the run did something; distinct by (sanitizer, input)");
    c.cases_on("awake", 5, 5, 1, |case| {
        // deliberate errors have to be reported, or this check says nothing
        let dir = Scratch::new("c34a");
        let (san, what) = [("thread", "race"), ("address", "bounds"), ("address", "freed"), ("thread", "freed"), ("memory", "unset")][case.index as usize % 5];
        case.input(format!("deliberate error: {}", what));
        if report(&run(san, "sandriver", &args(&[what]), None, &dir.0)).is_some() {
            case.count("deliberate errors reported");
        }
        Ok(())
    });
    c.cases_on("bulk analysis", 60, 1000, 4, |case| {
        let dir = Scratch::new("c34b");
        let k = case.rng.range(2, 8);
        let Some((inputs, mut a)) = bulk_inputs(case, k, &dir.0, "stellarbeat") else { return Ok(()) };
        let jobs = *case.rng.pick(&[1, 2, 2, 3, 4, 8]);
        case.rng.shuffle(&mut a);
        a.extend(args(&["-j", &jobs.to_string()]));
        let out = dir.path("out.csv");
        if case.rng.chance(1, 2) {
            a.extend(args(&["-o", out.to_str().unwrap()]));
        }
        case.more_input(&format!(" {:?}", a));
        for san in ["thread", "address", "memory"] {
            let _ = std::fs::remove_file(&out);
            let r = run(san, "bulk_fbas_analyzer", &a, None, &dir.0);
            silent(&r, "bulk_fbas_analyzer")?;
            ensure!(r.ok(), "bulk_fbas_analyzer: {}", r.show());
            case.add(&format!("networks analysed in bulk ({} sanitizer)", san), inputs.len() as u64);
        }
        case.count(if jobs > 1 { "bulk runs on several threads" } else { "bulk runs on one thread" });
        case.nontrivial(&a);
        Ok(())
    });
    c.cases_on("performance experiment", 30, 400, 4, |case| {
        let dir = Scratch::new("c34p");
        let mut a = args(&["-m", &case.rng.range(2, 7).to_string(), "-r", &case.rng.range(1, 4).to_string(), "-j", &case.rng.range(1, 6).to_string()]);
        if case.rng.chance(1, 3) {
            a.push("--stellar-like".into());
        }
        case.input(format!("{:?}", a));
        for san in ["thread", "address", "memory"] {
            let r = run(san, "bulk_performance_experiment", &a, None, &dir.0);
            silent(&r, "bulk_performance_experiment")?;
            ensure!(r.ok(), "bulk_performance_experiment: {}", r.show());
            case.count(&format!("performance experiments ({} sanitizer)", san));
        }
        case.nontrivial(&a);
        Ok(())
    });
    c.cases("tools", 100, 3000, |case| {
        let dir = Scratch::new("c34t");
        let graph = dir.path("g.txt.bz2");
        let kind = ["BarabasiAlbert", "WattsStrogatz"][case.rng.below(2)];
        let n = case.rng.range(4, 40);
        let mut a = args(&["-o", graph.to_str().unwrap(), kind, &n.to_string()]);
        a.extend(args(if kind == "BarabasiAlbert" { &["3", "2"] } else { &["2", "0.3"] }));
        case.input(format!("{:?}", a));
        let r = run("address", "graph_generator", &a, None, &dir.0);
        silent(&r, "graph_generator")?;
        ensure!(r.ok(), "graph_generator: {}", r.show());
        let policy = ["AllNeighbors", "GlobalRank", "HigherTierNeighbors", "SymmetryEnforcingHigherTierNeighbors"][case.rng.below(4)];
        let a = args(&[policy, graph.to_str().unwrap()]);
        case.more_input(&format!("{:?}", a));
        let r = run("address", "qsc_simulator", &a, None, &dir.0);
        silent(&r, "qsc_simulator")?;
        if r.ok() {
            case.count("simulated networks (address sanitizer)");
        }
        let (net, _) = match small_net(case) {
            Some(x) => x,
            None => return Ok(()),
        };
        let docs = grouped_docs(&mut case.rng, &net);
        let orgs = dir.path("orgs.json");
        std::fs::write(&orgs, docs.orgs_doc.to_string()).unwrap();
        let mut a = args(&[*case.rng.pick(&["-a", "-aA", "-s"]), *case.rng.pick(&["-p", "-d"])]);
        if case.rng.chance(1, 2) {
            a.extend(args(&["--merge-by-org", orgs.to_str().unwrap()]));
        }
        let text = if case.rng.chance(1, 4) {
            // damaged input
            let t = docs.nodes.to_string();
            t.chars().take(case.rng.below(t.len() + 1)).collect()
        } else {
            docs.nodes.to_string()
        };
        case.more_input(&format!("{:?}", a));
        for san in ["address", "memory"] {
            let r = run(san, "fbas_analyzer", &a, Some(text.as_bytes()), &dir.0);
            silent(&r, "fbas_analyzer")?;
            if r.ok() {
                case.count(&format!("networks analysed ({} sanitizer)", san));
            }
        }
        case.nontrivial(&net.qs);
        Ok(())
    });
    c.cases("threads", 48, 1500, |case| driver("thread", 25, case));
    c.cases("memory", 48, 1500, |case| driver("address", 50, case));
    c.cases("unset memory", 32, 1000, |case| driver("memory", 25, case));
    if let Ok(miri) = std::env::var("VERIF_MIRI") {
        c.cases("interpreter", 0, 60, |case| {
            let dir = Scratch::new("c34m");
            let seed = case.rng.next() >> 12;
            case.input(format!("sandriver {} 0 2 interpreted by Miri", seed));
            let r = run_tool(&miri, &args(&[&seed.to_string(), "0", "2"]), None, &dir.0);
            silent(&r, "sandriver (interpreted)")?;
            ensure!(r.ok(), "sandriver (interpreted): {}", r.show());
            case.count("interpreted runs");
            Ok(())
        });
    }
    c.require("deliberate errors reported", 5);
    c.require("networks analysed in bulk (memory sanitizer)", 100);
    c.require("analyses of shared networks (memory sanitizer)", 1500);
    c.require("analyses of shared networks (thread sanitizer)", 2000);
    c.require("analyses of shared networks (address sanitizer)", 4000);
    c.require("simulations (thread sanitizer)", 2000);
    c.require("bulk runs on several threads", 20);
    c.require("performance experiments (thread sanitizer)", 20);
    c.require("simulated networks (address sanitizer)", 20);
    c.require("networks analysed (address sanitizer)", 40);
    c.finish();
}
