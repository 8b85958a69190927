// needs: repo-binaries
// needs: faults
use std::process::{Command, Stdio};
use vharness::*;

fn choose(n: usize, k: usize) -> f64 {
    if k > n {
        return 0.0;
    }
    (0..k).fold(1.0, |a, i| a * (n - i) as f64 / (i + 1) as f64)
}
const COLUMNS: [&str; 14] = [
    "top_tier_size", "run", "mq_number", "mbs_number", "mss_number", "mq_mean", "mbs_mean", "mss_mean",
    "analysis_duration_mq", "analysis_duration_mbs", "analysis_duration_mss", "analysis_duration_hqi_after_mq",
    "analysis_duration_hqi_alt_check", "analysis_duration_total",
];
/// How many minimal quorums, blocking sets and splitting sets there are, and how large they are.
fn expected(m: usize, stellar: bool) -> [f64; 6] {
    let (k, each, per) = if stellar { (m / 3, 3.0f64, 2.0) } else { (m, 1.0, 1.0) };
    let t = t67(k);
    let family = |orgs: usize| (choose(k, orgs) * each.powi(orgs as i32), per * orgs as f64);
    let mq = family(t);
    let mbs = family(k - t + 1);
    // two quorums share at least 2t-k organizations, and at least one node of each
    let mut mss = (choose(k, 2 * t - k) * each.powi((2 * t - k) as i32), (2 * t - k) as f64);
    if mq.0 < 2.0 {
        mss = (0.0, 0.0);
    }
    [mq.0, mbs.0, mss.0, mq.1, mbs.1, mss.1]
}
fn num(r: &Row, col: &str) -> Result<f64, Violation> {
    r.get(col).and_then(|x| x.parse().ok()).ok_or_else(|| format!("no number in column {}: {:?}", col, r).into())
}
fn judge_row(r: &Row, stellar: bool) -> Verdict {
    let m = num(r, "top_tier_size")? as usize;
    let want = expected(m, stellar);
    for (col, w) in COLUMNS[2..8].iter().zip(want) {
        let g = num(r, col)?;
        ensure!((g - w).abs() < 1e-9 * (1.0 + w), "m={}{}: {} is {} instead of {}", m, if stellar { " in threes" } else { "" }, col, g, w);
    }
    let mut parts = 0.0;
    for col in &COLUMNS[8..13] {
        let d = num(r, col)?;
        ensure!(d >= 0.0, "m={}: {} is {}", m, col, d);
        parts += d;
    }
    let total = num(r, "analysis_duration_total")?;
    ensure!(total >= parts - 1e-6, "m={}: the parts take {} s, the whole {} s", m, parts, total);
    Ok(())
}
fn key(r: &Row) -> Result<(usize, usize), Violation> {
    Ok((num(r, "top_tier_size")? as usize, num(r, "run")? as usize))
}
fn sorted_keys(rows: &[Row]) -> Result<Vec<(usize, usize)>, Violation> {
    let mut keys = vec![];
    for r in rows {
        keys.push(key(r)?);
    }
    ensure!(keys.windows(2).all(|w| w[0].0 <= w[1].0), "rows out of order: {:?}", keys);
    keys.sort();
    Ok(keys)
}
fn all_runs(m: usize, runs: usize, stellar: bool) -> Vec<(usize, usize)> {
    (1..=m).filter(|x| !stellar || x % 3 == 0).flat_map(|x| (0..runs).map(move |r| (x, r))).collect()
}
fn values(r: &Row) -> Vec<(String, String)> {
    r.iter().map(|(k, v)| (k.clone(), v.parse::<f64>().map_or(v.clone(), |x| format!("{:?}", x)))).collect()
}
fn main() {
    let mut c = Check::start("C30", "fault_enumeration",
        "runs of the performance experiment with random largest size (up to 14, and 21 in threes), number of runs, threads and shape, to standard output or a file, compared with closed forms; then sequences of refused, failing and intact updates of the results file; non-trivial = at least two rows; distinct by (sizes, runs, threads, shape, history)");
    let scratch = Scratch::new("c30");
    c.cases("tables", 500, 5000, |case| {
        let stellar = case.rng.chance(1, 2);
        let m = match case.rng.below(60) {
            0 if stellar => case.rng.range(15, 21),
            0 => case.rng.range(13, 14),
            1..=9 => 12,
            _ => case.rng.range(0, 11),
        };
        if m > 12 {
            case.count("tables beyond size 12");
        }
        let runs = case.rng.range(0, 3);
        let jobs = case.rng.range(1, 5);
        let mut a = args(&["-m", &m.to_string(), "-r", &runs.to_string()]);
        if jobs > 1 || case.rng.chance(1, 2) {
            a.extend(args(&["-j", &jobs.to_string()]));
        }
        if stellar {
            a.push("--stellar-like".into());
        }
        let p = scratch.path(&format!("t{}.csv", case.index));
        let to_file = case.rng.chance(1, 2);
        if to_file {
            a.extend(args(&["-o", p.to_str().unwrap()]));
        }
        case.input(format!("{:?}", a));
        let r = run_tool("bulk_performance_experiment", &a, None, &scratch.0);
        ensure!(r.ok(), "the run fails: {}", r.show());
        let text = if to_file { std::fs::read_to_string(&p).unwrap_or_default() } else { r.out };
        let _ = std::fs::remove_file(&p);
        let want = all_runs(m, runs, stellar);
        if want.is_empty() {
            ensure!(text.is_empty(), "nothing to do, but there are results: {:?}", text);
            return Ok(());
        }
        let rows = csv(&text)?;
        ensure!(text.lines().next() == Some(COLUMNS.join(",").as_str()), "columns {:?}", text.lines().next());
        ensure!(sorted_keys(&rows)? == want, "rows for {:?} instead of {:?}", sorted_keys(&rows)?, want);
        for r in &rows {
            judge_row(r, stellar)?;
            case.count(if stellar { "rows of networks in threes" } else { "rows of flat networks" });
        }
        if jobs > 1 {
            case.count("runs with several threads");
        }
        if rows.len() > 1 {
            case.nontrivial((m, runs, jobs, stellar, to_file));
        }
        Ok(())
    });
    c.cases("histories", 400, 4000, |case| {
        let stellar = case.rng.chance(1, 2);
        let unit = if stellar { 3 } else { 1 };
        let m = unit * case.rng.range(1, if stellar { 3 } else { 7 });
        let runs = case.rng.range(1, 2);
        let dir = Scratch::new(&format!("c30-{}", case.index));
        let to = dir.path("results.csv");
        let base = |m: usize, runs: usize, more: &[&str]| {
            let mut a = args(&["-m", &m.to_string(), "-r", &runs.to_string(), "-o", to.to_str().unwrap()]);
            if stellar {
                a.push("--stellar-like".into());
            }
            a.extend(args(more));
            a
        };
        case.input(format!("m={} runs={} stellar={}", m, runs, stellar));
        let r = run_tool("bulk_performance_experiment", &base(m, runs, &[]), None, &dir.0);
        ensure!(r.ok(), "the first run fails: {}", r.show());
        // rows get values no analysis would produce, some are dropped
        let text = std::fs::read_to_string(&to).unwrap();
        let mut marked = String::new();
        for (i, line) in text.lines().enumerate() {
            if i == 0 {
                marked.push_str(line);
            } else if i > 1 && case.rng.chance(1, 4) {
                continue;
            } else {
                let mut f: Vec<String> = line.split(',').map(String::from).collect();
                if case.rng.chance(2, 3) {
                    f[2 + case.rng.below(3)] = (100000 + case.rng.below(1000)).to_string();
                }
                marked.push_str(&f.join(","));
            }
            marked.push('\n');
        }
        std::fs::write(&to, &marked).unwrap();
        let existing = csv(&marked)?;
        let existing_keys: Vec<(usize, usize)> = existing.iter().map(key).collect::<Result<_, _>>()?;
        case.more_input(&marked);
        let m2 = unit * case.rng.range(1, if stellar { 3 } else { 8 });
        let runs2 = case.rng.range(0, 3);
        let j = case.rng.range(1, 4).to_string();
        let mut scenario = vec![];
        for _ in 0..case.rng.range(1, 2) {
            let s = case.rng.below(3);
            scenario.push(s);
            match s {
                0 => {
                    let r = run_tool("bulk_performance_experiment", &base(m2, runs2, &["-j", &j]), None, &dir.0);
                    ensure!(!r.ok(), "an existing results file is overwritten without being asked to: {}", r.show());
                    ensure!(std::fs::read_to_string(&to).unwrap() == marked, "the run is refused but the results file has changed");
                    case.count("overwriting refused");
                }
                1 => {
                    let mut broken = marked.clone();
                    if case.rng.chance(1, 2) {
                        broken.push_str("garbage\n");
                    } else {
                        broken = broken.replace("mss_number", "mss");
                    }
                    std::fs::write(&to, &broken).unwrap();
                    let r = run_tool("bulk_performance_experiment", &base(m2, runs2, &["-u", "-j", &j]), None, &dir.0);
                    ensure!(!r.ok(), "a damaged results file is accepted: {}", r.show());
                    ensure!(std::fs::read_to_string(&to).unwrap() == broken, "the results file cannot be read, and the failing update changes it");
                    std::fs::write(&to, &marked).unwrap();
                    case.count("updates of a damaged file");
                }
                _ => {
                    // no room for the new table
                    let o = Command::new("bash")
                        .args(["-c", "ulimit -f 1; exec \"$@\"", "x"])
                        .arg(format!("{}/bulk_performance_experiment", std::env::var("VERIF_BINS").unwrap()))
                        .args(base(m + unit * 2, runs + 5, &["-u"]))
                        .current_dir(&dir.0)
                        .stdin(Stdio::null())
                        .output()
                        .unwrap();
                    if !o.status.success() {
                        let now = csv(&std::fs::read_to_string(&to).unwrap()).map_err(|e| Violation::from(format!("update without room: the results file is damaged: {}", e.detail)))?;
                        ensure!(existing.iter().all(|e| now.iter().any(|n| values(n) == values(e))), "update without room: existing results are gone, the file is {:?}", now);
                        case.count("updates without room");
                    }
                    std::fs::write(&to, &marked).unwrap();
                }
            }
        }
        let a = base(m2, runs2, &["-u", "-j", &j]);
        case.more_input(&format!("scenario {:?}, then {:?}", scenario, a));
        let r = run_tool("bulk_performance_experiment", &a, None, &dir.0);
        ensure!(r.ok(), "the update fails: {}", r.show());
        let rows = csv(&std::fs::read_to_string(&to).unwrap())?;
        let mut want = all_runs(m2, runs2, stellar);
        want.extend(&existing_keys);
        want.sort();
        want.dedup();
        ensure!(sorted_keys(&rows)? == want, "rows for {:?} instead of {:?}", sorted_keys(&rows)?, want);
        for r in &rows {
            match existing.iter().zip(&existing_keys).find(|(_, k)| key(r).ok() == Some(**k)) {
                Some((old, _)) => {
                    ensure!(values(r) == values(old), "the existing row {:?} becomes {:?}", old, r);
                    case.count("existing rows kept");
                }
                None => {
                    judge_row(r, stellar)?;
                    case.count("missing rows added");
                }
            }
        }
        case.nontrivial((m, runs, m2, runs2, stellar, scenario, &existing_keys));
        Ok(())
    });
    // every operation on a file during an update, in turn, is the last one or goes wrong
    c.cases("every operation", 120, 1200, |case| {
        let stellar = case.rng.chance(1, 2);
        let unit = if stellar { 3 } else { 1 };
        let m = unit * case.rng.range(1, if stellar { 3 } else { 7 });
        let runs = case.rng.range(1, 3);
        let dir = Scratch::new(&format!("c30-k{}", case.index));
        let log = dir.path("log");
        let sub = dir.path("results");
        std::fs::create_dir(&sub).unwrap();
        let to = sub.join("r.csv");
        let base = |m: usize, runs: usize, more: &[&str]| {
            let mut a = args(&["-m", &m.to_string(), "-r", &runs.to_string(), "-o", to.to_str().unwrap()]);
            if stellar {
                a.push("--stellar-like".into());
            }
            a.extend(args(more));
            a
        };
        let tool = "bulk_performance_experiment";
        let r = run_tool(tool, &base(m, runs, &[]), None, &dir.0);
        ensure!(r.ok(), "the first run fails: {}", r.show());
        let text = std::fs::read_to_string(&to).unwrap();
        let mut lines = vec![];
        for (i, line) in text.lines().enumerate() {
            if i == 0 {
                lines.push(line.to_string());
            } else if i > 1 && case.rng.chance(1, 3) {
                continue;
            } else {
                let mut f: Vec<String> = line.split(',').map(String::from).collect();
                if case.rng.chance(2, 3) {
                    f[2 + case.rng.below(3)] = (100000 + case.rng.below(1000)).to_string();
                }
                lines.push(f.join(","));
                if case.rng.chance(1, 6) {
                    // results of the same size and run may be there twice
                    f[2] = (200000 + case.rng.below(1000)).to_string();
                    lines.push(f.join(","));
                    case.count("several existing results of one run");
                }
            }
        }
        let mut marked = lines.join("\n") + "\n";
        match case.rng.below(6) {
            0 => {
                marked = marked.replace('\n', "\r\n") + &"\r\n".repeat(case.rng.range(0, 2000));
                case.count("files that become shorter");
            }
            1 => {
                marked.pop();
            }
            _ => {}
        }
        let existing = csv(&tidy(&marked))?;
        let m2 = unit * case.rng.range(1, if stellar { 3 } else { 8 });
        let runs2 = case.rng.range(1, 3);
        let a = base(m2, runs2, &["-u", "-j", &case.rng.range(1, 4).to_string()]);
        case.input(format!("{:?} with {:?}", a, marked));
        let old_keys: Vec<(usize, usize)> = existing.iter().map(key).collect::<Result<_, _>>()?;
        let mut want: Vec<(usize, usize)> = all_runs(m2, runs2, stellar).into_iter().filter(|k| !old_keys.contains(k)).collect();
        want.extend(&old_keys);
        want.sort();
        let keeps = |what: &str| -> Verdict {
            let text = std::fs::read_to_string(&to).unwrap_or_default();
            let now = csv(&tidy(&text)).map_err(|e| Violation::from(format!("{}: the results file is damaged: {}", what, e.detail)))?;
            let mut now: Vec<_> = now.iter().map(values).collect();
            for e in &existing {
                let Some(at) = now.iter().position(|n| *n == values(e)) else { return Err(format!("{}: the existing result {:?} is gone, the file is {:?}", what, e, text).into()) };
                now.remove(at);
            }
            Ok(())
        };
        let complete = |what: &str| -> Verdict {
            keeps(what)?;
            let rows = csv(&std::fs::read_to_string(&to).unwrap())?;
            ensure!(sorted_keys(&rows)? == want, "{}: rows for {:?} instead of {:?}", what, sorted_keys(&rows)?, want);
            for r in &rows {
                if !old_keys.contains(&key(r)?) {
                    judge_row(r, stellar)?;
                }
            }
            Ok(())
        };
        let begin = || {
            std::fs::remove_dir_all(&sub).unwrap();
            std::fs::create_dir(&sub).unwrap();
            std::fs::write(&to, &marked).unwrap();
        };
        begin();
        let (r, events, reads, trace) = run_tool_faulty(tool, &a, None, &sub, &log, &Fault::None);
        ensure!(r.ok(), "an update fails: {}", r.show());
        complete("update")?;
        ensure!(events > 0 || want.len() == old_keys.len(), "no file operation seen: the injector does not work");
        for n in 1..=reads {
            for fault in [Fault::ReadError(n), Fault::OneReadError(n)] {
                begin();
                let (r, _, _, _) = run_tool_faulty(tool, &a, None, &sub, &log, &fault);
                let what = format!("{:?} of {} ({})", fault, reads, if r.ok() { "success" } else { "failure" });
                keeps(&what)?;
                if r.ok() {
                    complete(&what)?;
                }
                case.count("updates with a read error");
            }
        }
        for n in 1..=events {
            for kind in ["kill", "space", "short", "again"] {
                begin();
                let (r, _, _, _) = run_tool_faulty(tool, &a, None, &sub, &log, &Fault::At(kind, n));
                let what = format!("{} at operation {} of [{}] ({})", kind, n, trace.replace('\n', ", "), if r.ok() { "success" } else { "failure" });
                keeps(&what)?;
                if r.ok() {
                    complete(&what)?;
                }
                case.count(match (kind, r.ok()) {
                    ("kill", false) => "updates killed at a file operation",
                    ("space", false) => "updates that run out of space",
                    ("short", true) => "updates with a short write",
                    ("again", true) => "updates with an interrupted write",
                    _ => "faults without effect on the outcome",
                });
                let r = run_tool(tool, &a, None, &dir.0);
                ensure!(r.ok(), "{}; the next update fails: {}", what, r.show());
                complete(&format!("{}; next update", what))?;
            }
        }
        case.nontrivial((m, runs, m2, runs2, stellar, marked));
        Ok(())
    });
    c.require("several existing results of one run", 20);
    c.require("updates killed at a file operation", 100);
    c.require("updates with a read error", 200);
    c.require("updates that run out of space", 60);
    c.require("updates with a short write", 30);
    c.require("updates with an interrupted write", 30);
    c.require("files that become shorter", 3);
    c.require("rows of networks in threes", 200);
    c.require("rows of flat networks", 500);
    c.require("runs with several threads", 200);
    c.require("overwriting refused", 100);
    c.require("updates of a damaged file", 100);
    c.require("updates without room", 50);
    c.require("existing rows kept", 500);
    c.require("missing rows added", 200);
    c.require("tables beyond size 12", 2);
    c.finish();
}
