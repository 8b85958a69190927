// needs: repo-binaries
// needs: faults
use std::collections::BTreeMap;
use std::io::Write;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vharness::*;

fn bulk(a: &[String], dir: &Path) -> Run {
    run_tool("bulk_fbas_analyzer", a, None, dir)
}
fn read(p: &Path) -> Vec<u8> {
    std::fs::read(p).unwrap_or_default()
}
/// Replace the values of some rows by ones no analysis would produce.
fn tamper(text: &str, case: &mut Case) -> String {
    let mut out = String::new();
    for (i, line) in text.lines().enumerate() {
        if i == 0 || case.rng.chance(1, 3) {
            out.push_str(line);
        } else {
            out.push_str(&line.replacen(",true,", ",false,", 1).replacen(",false,", &format!(",{},{}", case.rng.chance(1, 2), 900 + case.rng.below(90)), 1));
        }
        out.push('\n');
    }
    out
}
/// Numbers as numbers, so that only the value counts.
fn values(r: &Row) -> BTreeMap<String, String> {
    r.iter().map(|(k, v)| (k.clone(), v.parse::<f64>().map_or(v.clone(), |x| format!("{:?}", x)))).collect()
}
fn keeps(what: &str, path: &Path, before: &[Row]) -> Verdict {
    let text = String::from_utf8_lossy(&read(path)).into_owned();
    let now = csv(&tidy(&text)).map_err(|e| Violation::from(format!("{}: the results file is damaged: {}", what, e.detail)))?;
    for b in before {
        ensure!(now.iter().any(|n| values(n) == values(b)), "{}: the existing result {:?} is gone, the file is {:?}", what, b.get("label"), text);
    }
    Ok(())
}
fn main() {
    let mut c = Check::start("C28", "fault_enumeration",
        "sequences of bulk analysis runs sharing one results file: overwriting without permission, updates with existing rows marked by impossible values, updates that fail (malformed or missing networks at any position, damaged results file, file size limit) or are killed while they analyse, each followed by an intact update; non-trivial = the results file holds at least one row; distinct by (networks, scenario)");
    c.cases("histories", 900, 12000, |case| {
        let dir = Scratch::new(&format!("c28-{}", case.index));
        let k = case.rng.range(2, 5);
        let Some((inputs, paths)) = bulk_inputs(case, k, &dir.0, "stellarbeat") else { return Ok(()) };
        // the results file has many names
        let mut results = dir.path("results.csv");
        let to = match case.rng.below(6) {
            0 => "results.csv".to_string(),
            1 => "./results.csv".to_string(),
            2 => {
                std::fs::create_dir(dir.path("sub dir")).unwrap();
                "sub dir/../results.csv".to_string()
            }
            3 => {
                std::fs::create_dir(dir.path("elsewhere")).unwrap();
                results = dir.path("link.csv");
                std::os::unix::fs::symlink("elsewhere/results", &results).unwrap();
                case.count("results behind a symbolic link");
                "link.csv".to_string()
            }
            _ => results.to_str().unwrap().to_string(),
        };
        // first run: some of the networks
        let of = |i: &BulkInput| -> Vec<String> {
            // the files whose label is the input's
            paths
                .iter()
                .filter(|p| {
                    let f = Path::new(p).file_name().unwrap().to_str().unwrap().replace(".json", "");
                    let l: Vec<&str> = f.split('_').filter(|s| !["nodes", "organizations", "stellarbeat"].contains(s)).collect();
                    l.join("_") == i.label
                })
                .cloned()
                .collect()
        };
        let split = case.rng.range(1, inputs.len());
        let mut order: Vec<usize> = (0..inputs.len()).collect();
        case.rng.shuffle(&mut order);
        let (first, rest) = order.split_at(split);
        let mut a: Vec<String> = first.iter().flat_map(|&i| of(&inputs[i])).collect();
        a.extend(args(&["-o", &to]));
        let r = bulk(&a, &dir.0);
        ensure!(r.ok(), "first run fails: {}", r.show());
        let original = String::from_utf8(read(&results)).unwrap();
        ensure!(csv(&original)?.len() == first.len(), "first run: {:?}", original);
        let marked = if case.rng.chance(3, 4) {
            case.count("existing rows marked");
            tamper(&original, case)
        } else {
            original.clone()
        };
        std::fs::write(&results, &marked).unwrap();
        let existing = csv(&marked)?;
        let mut scenario = vec![];
        for _ in 0..case.rng.range(1, 3) {
            let s = case.rng.below(6);
            scenario.push(s);
            let jobs = case.rng.range(1, 4).to_string();
            match s {
                0 => {
                    // no permission to overwrite
                    let mut a = paths.clone();
                    a.extend(args(&["-o", &to, "-j", &jobs]));
                    let r = bulk(&a, &dir.0);
                    ensure!(!r.ok(), "an existing results file is overwritten without being asked to: {}", r.show());
                    ensure!(read(&results) == marked.as_bytes(), "the run is refused but the results file has changed");
                    case.count("overwriting refused");
                }
                1 | 2 => {
                    // an input that cannot be analysed
                    let bad = dir.path(*case.rng.pick(&["0bad.json", "zzz_bad_nodes.json", "1999-06-15.json"]));
                    if s == 1 {
                        let text = inputs[0].docs.nodes.to_string();
                        std::fs::write(&bad, &text.as_bytes()[..case.rng.below(text.len())]).unwrap();
                    }
                    let mut a = paths.clone();
                    a.insert(case.rng.below(a.len() + 1), bad.to_str().unwrap().into());
                    a.extend(args(&["-u", "-o", &to, "-j", &jobs]));
                    let r = bulk(&a, &dir.0);
                    ensure!(!r.ok(), "a network that cannot be read is accepted: {}", r.show());
                    keeps("failing update", &results, &existing)?;
                    let _ = std::fs::remove_file(&bad);
                    case.count("updates failing on an input");
                }
                3 => {
                    // the existing results cannot be read
                    let mut broken = marked.clone().into_bytes();
                    let kind = case.rng.below(3);
                    match kind {
                        0 => broken.truncate(broken.len() - 2 - case.rng.below(20)),
                        1 => broken.extend_from_slice(b"garbage\n"),
                        _ => {
                            broken = String::from_utf8(broken).unwrap().replace("top_tier_size", "tier").into_bytes();
                        }
                    }
                    std::fs::write(&results, &broken).unwrap();
                    let mut a = paths.clone();
                    a.extend(args(&["-u", "-o", &to, "-j", &jobs]));
                    let r = bulk(&a, &dir.0);
                    if r.ok() {
                        // e.g. a shortened number: rows that are still intact must be kept
                        let text = String::from_utf8_lossy(&read(&results)).into_owned();
                        let now = csv(&text).unwrap_or_default();
                        let cut = |r: &Row| -> BTreeMap<String, String> {
                            values(r).into_iter().filter(|(k, _)| kind != 2 || !(k.contains("top_tier_size") || k.contains("duration") || k == "tier" || k.ends_with("_tier"))).collect()
                        };
                        let intact = if kind == 0 { &existing[..existing.len() - 1] } else { &existing[..] };
                        for b in intact {
                            ensure!(now.iter().any(|n| cut(n) == cut(b)), "an update of a damaged file (kind {}) loses the existing result {:?}: {:?}", kind, b.get("label"), text);
                        }
                        case.count("updates of a damaged file");
                        case.count("damage that goes unnoticed");
                    } else {
                        ensure!(read(&results) == broken, "the results file cannot be read, and the failing update changes it");
                        case.count("updates of a damaged file");
                    }
                    std::fs::write(&results, &marked).unwrap();
                }
                4 => {
                    // no room for the new table
                    let bins = std::env::var("VERIF_BINS").unwrap();
                    let mut a = paths.clone();
                    a.extend(args(&["-u", "-o", &to]));
                    let o = Command::new("bash")
                        .arg("-c")
                        .arg("ulimit -f 1; exec \"$@\"")
                        .arg("x")
                        .arg(format!("{}/bulk_fbas_analyzer", bins))
                        .args(&a)
                        .current_dir(&dir.0)
                        .stdin(Stdio::null())
                        .output()
                        .unwrap();
                    if !o.status.success() {
                        keeps("update without room", &results, &existing)?;
                        case.count("updates without room");
                    } else {
                        // everything fits into one kilobyte after all
                        std::fs::write(&results, &marked).unwrap();
                    }
                }
                _ => {
                    // killed while analysing: one of the networks never finishes loading
                    let fifo = dir.path(*case.rng.pick(&["0slow.json", "zzz_slow_nodes.json", "1999-06-15.json"]));
                    let st = Command::new("mkfifo").arg(&fifo).status().unwrap();
                    assert!(st.success());
                    let mut a = paths.clone();
                    a.insert(case.rng.below(a.len() + 1), fifo.to_str().unwrap().into());
                    a.extend(args(&["-u", "-o", &to, "-j", &jobs]));
                    let bins = std::env::var("VERIF_BINS").unwrap();
                    let mut child = Command::new(format!("{}/bulk_fbas_analyzer", bins))
                        .args(&a)
                        .current_dir(&dir.0)
                        .stdin(Stdio::null())
                        .stdout(Stdio::null())
                        .stderr(Stdio::null())
                        .spawn()
                        .unwrap();
                    // it is at the slow network as soon as the other end of the pipe can be opened
                    let t0 = Instant::now();
                    let mut reached = false;
                    while t0.elapsed() < Duration::from_secs(10) && !reached {
                        use std::os::unix::fs::OpenOptionsExt;
                        const O_NONBLOCK: i32 = 0o4000;
                        match std::fs::OpenOptions::new().write(true).custom_flags(O_NONBLOCK).open(&fifo) {
                            Ok(mut f) => {
                                let _ = f.write_all(b"[");
                                reached = true;
                                std::thread::sleep(Duration::from_millis(case.rng.below(8) as u64));
                                let _ = child.kill();
                            }
                            Err(_) => std::thread::sleep(Duration::from_millis(1)),
                        }
                    }
                    let _ = child.kill();
                    let _ = child.wait();
                    let _ = std::fs::remove_file(&fifo);
                    if reached {
                        keeps("killed update", &results, &existing)?;
                        case.count("updates killed");
                    }
                }
            }
            let now = read(&results);
            if now != marked.as_bytes() {
                // new results may have been added by then
                case.count("failed updates that left new results");
                std::fs::write(&results, &marked).unwrap();
            }
        }
        // in the end an intact update
        let mut wanted: Vec<String> = rest.iter().flat_map(|&i| of(&inputs[i])).collect();
        let whole = case.rng.chance(1, 2);
        if whole {
            wanted = paths.clone();
        }
        case.rng.shuffle(&mut wanted);
        let mut a = wanted;
        a.extend(args(&["-u", "-o", &to, "-j", &case.rng.range(1, 4).to_string()]));
        case.more_input(&format!("first {:?}, scenario {:?}, then {:?}", first, scenario, a));
        let r = bulk(&a, &dir.0);
        ensure!(r.ok(), "an update fails: {}", r.show());
        let rows = csv(&String::from_utf8(read(&results)).unwrap())?;
        let labels: Vec<&String> = rows.iter().map(|r| &r["label"]).collect();
        let want: Vec<&String> = inputs.iter().map(|i| &i.label).collect();
        ensure!(labels == want, "rows {:?} after the update instead of {:?}", labels, want);
        for (row, i) in rows.iter().zip(&inputs) {
            if let Some(old) = existing.iter().find(|e| e["label"] == i.label) {
                ensure!(values(row) == values(old), "the existing row {:?} becomes {:?}", old, row);
                case.count("existing rows kept");
            } else {
                bulk_row(row, i, case)?;
                case.count("missing rows added");
            }
        }
        // and once more: nothing left to do
        let r = bulk(&a, &dir.0);
        ensure!(r.ok(), "the second update fails: {}", r.show());
        let again = csv(&String::from_utf8(read(&results)).unwrap())?;
        ensure!(again.iter().map(values).collect::<Vec<_>>() == rows.iter().map(values).collect::<Vec<_>>(), "an update with nothing to do changes the results");
        case.nontrivial((inputs.iter().map(|i| &i.net.qs).collect::<Vec<_>>(), scenario));
        Ok(())
    });
    // several existing results may have the same label (networks from different directories)
    c.cases("shared labels", 250, 3000, |case| {
        let dir = Scratch::new(&format!("c28-s{}", case.index));
        let k = case.rng.range(2, 5);
        let Some((inputs, paths)) = bulk_inputs(case, k, &dir.0, "stellarbeat") else { return Ok(()) };
        let results = dir.path("r.csv");
        let to = results.to_str().unwrap().to_string();
        let mut a = paths.clone();
        a.extend(args(&["-o", &to]));
        let r = bulk(&a, &dir.0);
        ensure!(r.ok(), "first run fails: {}", r.show());
        let text = String::from_utf8(read(&results)).unwrap();
        let mut lines: Vec<String> = vec![];
        for (i, line) in text.lines().enumerate() {
            if i == 0 {
                lines.push(line.into());
                continue;
            }
            for v in 0..case.rng.below(4) {
                // the same label with other results
                let other = line.replacen(",true,", ",T,", 1).replacen(",false,", ",T,", 1).replacen(",T,", &format!(",{},{}", v % 2 == 0, 10 + v), 1);
                lines.push(if case.rng.chance(1, 3) { line.into() } else { other });
            }
        }
        case.rng.shuffle(&mut lines[1..]);
        if lines.len() == 1 {
            return Ok(());
        }
        std::fs::write(&results, lines.join("\n") + "\n").unwrap();
        let existing = csv(&(lines.join("\n") + "\n"))?;
        let mut a = paths.clone();
        case.rng.shuffle(&mut a);
        a.extend(args(&["-u", "-o", &to, "-j", &case.rng.range(1, 4).to_string()]));
        case.more_input(&format!("{:?} with {:?}", a, lines));
        let r = bulk(&a, &dir.0);
        ensure!(r.ok(), "the update fails: {}", r.show());
        let rows = csv(&String::from_utf8(read(&results)).unwrap())?;
        ensure!(rows.windows(2).all(|w| w[0]["label"] <= w[1]["label"]), "rows out of order: {:?}", rows.iter().map(|r| &r["label"]).collect::<Vec<_>>());
        let mut old: Vec<BTreeMap<String, String>> = existing.iter().map(values).collect();
        for row in &rows {
            if let Some(at) = old.iter().position(|o| *o == values(row)) {
                old.remove(at);
            } else {
                let Some(i) = inputs.iter().find(|i| i.label == row["label"]) else { return Err(format!("a row for {:?} appears", row["label"]).into()) };
                ensure!(!existing.iter().any(|e| e["label"] == i.label), "an existing result for {:?} becomes {:?}", i.label, row);
                bulk_row(row, i, case)?;
            }
        }
        ensure!(old.is_empty(), "existing results are gone: {:?}", old);
        for i in &inputs {
            let n = rows.iter().filter(|r| r["label"] == i.label).count();
            ensure!(n == existing.iter().filter(|e| e["label"] == i.label).count().max(1), "{} rows for {:?}", n, i.label);
            if n > 1 {
                case.count("labels with several existing rows");
            }
        }
        case.nontrivial((inputs.iter().map(|i| &i.net.qs).collect::<Vec<_>>(), lines));
        Ok(())
    });
    c.require("labels with several existing rows", 100);
    // every operation on a file during an update, in turn, is the last one or goes wrong
    c.cases("every operation", 250, 2500, |case| {
        let dir = Scratch::new(&format!("c28-k{}", case.index));
        let log = dir.path("log");
        let k = case.rng.range(2, 4);
        let Some((inputs, paths)) = bulk_inputs(case, k, &dir.0, "stellarbeat") else { return Ok(()) };
        let sub = dir.path("results");
        std::fs::create_dir(&sub).unwrap();
        let results = sub.join("r.csv");
        let to = results.to_str().unwrap().to_string();
        let mut a = paths.clone();
        a.extend(args(&["-o", &to]));
        let r = bulk(&a, &dir.0);
        ensure!(r.ok(), "first run fails: {}", r.show());
        let mut marked = tamper(&String::from_utf8(read(&results)).unwrap(), case);
        // drop some rows
        let keep: Vec<bool> = (0..inputs.len()).map(|_| case.rng.chance(1, 2)).collect();
        let mut i = 0;
        marked = marked.lines().enumerate().filter(|(l, _)| *l == 0 || { i += 1; keep[i - 1] }).map(|(_, l)| format!("{}\n", l)).collect();
        let none_left = !keep.iter().any(|x| *x);
        if none_left && case.rng.chance(1, 2) {
            marked.clear();
        }
        // an update may also make the file shorter
        if !none_left && case.rng.chance(1, 4) {
            marked = marked.replace('\n', "\r\n");
            marked.push_str(&"\r\n".repeat(case.rng.range(0, 2000)));
            case.count("files that become shorter");
        } else if !none_left && case.rng.chance(1, 6) {
            marked.pop();
        }
        let existing = if marked.is_empty() { vec![] } else { csv(&tidy(&marked))? };
        let mut a = paths.clone();
        a.extend(args(&["-u", "-o", &to, "-j", &case.rng.range(1, 3).to_string()]));
        case.more_input(&format!("{:?} with {:?}", a, marked));
        let complete = |what: &str| -> Verdict {
            let rows = csv(&String::from_utf8_lossy(&read(&results)))?;
            ensure!(rows.iter().map(|r| &r["label"]).eq(inputs.iter().map(|i| &i.label)), "{}: rows {:?}", what, rows.iter().map(|r| &r["label"]).collect::<Vec<_>>());
            for row in &rows {
                if let Some(old) = existing.iter().find(|e| e["label"] == row["label"]) {
                    ensure!(values(row) == values(old), "{}: the existing row {:?} becomes {:?}", what, old, row);
                }
            }
            Ok(())
        };
        let begin = || {
            std::fs::remove_dir_all(&sub).unwrap();
            std::fs::create_dir(&sub).unwrap();
            std::fs::write(&results, &marked).unwrap();
        };
        let tool = "bulk_fbas_analyzer";
        begin();
        let (r, events, reads, trace) = run_tool_faulty(tool, &a, None, &sub, &log, &Fault::None);
        ensure!(r.ok(), "an update fails: {}", r.show());
        complete("update")?;
        // (nothing to write at all would be fine if nothing is missing, too)
        ensure!(events > 0 || existing.len() == inputs.len(), "no file operation seen: the injector does not work");
        for n in 1..=reads {
            for fault in [Fault::ReadError(n), Fault::OneReadError(n)] {
                begin();
                let (r, _, _, _) = run_tool_faulty(tool, &a, None, &sub, &log, &fault);
                let what = format!("{:?} of {} ({})", fault, reads, if r.ok() { "success" } else { "failure" });
                if !existing.is_empty() {
                    keeps(&what, &results, &existing)?;
                }
                if r.ok() {
                    complete(&what)?;
                }
                case.count("updates with a read error");
            }
        }
        for n in 1..=events {
            for kind in ["kill", "space", "short", "again"] {
                begin();
                let (r, _, _, _) = run_tool_faulty(tool, &a, None, &sub, &log, &Fault::At(kind, n));
                let what = format!("{} at operation {} of [{}] ({})", kind, n, trace.replace('\n', ", "), if r.ok() { "success" } else { "failure" });
                if !existing.is_empty() {
                    keeps(&what, &results, &existing)?;
                }
                if r.ok() {
                    complete(&what)?;
                } else if kind == "kill" && existing.is_empty() {
                    // nothing to lose
                    begin();
                }
                case.count(match (kind, r.ok()) {
                    ("kill", false) => "updates killed at a file operation",
                    ("space", false) => "updates that run out of space",
                    ("short", true) => "updates with a short write",
                    ("again", true) => "updates with an interrupted write",
                    _ => "faults without effect on the outcome",
                });
                // and the interrupted update can be repeated
                let r = bulk(&a, &dir.0);
                ensure!(r.ok(), "{}; the next update fails: {}", what, r.show());
                complete(&format!("{}; next update", what))?;
            }
        }
        case.nontrivial((inputs.iter().map(|i| &i.net.qs).collect::<Vec<_>>(), keep, marked));
        Ok(())
    });
    c.require("updates killed at a file operation", 100);
    c.require("updates with a read error", 200);
    c.require("updates that run out of space", 60);
    c.require("updates with a short write", 30);
    c.require("updates with an interrupted write", 30);
    c.require("files that become shorter", 3);
    c.require("overwriting refused", 100);
    c.require("updates failing on an input", 200);
    c.require("updates of a damaged file", 50);
    c.require("updates without room", 30);
    c.require("updates killed", 80);
    c.require("existing rows marked", 300);
    c.require("existing rows kept", 500);
    c.require("missing rows added", 300);
    c.finish();
}
