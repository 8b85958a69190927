// needs: repo-binaries
use vharness::*;

fn main() {
    let mut c = Check::start("C27", "exploration",
        "runs of the bulk analysis on one to six generated networks (random file naming, order, organization files, thread counts; to a file or standard output), every cell of every row judged by definition, and runs with different thread counts and file orders compared; non-trivial = two or more networks; distinct by networks");
    let scratch = Scratch::new("c27");
    c.cases("tables", 1500, 20000, |case| {
        let dir = Scratch::new(&format!("c27-{}", case.index));
        let ignore = *case.rng.pick(&["stellarbeat", "xyz"]);
        let k = if case.rng.chance(1, 250) { case.rng.range(24, 60) } else { case.rng.range(1, 6) };
        if k > 6 {
            case.count("tables of many networks");
        }
        let Some((inputs, paths)) = bulk_inputs(case, k, &dir.0, ignore) else { return Ok(()) };
        let mut tables = vec![];
        for round in 0..2 {
            let mut a = paths.clone();
            case.rng.shuffle(&mut a);
            if ignore != "stellarbeat" {
                a.extend(args(&["-i", ignore]));
            }
            let jobs = if round == 0 { 1 } else { case.rng.range(2, 8) };
            if jobs > 1 || case.rng.chance(1, 2) {
                a.extend(args(&["-j", &jobs.to_string()]));
            }
            let out = dir.path(&format!("out{}.csv", round));
            let to_file = case.rng.chance(1, 2);
            if to_file {
                a.extend(args(&[*case.rng.pick(&["-o", "--out"]), out.to_str().unwrap()]));
            }
            case.more_input(&format!("{:?}; ", a));
            let r = run_tool("bulk_fbas_analyzer", &a, None, &dir.0);
            ensure!(r.ok(), "the run fails: {}", r.show());
            let text = if to_file {
                ensure!(r.out.is_empty(), "the table goes to a file, but there is output {:?}", r.out);
                std::fs::read_to_string(&out).map_err(|e| Violation::from(format!("no output file: {}", e)))?
            } else {
                r.out
            };
            let rows = csv(&text)?;
            ensure!(rows.len() == inputs.len(), "{} rows for {} networks", rows.len(), inputs.len());
            for (row, i) in rows.iter().zip(&inputs) {
                ensure!(row.len() == BULK_COLUMNS, "{} columns", row.len());
                bulk_row(row, i, case)?;
            }
            tables.push(rows.iter().map(timeless).collect::<Vec<_>>());
            case.count(if jobs > 1 { "runs on several threads" } else { "runs on one thread" });
        }
        ensure!(tables[0] == tables[1], "the table depends on the number of threads or the order of files: {:?} {:?}", tables[0], tables[1]);
        if inputs.len() > 1 {
            case.nontrivial(inputs.iter().map(|i| &i.net.qs).collect::<Vec<_>>());
        }
        Ok(())
    });
    c.cases("refused", 60, 600, |case| {
        let dir = Scratch::new(&format!("c27r-{}", case.index));
        let Some((_, mut paths)) = bulk_inputs(case, 2, &dir.0, "") else { return Ok(()) };
        let odd = dir.path(*case.rng.pick(&["nodes.txt", "README", "organizations.csv", "nodes.json.bak"]));
        std::fs::write(&odd, "[]").unwrap();
        let at = case.rng.below(paths.len() + 1);
        paths.insert(at, odd.to_str().unwrap().into());
        let out = dir.path("out.csv");
        paths.extend(args(&["-o", out.to_str().unwrap()]));
        case.input(format!("{:?}", paths));
        let r = run_tool("bulk_fbas_analyzer", &paths, None, &dir.0);
        ensure!(!r.ok(), "an unrecognizable input file is accepted: {}", r.show());
        ensure!(r.out.is_empty() && !out.exists(), "there is output in spite of an unrecognizable input file");
        case.nontrivial(&paths);
        case.count("unrecognizable files refused");
        Ok(())
    });
    // the published networks
    c.cases("real", 1, 3, |case| {
        let a = args(&["/repo/test_data/stellarbeat_nodes_2019-09-17.json", "/repo/test_data/correct.json", "/repo/test_data/stellarbeat_organizations_2019-09-17.json", "-j", "2"]);
        case.input(format!("{:?}", a));
        let r = run_tool("bulk_fbas_analyzer", &a, None, &scratch.0);
        ensure!(r.ok(), "the run fails: {}", r.show());
        let rows = csv(&r.out)?;
        ensure!(rows.len() == 2 && rows[0]["label"] == "2019-09-17" && rows[1]["label"] == "correct", "labels {:?}", rows.iter().map(|r| &r["label"]).collect::<Vec<_>>());
        let file = &a[0];
        let net = net_from_json(&std::fs::read_to_string(file).unwrap());
        let fbas = Fbas::from_json_file(std::path::Path::new(file));
        let mq = fam(&Analysis::new(&fbas).minimal_quorums().unwrap());
        let Some(hit) = certify_minimal_quorums(&net, &mq)? else { return Ok(()) };
        let size = |f: &std::collections::BTreeSet<Set>| (f.iter().map(|s| s.len()).min().unwrap_or(0).to_string(), f.iter().map(|s| s.len()).max().unwrap_or(0).to_string());
        for (p, f) in [("mq", &mq), ("mbs", &hit), ("mss", &splitting_sets_by_definition(&mq))] {
            let (min, max) = size(f);
            ensure!(rows[0][&format!("{}_min", p)] == min && rows[0][&format!("{}_max", p)] == max, "{}: {:?}", p, rows[0]);
        }
        ensure!(!rows[0]["orgs_top_tier_size"].is_empty() && rows[1]["orgs_top_tier_size"].is_empty(), "organizations are attributed to the wrong network");
        case.nontrivial(&a);
        Ok(())
    });
    c.require("rows judged", 3000);
    c.require("grouped columns judged", 3000);
    c.require("rows without some grouping", 1000);
    c.require("organization files", 500);
    c.require("the same network in another order", 200);
    c.require("runs on several threads", 500);
    c.require("unrecognizable files refused", 40);
    c.require("tables of many networks", 2);
    c.finish();
}
