use vharness::*;

fn judge(net: &Net, truth: &Truth, case: &mut Case) -> Verdict {
    let fbas = build_any(net, case);
    if truth.mq.is_empty() {
        // nothing to block: whether that is written as "no set" or "the empty set" is not specified
        let got = fam(&find_minimal_blocking_sets(&fbas));
        ensure!(
            got.iter().all(|s| s.is_empty()),
            "blocking sets {} of an FBAS without quorums",
            show_fam(&got)
        );
        return Ok(());
    }
    same_family(
        "minimal blocking sets",
        &find_minimal_blocking_sets(&fbas),
        &truth.mbs,
    )?;
    let a = Analysis::new(&fbas);
    same_family(
        "minimal blocking sets of an analysis",
        &a.minimal_blocking_sets().unwrap(),
        &truth.mbs,
    )?;
    case.add("minimal blocking sets seen", truth.mbs.len() as u64);
    Ok(())
}
fn main() {
    let mut c = Check::start("C02", "exploration",
        "generated FBASs of 16 families (see C01), every 3-node flat FBAS, and FBASs beyond enumeration judged by a hitting-set certificate; non-trivial = has at least one quorum; distinct by quorum-set tuple");
    c.cases("families", 120000, 3000000, |case| {
        let Some((net, truth)) = small_net(case) else {
            return Ok(());
        };
        judge(&net, &truth, case)
    });
    c.cases("exhaustive3", EXHAUSTIVE_3, EXHAUSTIVE_3, |case| {
        let net = exhaustive3(case.index);
        case.input(net.show());
        let truth = Truth::of(&net).unwrap();
        observe(case, &net, &truth);
        judge(&net, &truth, case)
    });
    c.cases("large", 600, 20000, |case| {
        let net = large_net(case);
        if net.satisfiable().is_empty() {
            return Ok(());
        }
        let fbas = build_any(&net, case);
        let got = if case.rng.chance(1, 2) {
            find_minimal_blocking_sets(&fbas)
        } else {
            Analysis::new(&fbas).minimal_blocking_sets().unwrap()
        };
        let mbs = fam(&got);
        same_family("minimal blocking sets", &got, &mbs)?;
        match certify_minimal_blocking_sets(&net, &mbs)? {
            None => case.count("large: no certificate within limits"),
            Some(_) => {
                case.count("large: certified");
                case.nontrivial(&net.qs);
            }
        }
        Ok(())
    });
    c.require("several minimal quorums", 1000);
    c.require("disjoint quorums", 200);
    c.require("more than 64 nodes", 50);
    c.require("large: certified", 100);
    c.finish();
}
