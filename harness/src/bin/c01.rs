use vharness::*;

fn judge(net: &Net, truth: &Truth, case: &mut Case) -> Verdict {
    let fbas = build_any(net, case);
    same_family("minimal quorums", &find_minimal_quorums(&fbas), &truth.mq)?;
    let a = Analysis::new(&fbas);
    same_family(
        "minimal quorums of an analysis",
        &a.minimal_quorums().unwrap(),
        &truth.mq,
    )?;
    case.add("minimal quorums seen", truth.mq.len() as u64);
    case.add("quorums enumerated by the oracle", truth.quorum_count as u64);
    Ok(())
}
fn main() {
    let mut c = Check::start("C01", "exploration",
        "generated FBASs of 16 families (flat, nested, symmetric, organisations, sparse, multi-cluster, duplicates, dead and hopeless members, followers, padded to > 64 nodes), every 3-node flat FBAS, and FBASs beyond enumeration judged by a hitting-set certificate; non-trivial = has at least one quorum; distinct by quorum-set tuple");
    c.cases("families", 120000, 3000000, |case| {
        let Some((net, truth)) = small_net(case) else {
            return Ok(());
        };
        judge(&net, &truth, case)
    });
    c.cases("exhaustive3", EXHAUSTIVE_3, EXHAUSTIVE_3, |case| {
        let net = exhaustive3(case.index);
        case.input(net.show());
        let truth = Truth::of(&net).unwrap();
        observe(case, &net, &truth);
        judge(&net, &truth, case)
    });
    c.cases("large", 600, 20000, |case| {
        let net = large_or_wide_net(case);
        let fbas = build_any(&net, case);
        let got = if case.rng.chance(1, 2) {
            find_minimal_quorums(&fbas)
        } else {
            Analysis::new(&fbas).minimal_quorums().unwrap()
        };
        let mq = fam(&got);
        same_family("minimal quorums", &got, &mq)?;
        match certify_minimal_quorums(&net, &mq)? {
            None => case.count("large: no certificate within limits"),
            Some(_) => {
                case.count("large: certified");
                if !mq.is_empty() {
                    case.nontrivial(&net.qs);
                }
            }
        }
        Ok(())
    });
    c.require("several minimal quorums", 1000);
    c.require("disjoint quorums", 200);
    c.require("more than 64 nodes", 50);
    c.require("large: certified", 100);
    c.finish();
}
