use vharness::*;

fn judge(net: &Net, truth: &Truth, case: &mut Case) -> Verdict {
    let fbas = build_any(net, case);
    let a = Analysis::new(&fbas);
    same_family(
        "minimal splitting sets of an analysis",
        &a.minimal_splitting_sets().unwrap(),
        &truth.mss,
    )?;
    if truth.qi {
        // also through the stand-alone finder, handed the true minimal quorums
        let mq: Vec<NodeIdSet> = truth.mq.iter().map(to_bits).collect();
        same_family(
            "minimal splitting sets",
            &find_minimal_splitting_sets(&fbas, &mq),
            &truth.mss,
        )?;
        case.add("minimal splitting sets seen", truth.mss.len() as u64);
        if truth.mss.iter().any(|s| s.len() > 1) {
            case.count("splitting sets of several nodes");
        }
        if truth.mss.is_empty() {
            case.count("nothing can split");
        }
    }
    Ok(())
}
fn main() {
    let mut c = Check::start("C03", "exploration",
        "generated FBASs of 16 families (see C01), every 3-node flat FBAS, and larger FBASs whose minimal quorums were certified first; non-trivial = has at least one quorum; distinct by quorum-set tuple");
    c.cases("families", 120000, 3000000, |case| {
        let Some((net, truth)) = small_net(case) else {
            return Ok(());
        };
        judge(&net, &truth, case)
    });
    c.cases("exhaustive3", EXHAUSTIVE_3, EXHAUSTIVE_3, |case| {
        let net = exhaustive3(case.index);
        case.input(net.show());
        let truth = Truth::of(&net).unwrap();
        observe(case, &net, &truth);
        judge(&net, &truth, case)
    });
    c.cases("large", 400, 8000, |case| {
        let net = large_or_wide_net(case);
        let fbas = build_any(&net, case);
        let mq = fam(&find_minimal_quorums(&fbas));
        if mq.len() > 300 || mq.iter().flatten().collect::<std::collections::BTreeSet<_>>().len() > 128 || !matches!(certify_minimal_quorums(&net, &mq), Ok(Some(_))) {
            case.count("large: minimal quorums not certified, not judged");
            return Ok(());
        }
        let want = splitting_sets_by_definition(&mq);
        let got = Analysis::new(&fbas).minimal_splitting_sets().unwrap();
        same_family("minimal splitting sets of an analysis", &got, &want)?;
        case.count("large: judged");
        if !mq.is_empty() {
            case.nontrivial(&net.qs);
        }
        Ok(())
    });
    c.require("splitting sets of several nodes", 300);
    c.require("quorum intersection", 1000);
    c.require("more than 64 nodes", 50);
    c.require("large: judged", 100);
    c.finish();
}
