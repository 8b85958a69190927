use vharness::*;

fn judge(net: &Net, truth: &Truth, case: &mut Case) -> Verdict {
    let fbas = build_any(net, case);
    let got = Analysis::new(&fbas).has_quorum_intersection();
    ensure!(
        got == truth.qi,
        "quorum intersection reported as {} but the minimal quorums are {}",
        got,
        show_fam(&truth.mq)
    );
    Ok(())
}
fn main() {
    let mut c = Check::start("C04", "exploration",
        "generated FBASs of 16 families (see C01), every 3-node flat FBAS, larger FBASs whose minimal quorums were certified first; non-trivial = has at least one quorum; distinct by quorum-set tuple");
    c.cases("families", 150000, 3000000, |case| {
        let Some((net, truth)) = small_net(case) else {
            return Ok(());
        };
        judge(&net, &truth, case)
    });
    c.cases("exhaustive3", EXHAUSTIVE_3, EXHAUSTIVE_3, |case| {
        let net = exhaustive3(case.index);
        case.input(net.show());
        let truth = Truth::of(&net).unwrap();
        observe(case, &net, &truth);
        judge(&net, &truth, case)
    });
    // Many minimal quorums of different sizes, so that the pair that does not intersect (if any)
    // is one of many.
    c.cases("near-misses", 6000, 200000, |case| {
        let k = case.rng.range(4, 9);
        let t = (k / 2 + case.rng.below(2)).max(1) as u64;
        let all: Vec<usize> = (0..k).collect();
        let mut net = Net::new(vec![Q::flat(t, all); k]);
        for _ in 0..case.rng.below(3) {
            let x = case.rng.below(k);
            net.qs[x].t = case.rng.range(1, k) as u64;
        }
        if case.rng.chance(1, 3) {
            let x = case.rng.below(k);
            let y = case.rng.below(k);
            net.qs[x].v.retain(|&z| z != y);
        }
        net.kind = "near-misses".into();
        fmodel::gen::decorate(&mut case.rng, &mut net, &fmodel::gen::Opts { max_n: 9, ..Default::default() });
        case.input(net.show());
        let Some(truth) = Truth::of_up_to(&net, 14) else { return Ok(()) };
        observe(case, &net, &truth);
        judge(&net, &truth, case)
    });
    c.cases("large", 400, 8000, |case| {
        let net = large_or_wide_net(case);
        let fbas = build_any(&net, case);
        let mq = fam(&find_minimal_quorums(&fbas));
        if mq.len() > 2000 || !matches!(certify_minimal_quorums(&net, &mq), Ok(Some(_))) {
            case.count("large: minimal quorums not certified, not judged");
            return Ok(());
        }
        let v: Vec<&Set> = mq.iter().collect();
        let want = !v.is_empty()
            && (0..v.len()).all(|i| (i + 1..v.len()).all(|j| !v[i].is_disjoint(v[j])));
        let got = Analysis::new(&fbas).has_quorum_intersection();
        ensure!(got == want, "quorum intersection reported as {} but is {}", got, want);
        case.count("large: judged");
        if !v.is_empty() {
            case.nontrivial(&net.qs);
        }
        Ok(())
    });
    c.require("quorum intersection", 1000);
    c.require("disjoint quorums", 1000);
    c.require("no quorum at all", 500);
    c.require("more than 64 nodes", 50);
    c.require("large: judged", 100);
    c.finish();
}
