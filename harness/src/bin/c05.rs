use vharness::*;

fn witness(net: &Net, w: &[Set]) -> Verdict {
    ensure!(w.len() >= 2, "the witness has {} sets", w.len());
    for (i, a) in w.iter().enumerate() {
        ensure!(net.is_quorum(a), "{:?} in the witness is not a quorum", a);
        for b in &w[i + 1..] {
            ensure!(
                a.is_disjoint(b),
                "the witness quorums {:?} and {:?} intersect",
                a,
                b
            );
        }
    }
    Ok(())
}
/// `state`: `None` no quorum at all, else whether all quorums intersect.
fn judge(net: &Net, state: Option<bool>, case: &mut Case) -> Verdict {
    let fbas = build_any(net, case);
    let found = find_nonintersecting_quorums(&fbas);
    match (&found, state) {
        (Some(w), Some(false)) => {
            witness(net, &w.iter().map(to_set).collect::<Vec<_>>())?;
            case.count("witnesses checked");
        }
        (None, Some(true)) | (None, None) => {}
        _ => ensure!(
            false,
            "stand-alone search {} a witness, but intersection is {:?}",
            if found.is_some() { "found" } else { "found no" },
            state
        ),
    }
    let a = Analysis::new(&fbas);
    // the check is also made on an analysis that has been used (and internally reduced) before
    for _ in 0..case.rng.below(3) {
        match case.rng.below(4) {
            0 => {
                a.minimal_quorums();
                case.count("asked after minimal quorums");
            }
            1 => {
                a.minimal_blocking_sets();
            }
            2 => {
                a.has_quorum_intersection();
            }
            _ => {
                a.top_tier();
            }
        }
    }
    let (verdict, w) = a.has_quorum_intersection_via_alternative_check();
    ensure!(
        verdict == (state == Some(true)),
        "alternative check says {}, but intersection is {:?}",
        verdict,
        state
    );
    ensure!(
        w.is_some() == (state == Some(false)),
        "witness {:?} with intersection {:?}",
        w,
        state
    );
    if let Some(w) = w {
        witness(net, &w.unwrap().iter().map(to_set).collect::<Vec<_>>())?;
        case.count("witnesses checked");
    }
    ensure!(
        a.has_quorum_intersection() == verdict,
        "the two checks disagree: alternative {}, regular {}",
        verdict,
        !verdict
    );
    Ok(())
}
fn state(t: &Truth) -> Option<bool> {
    if t.mq.is_empty() {
        None
    } else {
        Some(t.qi)
    }
}
fn main() {
    let mut c = Check::start("C05", "exploration",
        "generated FBASs of 16 families (see C01), every 3-node flat FBAS, larger FBASs; the witness is judged on the original FBAS, the verdict against enumeration or certified minimal quorums; non-trivial = has at least one quorum; distinct by quorum-set tuple");
    c.cases("families", 120000, 3000000, |case| {
        let Some((net, truth)) = small_net(case) else {
            return Ok(());
        };
        judge(&net, state(&truth), case)
    });
    c.cases("exhaustive3", EXHAUSTIVE_3, EXHAUSTIVE_3, |case| {
        let net = exhaustive3(case.index);
        case.input(net.show());
        let truth = Truth::of(&net).unwrap();
        observe(case, &net, &truth);
        judge(&net, state(&truth), case)
    });
    c.cases("large", 500, 10000, |case| {
        let net = large_net(case);
        let fbas = build_any(&net, case);
        let mq = fam(&find_minimal_quorums(&fbas));
        if mq.len() > 2000 || !matches!(certify_minimal_quorums(&net, &mq), Ok(Some(_))) {
            case.count("large: minimal quorums not certified, not judged");
            return Ok(());
        }
        let v: Vec<&Set> = mq.iter().collect();
        let s = if v.is_empty() {
            None
        } else {
            Some((0..v.len()).all(|i| (i + 1..v.len()).all(|j| !v[i].is_disjoint(v[j]))))
        };
        case.count("large: judged");
        if s.is_some() {
            case.nontrivial(&net.qs);
        }
        judge(&net, s, case)
    });
    c.require("witnesses checked", 1000);
    c.require("quorum intersection", 1000);
    c.require("no quorum at all", 500);
    c.require("more than 64 nodes", 50);
    c.require("large: judged", 100);
    c.finish();
}
