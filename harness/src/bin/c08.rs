use std::collections::BTreeSet;
use vharness::*;
use fbas_analyzer::preprocessing::*;

fn judge(net: &Net, case: &mut Case) -> Verdict {
    let fbas = build_any(net, case);
    let all = net.all();
    let n = net.n();
    let sat = net.satisfiable();
    let unsat = minus(&all, &sat);
    let a = Analysis::new(&fbas);
    for (what, got, want) in [
        ("satisfiable nodes", fbas.satisfiable_nodes(), &sat),
        ("unsatisfiable nodes", fbas.unsatisfiable_nodes(), &unsat),
        ("all nodes", fbas.all_nodes(), &all),
        ("satisfiable nodes of an analysis", a.satisfiable_nodes().unwrap(), &sat),
        ("unsatisfiable nodes of an analysis", a.unsatisfiable_nodes().unwrap(), &unsat),
        ("all nodes of an analysis", a.all_nodes().unwrap(), &all),
    ] {
        ensure!(to_set(&got) == *want, "{}: {:?} instead of {:?}", what, to_set(&got), want);
    }
    ensure!(fbas.number_of_nodes() == n, "{} nodes instead of {}", fbas.number_of_nodes(), n);
    // satisfiable within an arbitrary set of nodes
    let part: Set = (0..n).filter(|_| case.rng.chance(3, 4)).collect();
    let (s, u) = find_satisfiable_nodes(&to_bits(&part), &fbas);
    let want = net.greatest_quorum(&part);
    ensure!(
        to_set(&s) == want && to_set(&u) == minus(&part, &want),
        "satisfiable in {:?}: {:?} / {:?} instead of {:?}",
        part, to_set(&s), to_set(&u), want
    );
    if !sat.is_empty() && !unsat.is_empty() {
        case.count("both satisfiable and unsatisfiable nodes");
    }
    // strongly connected components
    let want: BTreeSet<Set> = net.sccs().into_iter().collect();
    let list = fbas.strongly_connected_components();
    let got = fam(&list);
    ensure!(
        got == want && list.len() == got.len(),
        "strongly connected components {} instead of {}",
        show_fam(&got),
        show_fam(&want)
    );
    // those of a part are the parts of these
    let got: BTreeSet<Set> = fam(&partition_into_strongly_connected_components(&to_bits(&part), &fbas)).into_iter().filter(|s| !s.is_empty()).collect();
    let parts: BTreeSet<Set> = want.iter().map(|c| c.intersection(&part).copied().collect::<Set>()).filter(|s| !s.is_empty()).collect();
    ensure!(got == parts, "strongly connected components among {:?}: {} instead of {}", part, show_fam(&got), show_fam(&parts));
    case.add("strongly connected components seen", want.len() as u64);
    if want.iter().any(|c| c.len() > 1) && want.len() > 1 {
        case.count("several components, one of several nodes");
    }
    // relevant nodes: satisfiable parts of the components that contain a quorum
    let mut relevant = Set::new();
    for c in &want {
        let c: Set = c.intersection(&sat).copied().collect();
        if !net.greatest_quorum(&c).is_empty() {
            relevant.extend(c);
        }
    }
    let got = to_set(&fbas.relevant_nodes());
    ensure!(got == relevant, "relevant nodes {:?} instead of {:?}", got, relevant);
    if !relevant.is_empty() && relevant != sat {
        case.count("satisfiable nodes that are not relevant");
    }
    if !sat.is_empty() {
        case.nontrivial(&net.qs);
    }
    Ok(())
}
fn main() {
    let mut c = Check::start("C08", "exploration",
        "generated FBASs of 16 families (see C01) of up to 110 nodes, every 3-node flat FBAS, sparse trust graphs of up to 150 nodes, FBASs beyond enumeration; non-trivial = some node is satisfiable; distinct by quorum-set tuple");
    c.cases("families", 80000, 2000000, |case| {
        let max_n = case.rng.range(1, 20);
        let net = fmodel::gen::any(&mut case.rng, &fmodel::gen::Opts { max_n, ..Default::default() });
        case.input(net.show());
        if net.n() > 64 { case.count("more than 64 nodes"); }
        judge(&net, case)
    });
    c.cases("exhaustive3", EXHAUSTIVE_3, EXHAUSTIVE_3, |case| {
        let net = exhaustive3(case.index);
        case.input(net.show());
        judge(&net, case)
    });
    c.cases("trust graphs", 6000, 200000, |case| {
        // chains, trees, and rings hanging together: long propagation of unsatisfiability
        let n = case.rng.range(2, 150);
        let r = &mut case.rng;
        let style = r.below(4);
        let mut qs: Vec<Q> = (0..n)
            .map(|i| {
                let mut v = vec![];
                match style {
                    0 => v.push((i + 1) % n),
                    1 => { if i > 0 { v.push(i - 1) } else { v.push(r.below(n)) } }
                    2 => v.push((i + 1).min(n - 1)),
                    _ => { v.push(r.below(n)); if r.chance(1, 2) { v.push(r.below(n)) } }
                }
                if r.chance(1, 10) { v.push(r.below(n)) }
                if r.chance(1, 6) { v.push(i) }
                let t = r.range(1, v.len().max(1)) as u64;
                if r.chance(1, 8) { Q::nest(1, vec![], vec![Q::flat(t, v)]) } else { Q::flat(t, v) }
            })
            .collect();
        if r.chance(1, 2) {
            let x = r.below(n);
            qs[x].t += 3;
        }
        let mut net = Net::new(qs);
        net.kind = "trust graph".into();
        let p = case.rng.perm(n);
        let mut net = net.renamed(&p);
        net.pks = fmodel::net::default_pks(n);
        case.input(net.show());
        if n > 64 { case.count("more than 64 nodes"); }
        judge(&net, case)
    });
    c.cases("large", 1000, 20000, |case| {
        let net = large_net(case);
        judge(&net, case)
    });
    c.require("both satisfiable and unsatisfiable nodes", 1000);
    c.require("several components, one of several nodes", 1000);
    c.require("satisfiable nodes that are not relevant", 500);
    c.require("more than 64 nodes", 200);
    c.finish();
}
