//! Glue between the reference model and the code under test.
pub use fbas_analyzer::*;
pub use fmodel::{ensure, Case, Check, Net, Rng, Scratch, Set, Truth, Verdict, Violation, Q};
use fmodel::serde_json::{json, Value};
use std::collections::BTreeSet;

pub fn to_qs(q: &Q) -> QuorumSet {
    QuorumSet {
        threshold: q.t as usize,
        validators: q.v.clone(),
        inner_quorum_sets: q.i.iter().map(to_qs).collect(),
    }
}
pub fn from_qs(q: &QuorumSet) -> Q {
    Q {
        t: q.threshold as u64,
        v: q.validators.clone(),
        i: q.inner_quorum_sets.iter().map(from_qs).collect(),
        u: 0,
    }
}
pub fn to_bits(s: &Set) -> NodeIdSet {
    s.iter().copied().collect()
}
pub fn to_set(b: &NodeIdSet) -> Set {
    b.iter().collect()
}
/// Through the programmatic constructors (generic public keys).
pub fn build_api(net: &Net) -> Fbas {
    let mut f = Fbas::new();
    for q in &net.qs {
        f.add_generic_node(to_qs(q));
    }
    f
}
/// Nodes first, quorum sets swapped in afterwards.
pub fn build_swap(net: &Net) -> Fbas {
    let mut f = Fbas::new_generic_unconfigured(net.n());
    for (i, q) in net.qs.iter().enumerate().rev() {
        f.swap_quorum_set(i, to_qs(q));
    }
    f
}
pub fn q_json(q: &Q, pks: &[String]) -> Value {
    let mut v: Vec<Value> = q.v.iter().map(|&x| json!(pks[x])).collect();
    for k in 0..q.u {
        // interleave the members that do not exist
        let at = (k * 7 + q.v.len()) % (v.len() + 1);
        v.insert(at, json!(format!("no such node {}", k)));
    }
    let i: Vec<Value> = q.i.iter().map(|x| q_json(x, pks)).collect();
    if i.is_empty() {
        json!({"threshold": q.t, "validators": v})
    } else {
        json!({"threshold": q.t, "validators": v, "innerQuorumSets": i})
    }
}
pub fn net_json(net: &Net) -> Value {
    Value::Array(
        (0..net.n())
            .map(|i| json!({"publicKey": net.pks[i], "quorumSet": q_json(&net.qs[i], &net.pks)}))
            .collect(),
    )
}
pub fn build_json(net: &Net) -> Fbas {
    Fbas::from_json_str(&net_json(net).to_string())
}
/// Build in one of several equivalent ways.
pub fn build_any(net: &Net, case: &mut Case) -> Fbas {
    match case.rng.below(3) {
        0 => {
            case.count("built from JSON");
            build_json(net)
        }
        1 => {
            case.count("built with add_node");
            build_api(net)
        }
        _ => {
            case.count("built with swap_quorum_set");
            build_swap(net)
        }
    }
}
pub fn fam(sets: &[NodeIdSet]) -> BTreeSet<Set> {
    sets.iter().map(to_set).collect()
}
pub fn show_fam<'a>(f: impl IntoIterator<Item = &'a Set>) -> String {
    let v: Vec<String> = f.into_iter().map(|s| format!("{:?}", s)).collect();
    format!("[{}]", v.join(" "))
}
/// `got` lists exactly the members of `want`, each once, smallest first.
pub fn same_family(what: &str, got: &[NodeIdSet], want: &BTreeSet<Set>) -> Verdict {
    let g = fam(got);
    ensure!(
        &g == want,
        "{}: got {} but by definition it is {}",
        what,
        show_fam(&g),
        show_fam(want)
    );
    ensure!(
        g.len() == got.len(),
        "{}: a set is listed more than once ({} listed, {} distinct)",
        what,
        got.len(),
        g.len()
    );
    ensure!(
        got.windows(2).all(|w| w[0].len() <= w[1].len()),
        "{}: not listed smallest first",
        what
    );
    Ok(())
}

/// Small enumerable FBASs of every family, with their ground truth.
pub fn small_net(case: &mut Case) -> Option<(Net, Truth)> {
    let max_n = match case.rng.below(12) {
        0 => 12,
        1 | 2 => 10,
        3..=6 => 8,
        _ => 6,
    };
    let net = fmodel::gen::any(
        &mut case.rng,
        &fmodel::gen::Opts {
            max_n,
            ..Default::default()
        },
    );
    case.input(net.show());
    if net
        .qs
        .iter()
        .any(|q| q.any_level(&|x| x.slice_count() > 20000.0))
    {
        case.count("skipped: too many slices");
        return None;
    }
    let truth = Truth::of_up_to(&net, 13)?;
    observe(case, &net, &truth);
    Some((net, truth))
}
pub fn observe(case: &mut Case, net: &Net, truth: &Truth) {
    case.count(&format!("family {}", net.kind.split('+').next().unwrap()));
    for extra in net.kind.split('+').skip(1) {
        case.count(&format!("variant {}", extra));
    }
    if truth.mq.is_empty() {
        case.count("no quorum at all");
    } else if truth.qi {
        case.count("quorum intersection");
    } else {
        case.count("disjoint quorums");
    }
    if net.n() > 64 {
        case.count("more than 64 nodes");
    }
    if truth.mq.len() > 1 {
        case.count("several minimal quorums");
    }
    if !truth.mq.is_empty() {
        case.nontrivial(&net.qs);
    }
}

/// The `index`-th FBAS of 3 nodes with flat, duplicate-free quorum sets (thresholds 0..=4).
pub const EXHAUSTIVE_3: u64 = 40 * 40 * 40;
pub fn exhaustive3(index: u64) -> Net {
    let mut x = index;
    let mut qs = vec![];
    for _ in 0..3 {
        let d = x % 40;
        x /= 40;
        let mask = d % 8;
        let t = d / 8;
        qs.push(Q::flat(
            t,
            (0..3usize).filter(|b| mask >> b & 1 == 1).collect(),
        ));
    }
    let mut n = Net::new(qs);
    n.kind = "all 3-node flat".into();
    n
}

/// Compact bit representation of families over up to 128 nodes.
pub struct Compact {
    ids: Vec<usize>,
}
impl Compact {
    pub fn of<'a>(sets: impl IntoIterator<Item = &'a Set>) -> Option<Compact> {
        let all: Set = sets.into_iter().flatten().copied().collect();
        if all.len() > 128 {
            return None;
        }
        Some(Compact {
            ids: all.into_iter().collect(),
        })
    }
    pub fn pack(&self, s: &Set) -> u128 {
        s.iter()
            .map(|x| 1u128 << self.ids.binary_search(x).unwrap())
            .fold(0, |a, b| a | b)
    }
    pub fn unpack(&self, m: u128) -> Set {
        (0..self.ids.len())
            .filter(|b| m >> b & 1 == 1)
            .map(|b| self.ids[b])
            .collect()
    }
}
pub const TR_LIMIT: usize = 4000;
pub fn tr(family: &BTreeSet<Set>) -> Option<BTreeSet<Set>> {
    let c = Compact::of(family)?;
    let packed: Vec<u128> = family.iter().map(|s| c.pack(s)).collect();
    Some(
        fmodel::transversals(&packed, TR_LIMIT)?
            .into_iter()
            .map(|m| c.unpack(m))
            .collect(),
    )
}
pub fn minus(a: &Set, b: &Set) -> Set {
    a.difference(b).copied().collect()
}
fn drop_one(s: &Set, x: usize) -> Set {
    let mut s = s.clone();
    s.remove(&x);
    s
}
/// Is `family` exactly the set of minimal quorums? Sound and complete at any size:
/// every member is a quorum without a smaller one inside, and every minimal set hitting all
/// members leaves no quorum behind (a missing minimal quorum would survive one of them).
/// `Ok(None)`: too many hitting sets to decide.
pub fn certify_minimal_quorums(
    net: &Net,
    family: &BTreeSet<Set>,
) -> Result<Option<BTreeSet<Set>>, Violation> {
    for q in family {
        ensure!(net.is_quorum(q), "{:?} is listed but is not a quorum", q);
        for &x in q {
            let g = net.greatest_quorum(&drop_one(q, x));
            ensure!(
                g.is_empty(),
                "{:?} is listed but contains the smaller quorum {:?}",
                q,
                g
            );
        }
    }
    let Some(hitting) = tr(family) else {
        return Ok(None);
    };
    let all = net.all();
    for h in &hitting {
        let g = net.greatest_quorum(&minus(&all, h));
        ensure!(
            g.is_empty(),
            "a minimal quorum inside {:?} is missing from the result",
            g
        );
    }
    Ok(Some(hitting))
}
/// Is `family` exactly the set of minimal blocking sets (of an FBAS with quorums)?
pub fn certify_minimal_blocking_sets(
    net: &Net,
    family: &BTreeSet<Set>,
) -> Result<Option<()>, Violation> {
    let all = net.all();
    for b in family {
        let g = net.greatest_quorum(&minus(&all, b));
        ensure!(
            g.is_empty(),
            "{:?} is listed but does not block the quorum {:?}",
            b,
            g
        );
        for &x in b {
            let g = net.greatest_quorum(&minus(&all, &drop_one(b, x)));
            ensure!(
                !g.is_empty(),
                "{:?} is listed but blocks without {} as well",
                b,
                x
            );
        }
    }
    let Some(hitting) = tr(family) else {
        return Ok(None);
    };
    for h in &hitting {
        ensure!(
            !net.greatest_quorum(h).is_empty(),
            "a minimal blocking set avoiding {:?} is missing from the result",
            h
        );
    }
    Ok(Some(()))
}
pub fn splitting_sets_by_definition(mq: &BTreeSet<Set>) -> BTreeSet<Set> {
    let c = Compact::of(mq).expect("too many nodes");
    let v: Vec<u128> = mq.iter().map(|s| c.pack(s)).collect();
    let mut inter: Vec<u128> = vec![];
    let mut disjoint = v.is_empty();
    for (i, a) in v.iter().enumerate() {
        for b in &v[i + 1..] {
            disjoint |= a & b == 0;
            inter.push(a & b);
        }
    }
    if disjoint {
        return std::iter::once(Set::new()).collect();
    }
    inter.sort_by_key(|m| (m.count_ones(), *m));
    inter.dedup();
    let mut out: Vec<u128> = vec![];
    for m in inter {
        if !out.iter().any(|o| o & m == *o) {
            out.push(m);
        }
    }
    out.into_iter().map(|m| c.unpack(m)).collect()
}
/// FBASs beyond enumeration, whose results are judged by certificate.
pub fn large_net(case: &mut Case) -> Net {
    let net = fmodel::gen::large(&mut case.rng);
    seen_large(case, &net);
    net
}
/// The same, or one with few but large minimal quorums.
pub fn large_or_wide_net(case: &mut Case) -> Net {
    let net = if case.rng.chance(1, 4) {
        fmodel::gen::wide(&mut case.rng)
    } else {
        fmodel::gen::large(&mut case.rng)
    };
    seen_large(case, &net);
    net
}
fn seen_large(case: &mut Case, net: &Net) {
    case.input(net.show());
    case.count(&format!("family {}", net.kind));
    if net.n() > 64 {
        case.count("more than 64 nodes");
    }
}

pub fn by_size(family: &BTreeSet<Set>) -> Vec<&Set> {
    let mut v: Vec<&Set> = family.iter().collect();
    v.sort_by_key(|s| s.len());
    v
}
pub fn map_set(s: &Set, perm: &[usize]) -> Set {
    s.iter().map(|&x| perm[x]).collect()
}
pub fn map_fam(f: &BTreeSet<Set>, perm: &[usize]) -> BTreeSet<Set> {
    f.iter().map(|s| map_set(s, perm)).collect()
}

/// An FBAS read from a stellarbeat.org file, in the model's terms.
pub fn net_from_json(text: &str) -> Net {
    let v: Value = fmodel::serde_json::from_str(text).unwrap();
    let nodes = v.as_array().unwrap();
    let pks: Vec<String> = nodes
        .iter()
        .map(|n| n["publicKey"].as_str().unwrap().to_string())
        .collect();
    let id: std::collections::HashMap<&str, usize> =
        pks.iter().enumerate().map(|(i, p)| (p.as_str(), i)).collect();
    fn q(v: &Value, id: &std::collections::HashMap<&str, usize>) -> Q {
        let mut out = Q {
            t: v["threshold"].as_u64().unwrap_or(0),
            ..Default::default()
        };
        for x in v["validators"].as_array().into_iter().flatten() {
            match id.get(x.as_str().unwrap()) {
                Some(&i) => out.v.push(i),
                None => out.u += 1,
            }
        }
        for x in v["innerQuorumSets"].as_array().into_iter().flatten() {
            out.i.push(q(x, id));
        }
        out
    }
    let qs = nodes.iter().map(|n| q(&n["quorumSet"], &id)).collect();
    Net {
        qs,
        kind: "real data".into(),
        pks: pks.clone(),
    }
}
pub fn real_nets() -> Vec<Net> {
    [
        "correct.json",
        "correct_trivial.json",
        "broken.json",
        "broken_trivial.json",
        "stellarbeat_nodes_2019-09-17.json",
        "stellarbeat_nodes_2020-01-16_broken_by_hand.json",
    ]
    .iter()
    .filter_map(|f| std::fs::read_to_string(format!("/repo/test_data/{}", f)).ok())
    .map(|t| net_from_json(&t))
    .collect()
}

/// A random assignment of nodes to named groups: disjoint, some nodes in none.
pub fn random_groups(rng: &mut Rng, n: usize) -> Vec<Vec<usize>> {
    let k = rng.range(1, n.max(1));
    let mut groups: Vec<Vec<usize>> = vec![vec![]; k];
    let loners = rng.below(3);
    for x in 0..n {
        if loners == 0 || !rng.chance(1, 4) {
            groups[rng.below(k)].push(x);
        }
    }
    for g in groups.iter_mut() {
        rng.shuffle(g);
    }
    groups
}
pub fn groups_json(groups: &[Vec<usize>], pks: &[String]) -> Value {
    Value::Array(
        groups
            .iter()
            .enumerate()
            .map(|(i, g)| json!({"name": format!("group {}", i), "validators": g.iter().map(|&x| pks[x].clone()).collect::<Vec<_>>()}))
            .collect(),
    )
}
/// Merged ID of every node: the first listed member of its group, or itself.
pub fn merged_ids(groups: &[Vec<usize>], n: usize) -> Vec<usize> {
    let mut m: Vec<usize> = (0..n).collect();
    for g in groups {
        for &x in g {
            m[x] = g[0];
        }
    }
    m
}
/// A random family of node sets (with repetitions and supersets).
pub fn random_family(rng: &mut Rng, n: usize) -> Vec<Set> {
    let k = rng.below(9);
    let mut out: Vec<Set> = vec![];
    for _ in 0..k {
        if !out.is_empty() && rng.chance(1, 4) {
            let mut s: Set = rng.pick(&out).clone();
            match rng.below(3) {
                0 => {}
                1 => {
                    s.insert(rng.below(n));
                }
                _ => {
                    if let Some(&x) = s.iter().next() {
                        s.remove(&x);
                    }
                }
            }
            out.push(s);
            continue;
        }
        if rng.chance(1, 10) {
            // dense sets, up to the whole range
            let den = rng.range(1, 4);
            let skip = *rng.pick(&[0, 1, 1]);
            out.push((0..n).filter(|_| !rng.chance(skip, den + 1)).collect());
            continue;
        }
        let size = if rng.chance(1, 12) { 0 } else { rng.range(1, n.min(5)) };
        out.push((0..size).map(|_| rng.below(n)).collect());
    }
    out
}
pub fn bits(f: &[Set]) -> Vec<NodeIdSet> {
    f.iter().map(to_bits).collect()
}

/// What a graph links to, observed through a configurator that adopts all neighbours
/// (sorted; a node's link to itself cannot be told apart from the one the configurator adds).
pub fn outlinks_of(graph: &simulation::Graph) -> Vec<Vec<usize>> {
    use simulation::qsc::AllNeighborsQsc;
    use simulation::QuorumSetConfigurator;
    let n = graph.number_of_nodes();
    let mut fbas = Fbas::new_generic_unconfigured(n);
    let qsc = AllNeighborsQsc::new_67p(graph.clone());
    (0..n)
        .map(|x| {
            qsc.configure(x, &mut fbas);
            let mut v = fbas.get_quorum_set(x).unwrap().validators;
            v.retain(|&y| y != x);
            v
        })
        .collect()
}
/// A random simple graph without links of nodes to themselves.
pub fn random_links(rng: &mut Rng, n: usize, undirected: bool) -> Vec<Vec<usize>> {
    let mut l: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    if n > 1 {
        let e = match rng.below(4) {
            0 => rng.below(n + 1),
            1 if n < 64 => rng.below(n * (n - 1) + 1),
            1 => rng.below(8 * n),
            _ => rng.below(3 * n),
        };
        for _ in 0..e {
            let (a, b) = (rng.below(n), rng.below(n));
            if a != b {
                l[a].insert(b);
                if undirected {
                    l[b].insert(a);
                }
            }
        }
    }
    l.into_iter()
        .map(|s| {
            let mut v: Vec<usize> = s.into_iter().collect();
            rng.shuffle(&mut v);
            v
        })
        .collect()
}
pub fn sorted_links(l: &[Vec<usize>]) -> Vec<Vec<usize>> {
    l.iter()
        .map(|v| {
            let mut v = v.clone();
            v.sort();
            v
        })
        .collect()
}
/// Quorum sets of all nodes, in the model's terms, exactly as stored.
pub fn stored(fbas: &Fbas) -> Vec<Q> {
    (0..fbas.number_of_nodes())
        .map(|x| from_qs(&fbas.get_quorum_set(x).unwrap()))
        .collect()
}
pub fn t67(n: usize) -> usize {
    n - (n - 1) / 3
}

/// How a run of one of the repository's tools went.
pub struct Run {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}
impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn show(&self) -> String {
        let tail = |s: &str| s.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect::<String>();
        format!("status {:?}, stdout ...{}, stderr ...{}", self.code, tail(&self.out), tail(&self.err))
    }
}
/// Runs a tool of the repository (built from the current tree) in the directory `dir`.
pub fn run_tool(tool: &str, args: &[String], stdin: Option<&[u8]>, dir: &std::path::Path) -> Run {
    run_tool_with(tool, args, stdin, dir, &[])
}
/// As `run_tool`, with (further) environment variables; the path given as `STDOUT` is where the output goes.
pub fn run_tool_with(tool: &str, args: &[String], stdin: Option<&[u8]>, dir: &std::path::Path, env: &[(&str, String)]) -> Run {
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};
    let path = if tool.starts_with('/') { tool.to_string() } else { format!("{}/{}", std::env::var("VERIF_BINS").expect("VERIF_BINS"), tool) };
    let mut child = Command::new(path)
        .args(args)
        .current_dir(dir)
        .env_remove("RUST_LOG")
        .env_remove("RUST_BACKTRACE")
        .envs(env.iter().map(|(k, v)| (k, v)))
        .stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(match env.iter().find(|(k, _)| *k == "STDOUT") {
            Some((_, p)) => Stdio::from(std::fs::OpenOptions::new().write(true).open(p).unwrap()),
            None => Stdio::piped(),
        })
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| panic!("cannot run {}: {}", tool, e));
    let (o, mut e) = (child.stdout.take(), child.stderr.take().unwrap());
    std::thread::scope(|s| {
        if let Some(data) = stdin {
            let mut i = child.stdin.take().unwrap();
            s.spawn(move || {
                let _ = i.write_all(data);
            });
        }
        let err = s.spawn(move || {
            let mut b = vec![];
            let _ = e.read_to_end(&mut b);
            b
        });
        let mut b = vec![];
        if let Some(mut o) = o {
            let _ = o.read_to_end(&mut b);
        }
        let err = err.join().unwrap();
        let st = child.wait().unwrap();
        Run {
            code: st.code(),
            out: String::from_utf8_lossy(&b).into_owned(),
            err: String::from_utf8_lossy(&err).into_owned(),
        }
    })
}
/// What happens to a run under `run_tool_faulty` (see harness/shim/faults.c).
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// Nothing; the file operations are only counted.
    None,
    /// At the n-th operation that changes a file below the directory: `kill`, `space`, `short` or `again`.
    At(&'static str, u64),
    /// Reads (below the directory and of standard input) are short and get interrupted.
    Dribble,
    /// The n-th read and all later ones fail.
    ReadError(u64),
    /// The n-th read fails.
    OneReadError(u64),
}
/// Runs a tool with the preloaded fault injector watching the files below `dir`. The numbers are those
/// of the file-changing operations and of the reads that it saw, the text lists the former.
pub fn run_tool_faulty(tool: &str, args: &[String], stdin: Option<&[u8]>, dir: &std::path::Path, log: &std::path::Path, fault: &Fault) -> (Run, u64, u64, String) {
    let lib = std::env::var("VERIF_FAULTS").expect("VERIF_FAULTS");
    let mut env = vec![
        ("LD_PRELOAD", lib),
        ("FAULT_DIR", dir.to_str().unwrap().to_string()),
        ("FAULT_LOG", log.to_str().unwrap().to_string()),
        ("FAULT_STDIN", "1".to_string()),
        ("FAULT_STDOUT", "1".to_string()),
    ];
    match fault {
        Fault::None => {}
        Fault::At(kind, n) => {
            env.push(("FAULT_KIND", kind.to_string()));
            env.push(("FAULT_AT", n.to_string()));
        }
        Fault::Dribble => env.push(("FAULT_READ", "dribble".into())),
        Fault::OneReadError(n) => env.push(("FAULT_READ", format!("-{}", n))),
        Fault::ReadError(n) => env.push(("FAULT_READ", n.to_string())),
    }
    let _ = std::fs::remove_file(log);
    let r = run_tool_with(tool, args, stdin, dir, &env);
    let text = std::fs::read_to_string(log).unwrap_or_default();
    let _ = std::fs::remove_file(log);
    let mut lines = text.splitn(2, '\n');
    let mut n = lines.next().unwrap_or("").split(' ').map(|x| x.parse().unwrap_or(0));
    (r, n.next().unwrap_or(0), n.next().unwrap_or(0), lines.next().unwrap_or("").to_string())
}
pub fn args(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}
/// [#sets, #distinct nodes, [min, max, mean], histogram]
pub fn describes(v: &Value, f: &[Set]) -> bool {
    let sizes: Vec<usize> = f.iter().map(|s| s.len()).collect();
    let max = sizes.iter().max().copied().unwrap_or(0);
    let hist: Vec<usize> = (0..=max).map(|k| sizes.iter().filter(|&&s| s == k).count()).collect();
    let nodes: Set = f.iter().flatten().copied().collect();
    v[0] == json!(f.len())
        && v[1] == json!(nodes.len())
        && v[2][0] == json!(sizes.iter().min().copied().unwrap_or(0))
        && v[2][1] == json!(max)
        && (v[2][2].as_f64().unwrap_or(-1.0) - mean(f)).abs() < 1e-9
        && v[3] == json!(hist)
}
pub fn mean(f: &[Set]) -> f64 {
    if f.is_empty() {
        0.0
    } else {
        f.iter().map(|s| s.len()).sum::<usize>() as f64 / f.len() as f64
    }
}
/// A node document with ISP and country fields, and an organisations document: (document text,
/// ISPs, countries, organisations text, organisations); groups are (name, members).
pub type Named = Vec<(String, Vec<usize>)>;
pub struct GroupedDocs {
    pub nodes: Value,
    pub isps: Named,
    pub countries: Named,
    pub orgs_doc: Value,
    pub orgs: Named,
}
pub fn grouped_docs(rng: &mut Rng, net: &Net) -> GroupedDocs {
    let n = net.n();
    let mut nodes = net_json(net);
    // names that need care in JSON, in a table, or when they are cut or normalised
    let odd = |rng: &mut Rng| rng.pick(&["", "", "", "\"q\" ", "back\\slash ", "é日 ", "A.b.", "<&> ", "x;y ", " ", "'", "%0A", "[0] "]).to_string();
    let mut some = |field: &str, rng: &mut Rng| -> Named {
        let mut g = random_groups(rng, n);
        g.retain(|m| !m.is_empty());
        g.iter_mut().for_each(|m| m.sort());
        g.into_iter()
            .enumerate()
            .map(|(i, m)| {
                let name = format!("{}{} {}", odd(rng), field, i);
                for &x in &m {
                    if field == "isp" {
                        nodes[x]["isp"] = json!(name);
                    } else {
                        nodes[x]["geoData"] = json!({ "countryName": name, "countryCode": "XX" });
                    }
                }
                (name, m)
            })
            .collect()
    };
    let isps = if rng.chance(1, 5) { vec![] } else { some("isp", rng) };
    let countries = if rng.chance(1, 5) { vec![] } else { some("country", rng) };
    let mut g = random_groups(rng, n);
    g.retain(|m| !m.is_empty());
    let orgs: Named = g.into_iter().enumerate().map(|(i, m)| (format!("{}{}org {}", odd(rng), if rng.chance(1, 6) { "a, b, " } else { "" }, i), m)).collect();
    let orgs_doc = Value::Array(
        orgs.iter()
            .map(|(name, m)| json!({"name": name, "validators": m.iter().map(|&x| net.pks[x].clone()).collect::<Vec<_>>()}))
            .collect(),
    );
    GroupedDocs { nodes, isps, countries, orgs_doc, orgs }
}
pub fn merged_by(groups: &Named, n: usize) -> Vec<usize> {
    merged_ids(&groups.iter().map(|g| g.1.clone()).collect::<Vec<_>>(), n)
}
pub fn display_names(groups: &Named, net: &Net) -> Vec<String> {
    let mut v = net.pks.clone();
    for (name, m) in groups {
        for &x in m {
            v[x] = name.clone();
        }
    }
    v
}
/// SHA3-256, written from the specification.
pub fn sha3_256(data: &[u8]) -> String {
    fn keccak(s: &mut [u64; 25]) {
        let mut lfsr = 1u8;
        for _ in 0..24 {
            let c: Vec<u64> = (0..5).map(|x| (0..5).map(|y| s[x + 5 * y]).fold(0, |a, b| a ^ b)).collect();
            for x in 0..5 {
                let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                for y in 0..5 {
                    s[x + 5 * y] ^= d;
                }
            }
            let (mut x, mut y) = (1usize, 0usize);
            let mut cur = s[x + 5 * y];
            for t in 0..24u32 {
                let ny = (2 * x + 3 * y) % 5;
                x = y;
                y = ny;
                let next = s[x + 5 * y];
                s[x + 5 * y] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
                cur = next;
            }
            for y in 0..5 {
                let row: Vec<u64> = (0..5).map(|x| s[x + 5 * y]).collect();
                for x in 0..5 {
                    s[x + 5 * y] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
                }
            }
            for j in 0..7u32 {
                if lfsr & 1 == 1 {
                    s[0] ^= 1u64 << ((1u32 << j) - 1);
                }
                lfsr = (lfsr << 1) ^ if lfsr & 0x80 != 0 { 0x71 } else { 0 };
            }
        }
    }
    let mut msg = data.to_vec();
    msg.push(6);
    while msg.len() % 136 != 0 {
        msg.push(0);
    }
    *msg.last_mut().unwrap() |= 0x80;
    let mut s = [0u64; 25];
    for block in msg.chunks(136) {
        for (i, w) in block.chunks(8).enumerate() {
            s[i] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        keccak(&mut s);
    }
    s[..4].iter().flat_map(|w| w.to_le_bytes()).map(|b| format!("{:02x}", b)).collect()
}
#[cfg(test)]
#[test]
fn sha3_of_nothing_and_more() {
    assert_eq!(sha3_256(b""), "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a");
    assert_eq!(sha3_256(b"abc"), "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532");
    let long = vec![b'a'; 1000];
    assert_eq!(sha3_256(&long), "8f3934e6f7a15698fe0f396b95d8c4440929a8fa6eae140171c068b4549fbf81");
}

/// Rows of a CSV document as maps from column name to text.
pub type Row = std::collections::BTreeMap<String, String>;
/// Without empty lines, which readers of such tables skip, and with an end to the last line.
pub fn tidy(text: &str) -> String {
    text.lines().filter(|l| !l.is_empty()).map(|l| format!("{}\n", l)).collect()
}
pub fn csv(text: &str) -> Result<Vec<Row>, Violation> {
    let mut rows: Vec<Vec<String>> = vec![];
    let (mut row, mut cell, mut quoted, mut any) = (vec![], String::new(), false, false);
    let mut it = text.chars().peekable();
    while let Some(ch) = it.next() {
        any = true;
        match ch {
            '"' if quoted && it.peek() == Some(&'"') => {
                it.next();
                cell.push('"');
            }
            '"' => quoted = !quoted,
            ',' if !quoted => row.push(std::mem::take(&mut cell)),
            '\n' if !quoted => {
                row.push(std::mem::take(&mut cell));
                rows.push(std::mem::take(&mut row));
                any = false;
            }
            '\r' if !quoted => {}
            c => cell.push(c),
        }
    }
    ensure!(!any && !quoted, "the table ends in the middle of a row: {:?}", text.chars().rev().take(80).collect::<String>());
    if rows.is_empty() {
        return Ok(vec![]);
    }
    let head = rows.remove(0);
    rows.into_iter()
        .map(|r| {
            ensure!(r.len() == head.len(), "a row of {} cells under {} columns: {:?}", r.len(), head.len(), r);
            Ok(head.iter().cloned().zip(r).collect())
        })
        .collect()
}
/// The given row without what legitimately differs between runs.
pub fn timeless(row: &Row) -> Row {
    row.iter().filter(|(k, _)| !k.contains("duration")).map(|(k, v)| (k.clone(), v.clone())).collect()
}
fn cell_is(row: &Row, col: &str, want: f64) -> Verdict {
    let got = row.get(col).ok_or_else(|| Violation::from(format!("no column {}", col)))?;
    ensure!(
        got.parse::<f64>().map_or(false, |g| (g - want).abs() < 1e-9),
        "column {} of {:?} is {:?} instead of {}",
        col,
        row.get("label"),
        got,
        want
    );
    Ok(())
}
fn sizes_are(row: &Row, prefix: &str, f: &[Set]) -> Verdict {
    let sizes: Vec<usize> = f.iter().map(|s| s.len()).collect();
    cell_is(row, &format!("{}_min", prefix), sizes.iter().min().copied().unwrap_or(0) as f64)?;
    cell_is(row, &format!("{}_max", prefix), sizes.iter().max().copied().unwrap_or(0) as f64)?;
    cell_is(row, &format!("{}_mean", prefix), mean(f))
}
pub struct BulkInput {
    pub label: String,
    pub net: Net,
    pub truth: Truth,
    pub docs: GroupedDocs,
    pub with_orgs: bool,
}
/// Judges one row of the bulk analysis by definition.
pub fn bulk_row(row: &Row, i: &BulkInput, case: &mut Case) -> Verdict {
    ensure!(row.get("label") == Some(&i.label), "row {:?} where {:?} is expected", row.get("label"), i.label);
    let n = i.net.n();
    let t = &i.truth;
    ensure!(
        row.get("has_quorum_intersection") == Some(&t.qi.to_string()),
        "{}: has_quorum_intersection is {:?}",
        i.label,
        row.get("has_quorum_intersection")
    );
    let list = |f: &BTreeSet<Set>| -> Vec<Set> { f.iter().cloned().collect() };
    let groupings: [(&str, Option<&Named>); 4] = [
        ("", None),
        ("orgs_", Some(&i.docs.orgs).filter(|_| i.with_orgs)),
        ("isps_", Some(&i.docs.isps).filter(|g| !g.is_empty())),
        ("ctries_", Some(&i.docs.countries).filter(|g| !g.is_empty())),
    ];
    for (prefix, groups) in groupings {
        if groups.is_none() && !prefix.is_empty() {
            for (k, v) in row.iter().filter(|(k, _)| k.starts_with(prefix)) {
                ensure!(v.is_empty(), "{}: column {} is {:?} without such groups", i.label, k, v);
            }
            case.count("rows without some grouping");
            continue;
        }
        let m = groups.map(|g| merged_by(g, n));
        let merge = |f: Vec<Set>| -> Vec<Set> {
            match &m {
                Some(m) => fmodel::net::minimal_sets(&f.iter().map(|s| map_set(s, m)).collect::<Vec<_>>()).into_iter().collect(),
                None => f,
            }
        };
        let top = m.as_ref().map_or(t.top.clone(), |m| map_set(&t.top, m));
        cell_is(row, &format!("{}top_tier_size", prefix), top.len() as f64)?;
        sizes_are(row, &format!("{}mq", prefix), &merge(list(&t.mq)))?;
        sizes_are(row, &format!("{}mss", prefix), &merge(list(&t.mss)))?;
        if !t.mq.is_empty() {
            sizes_are(row, &format!("{}mbs", prefix), &merge(list(&t.mbs)))?;
        }
        if m.is_some() {
            case.count("grouped columns judged");
        }
    }
    let fbas = Fbas::from_json_str(&i.docs.nodes.to_string());
    let hash = sha3_256(fbas.to_standard_form().to_json_string().as_bytes());
    ensure!(row.get("standard_form_hash") == Some(&hash), "{}: hash {:?} instead of {}", i.label, row.get("standard_form_hash"), hash);
    for (k, v) in row.iter().filter(|(k, _)| k.contains("duration")) {
        ensure!(v.parse::<f64>().map_or(false, |x| x >= 0.0), "{}: {} is {:?}", i.label, k, v);
    }
    case.count("rows judged");
    Ok(())
}
pub const BULK_COLUMNS: usize = 12 + 30 + 1 + 4;
/// A few networks with labels, and the files that describe them: (inputs in label order, paths).
pub fn bulk_inputs(case: &mut Case, k: usize, dir: &std::path::Path, ignore: &str) -> Option<(Vec<BulkInput>, Vec<String>)> {
    let mut inputs: Vec<BulkInput> = vec![];
    let mut paths: Vec<String> = vec![];
    let mut shown = String::new();
    let mut labels = BTreeSet::new();
    while labels.len() < k {
        if !labels.is_empty() && case.rng.chance(1, 6) {
            // a label that is close to another one
            let all: Vec<&String> = labels.iter().collect();
            let l = case.rng.pick(&all).to_string();
            let near = match case.rng.below(6) {
                0 => format!("{} ", l),
                1 => format!(" {}", l),
                2 => l.to_uppercase(),
                3 => l.chars().skip(1).collect(),
                4 => format!("{}0", l),
                _ => l.chars().take(l.chars().count() - 1).collect(),
            };
            if !near.is_empty() && !near.contains('_') && ![ignore, "nodes", "organizations"].contains(&near.as_str()) {
                labels.insert(near);
                case.count("labels close to another one");
            }
            continue;
        }
        labels.insert(match case.rng.below(7) {
            6 => {
                case.count("unusual labels");
                case.rng.pick(&["say \"x\"", "two words", " lead", "trail ", "é", "#7", "007", "7", "1e5", "NaN", "true", "a__b", "a_b", "_a", "a.b", "-x", "A", "a", "=1+1", "'", "日本", "x;y", "\tz", "%41", "looong"])
                    .to_string()
                    .replace("ooo", &"o".repeat(150))
            }
            5 => case.rng.pick(&["nodesets", "a_nodes2", "Nodes", "nodes-x", "prenodes_1", "orgs_nodesets", "xyz2", "stellarbeats"]).to_string(),
            0 => format!("2020-{:02}-{:02}", case.rng.range(1, 12), case.rng.range(1, 28)),
            1 => format!("v{}_x", case.rng.below(50)),
            2 => format!("{}", case.rng.below(30)),
            3 => format!("A,{}", case.rng.below(30)),
            _ => format!("net{}", case.rng.below(1000)),
        });
    }
    for label in labels {
        let (net, truth) = if !inputs.is_empty() && case.rng.chance(1, 5) {
            // the same network with its nodes listed in another order
            let first = &inputs[0].net;
            let perm = case.rng.perm(first.n());
            let net = first.renamed(&perm);
            let truth = Truth::of_up_to(&net, 13)?;
            case.count("the same network in another order");
            (net, truth)
        } else {
            loop {
                if let Some(x) = small_net(case) {
                    break x;
                }
            }
        };
        let mut net = net;
        if case.rng.chance(1, 4) {
            net.pks = fmodel::gen::odd_pks(&mut case.rng, net.n());
            case.count("networks with unusual keys");
        }
        let docs = grouped_docs(&mut case.rng, &net);
        let with_orgs = case.rng.chance(1, 2);
        // the label is what remains of the file name without these words
        let name = |word: &str, rng: &mut Rng| -> String {
            let mut parts: Vec<String> = label.split('_').map(|s| s.to_string()).collect();
            if rng.chance(1, 2) && !ignore.is_empty() {
                parts.insert(rng.below(parts.len() + 1), ignore.to_string());
            }
            if word == "organizations" || rng.chance(3, 4) {
                parts.insert(rng.below(parts.len() + 1), word.to_string());
            }
            parts.join("_") + ".json"
        };
        let p = dir.join(name("nodes", &mut case.rng));
        std::fs::write(&p, docs.nodes.to_string()).unwrap();
        paths.push(p.to_str().unwrap().to_string());
        if with_orgs {
            let p = dir.join(name("organizations", &mut case.rng));
            std::fs::write(&p, docs.orgs_doc.to_string()).unwrap();
            paths.push(p.to_str().unwrap().to_string());
            case.count("organization files");
        }
        shown.push_str(&format!("{}: {} orgs {:?} isps {:?} countries {:?}; ", label, net.show(), docs.orgs, docs.isps, docs.countries));
        inputs.push(BulkInput { label, net, truth, docs, with_orgs });
    }
    case.rng.shuffle(&mut paths);
    case.input(shown);
    inputs.sort_by(|a, b| a.label.cmp(&b.label));
    Some((inputs, paths))
}
