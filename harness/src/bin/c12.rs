// needs: faults
use fmodel::serde_json;
use fmodel::serde_json::{json, Map, Value};
use vharness::*;

/// Renders a value with its object members in random order and random white space.
fn render(v: &Value, rng: &mut Rng, loose: bool) -> String {
    let ws = |rng: &mut Rng| if loose { *rng.pick(&["", " ", "\n", "\t ", "  "]) } else { "" };
    match v {
        Value::Array(a) => {
            let mut s = format!("[{}", ws(rng));
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    s.push_str(&format!(",{}", ws(rng)));
                }
                s.push_str(&render(x, rng, loose));
                s.push_str(ws(rng));
            }
            s.push(']');
            s
        }
        Value::Object(o) => {
            let mut keys: Vec<&String> = o.keys().collect();
            rng.shuffle(&mut keys);
            let mut s = format!("{{{}", ws(rng));
            for (i, k) in keys.iter().enumerate() {
                if i > 0 {
                    s.push_str(&format!(",{}", ws(rng)));
                }
                s.push_str(&format!("{}{}:{}{}", Value::String(k.to_string()), ws(rng), ws(rng), render(&o[*k], rng, loose)));
            }
            s.push('}');
            s
        }
        Value::String(t) if loose && rng.chance(1, 5) => {
            // the same string, every character escaped
            let mut s = String::from("\"");
            for u in t.encode_utf16() {
                s.push_str(&format!("\\u{:04x}", u));
            }
            s.push('"');
            s
        }
        _ => v.to_string(),
    }
}
fn extras(o: &mut Map<String, Value>, rng: &mut Rng, node: bool) {
    for _ in 0..rng.below(3) {
        let (k, v): (&str, Value) = match rng.below(6) {
            0 => ("hashKey", json!("abc")),
            1 => ("activeInScp", json!(true)),
            2 => ("statistics", json!({"threshold": 7, "validators": ["x"], "list": [1, 2.5, null]})),
            3 => ("index", json!(-0.25)),
            4 => ("quorumSetHash", Value::Null),
            _ => ("innerquorumsets", json!([[], {}])),
        };
        o.insert(k.into(), v);
    }
    if node && rng.chance(1, 3) {
        o.insert("isp".into(), json!("Hetzner, Inc."));
    }
    if node && rng.chance(1, 3) {
        o.insert("geoData".into(), json!({"countryName": "Utopia", "latitude": 1.5}));
    }
}
fn q_value(q: &Q, net: &Net, unknown: &[String], rng: &mut Rng) -> Value {
    let mut v: Vec<Value> = q.v.iter().map(|&x| json!(net.pks[x])).collect();
    for _ in 0..q.u {
        let at = rng.below(v.len() + 1);
        v.insert(at, json!(rng.pick(unknown)));
    }
    rng.shuffle(&mut v);
    let mut i: Vec<Value> = q.i.iter().map(|x| q_value(x, net, unknown, rng)).collect();
    rng.shuffle(&mut i);
    let mut o = Map::new();
    o.insert("threshold".into(), json!(q.t));
    o.insert("validators".into(), Value::Array(v));
    if !i.is_empty() || rng.chance(1, 2) {
        o.insert("innerQuorumSets".into(), Value::Array(i));
    }
    extras(&mut o, rng, false);
    Value::Object(o)
}
fn value(net: &Net, unknown: &[String], rng: &mut Rng) -> Value {
    Value::Array(
        (0..net.n())
            .map(|x| {
                let mut o = Map::new();
                o.insert("publicKey".into(), json!(net.pks[x]));
                let blank = net.qs[x] == Q::default();
                if !blank || rng.chance(1, 2) {
                    o.insert("quorumSet".into(), q_value(&net.qs[x], net, unknown, rng));
                }
                extras(&mut o, rng, true);
                Value::Object(o)
            })
            .collect(),
    )
}
fn generated(case: &mut Case) -> (Net, Vec<String>) {
    let max_n = case.rng.range(1, 12);
    let mut net = fmodel::gen::any(&mut case.rng, &fmodel::gen::Opts { max_n, pad: 20, ..Default::default() });
    if case.rng.chance(1, 400) {
        // IDs beyond a byte, in quorum sets of up to several hundred members
        for _ in 0..case.rng.range(130, 700) {
            let ids: Vec<usize> = (0..net.n() + 1).collect();
            let k = if case.rng.chance(1, 20) { case.rng.range(1, ids.len()) } else { case.rng.below(5).min(ids.len()) };
            let v = case.rng.sample(&ids, k);
            net.qs.push(Q::flat(k as u64 / 2, v));
        }
        net.pks = vec![String::new(); net.qs.len()];
        let (x, y) = (case.rng.below(net.n()), case.rng.below(net.n()));
        if !net.qs[x].v.contains(&y) {
            net.qs[x].v.push(y);
        }
        case.count("documents of more than 130 nodes");
    }
    let mut pks = fmodel::gen::odd_pks(&mut case.rng, net.n() + 3);
    let unknown = pks.split_off(net.n());
    net.pks = pks;
    fn sprinkle(q: &mut Q, rng: &mut Rng) {
        if rng.chance(1, 6) {
            q.u += 1;
        }
        for x in q.i.iter_mut() {
            sprinkle(x, rng);
        }
    }
    if case.rng.chance(1, 2) {
        for x in 0..net.n() {
            sprinkle(&mut net.qs[x], &mut case.rng);
        }
        case.count("with validators that do not exist");
    }
    case.input(net.show());
    (net, unknown)
}
fn means(fbas: &Fbas, net: &Net, unknown: &[String]) -> Verdict {
    ensure!(fbas.number_of_nodes() == net.n(), "{} nodes instead of {}", fbas.number_of_nodes(), net.n());
    ensure!(to_set(&fbas.all_nodes()) == net.all(), "all nodes {:?}", fbas.all_nodes());
    for x in 0..net.n() {
        ensure!(
            fbas.get_node_id(&net.pks[x]) == Some(x),
            "public key {:?} has ID {:?} instead of {}", net.pks[x], fbas.get_node_id(&net.pks[x]), x
        );
        let q = fbas.get_quorum_set(x).map(|q| from_qs(&q).norm());
        ensure!(q == Some(net.qs[x].norm()), "quorum set of node {}: {:?} instead of {:?}", x, q, net.qs[x].norm());
    }
    for u in unknown {
        ensure!(fbas.get_node_id(u).is_none(), "{:?} is known", u);
    }
    ensure!(fbas.get_quorum_set(net.n()).is_none(), "there is a node too many");
    Ok(())
}
fn absent(q: &mut Q, n: usize, rng: &mut Rng) {
    if rng.chance(1, 2) {
        q.v.push(n + rng.range(3, 80));
    }
    for x in q.i.iter_mut() {
        absent(x, n, rng);
    }
}
fn refused(text: &str) -> bool {
    fmodel::guarded(|| Fbas::from_json_str(text)).is_err()
}
fn main() {
    // run as a child: reads an FBAS and prints it
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 && a[1] == "read" {
        let fbas = if a[2] == "-" { Fbas::from_json_stdin() } else { Fbas::from_json_file(std::path::Path::new(&a[2])) };
        println!("{}", fbas.to_json_string());
        return;
    }
    let mut c = Check::start("C12", "exploration",
        "generated FBASs with unusual public keys written as JSON in random layout (member order, white space, escapes, extra fields, absent optional fields), read back and written again, plus cut and corrupted documents; non-trivial = at least one quorum set with members; distinct by document");
    c.cases("read and write", 60000, 1500000, |case| {
        let (net, unknown) = generated(case);
        let v = value(&net, &unknown, &mut case.rng);
        let text = render(&v, &mut case.rng, true);
        if net.qs.iter().any(|q| q.members() > 0) {
            case.nontrivial(&text);
        }
        let fbas = Fbas::from_json_str(&text);
        means(&fbas, &net, &unknown)?;
        case.count("documents read");
        // the layout of the document does not matter
        let mut net2 = net.clone();
        for q in net2.qs.iter_mut() {
            *q = q.shuffled(&mut case.rng);
        }
        let v2 = value(&net2, &unknown, &mut case.rng);
        let fbas2 = Fbas::from_json_str(&render(&v2, &mut case.rng, false));
        ensure!(fbas2 == fbas, "two layouts of one FBAS are read as different FBASs");
        // writing and reading again
        let outs = [
            fbas.to_json_string(),
            fbas.to_json_string_pretty(),
            format!("{}", fbas),
            serde_json::to_string(&fbas).unwrap(),
            serde_json::to_value(&fbas).unwrap().to_string(),
        ];
        for (i, out) in outs.iter().enumerate() {
            let back = Fbas::from_json_str(out);
            ensure!(back == fbas, "writing (way {}) and reading gives another FBAS: {}", i, out);
            means(&back, &net, &unknown)?;
            // judged by an independent reader as well
            let m = net_from_json(out);
            ensure!(m.pks == net.pks, "written public keys {:?}", m.pks);
            for x in 0..net.n() {
                ensure!(m.qs[x].u == 0 && m.qs[x].norm() == net.qs[x].norm(), "written quorum set {}", m.qs[x].show());
            }
            ensure!(back.to_json_string() == outs[0], "writing is not stable");
            case.count("documents written and read back");
        }
        // an FBAS that differs in one place is a different one, and is written differently
        if net.n() > 0 {
            let mut other = net.clone();
            let x = case.rng.below(net.n());
            other.qs[x].t = other.qs[x].t.wrapping_add(1);
            let f = build_json(&other);
            ensure!(f != fbas && f.to_json_string() != outs[0], "a changed threshold goes unnoticed");
        }
        Ok(())
    });
    c.cases("changed after reading", 20000, 400000, |case| {
        // FBASs that are read, extended and reconfigured are written as they are
        let (mut net, _) = generated(case);
        for q in net.qs.iter_mut() {
            *q = q.rename(&Some).norm();
        }
        let mut fbas = build_json(&net);
        let mut strangers = false;
        for _ in 0..case.rng.range(1, 6) {
            let n = net.n();
            let depth = case.rng.below(3);
            if case.rng.chance(1, 3) {
                let ids: Vec<usize> = (0..=n).collect();
                let q = fmodel::gen::random_q(&mut case.rng, &ids, depth, true, false).norm();
                if net.pks.contains(&format!("n{}", n)) {
                    ensure!(fmodel::guarded(|| fbas.clone().add_generic_node(to_qs(&q))).is_err(), "a second node n{} is accepted", n);
                    case.count("duplicate names refused");
                    continue;
                }
                let id = fbas.add_generic_node(to_qs(&q));
                ensure!(id == n, "new node gets ID {}", id);
                net.pks.push(format!("n{}", n));
                net.qs.push(q);
            } else {
                let ids: Vec<usize> = (0..n).collect();
                let x = case.rng.below(n);
                let mut q = fmodel::gen::random_q(&mut case.rng, &ids, depth, true, false).norm();
                if case.rng.chance(1, 4) {
                    // members with IDs that do not exist (yet)
                    absent(&mut q, n, &mut case.rng);
                    q = q.norm();
                    case.count("members with unknown IDs");
                    strangers = true;
                }
                let old = from_qs(&fbas.swap_quorum_set(x, to_qs(&q)));
                ensure!(old.norm() == net.qs[x].norm(), "swapping hands out {}", old.show());
                net.qs[x] = q;
            }
            case.count("changes made");
        }
        case.nontrivial(&net.qs);
        let back = Fbas::from_json_str(&fbas.to_json_string());
        if strangers {
            let known = net.n();
            for q in net.qs.iter_mut() {
                *q = q.rename(&|x| Some(x).filter(|&x| x < known)).norm();
            }
            return means(&back, &net, &[]);
        }
        ensure!(back == fbas, "writing and reading gives another FBAS: {} vs {}", back.to_json_string(), fbas.to_json_string());
        means(&back, &net, &[])
    });
    let strict = Scratch::new("c12-strict");
    c.cases("refused", 3000, 60000, |case| {
        let (net, unknown) = generated(case);
        if net.n() == 0 {
            return Ok(());
        }
        let v = value(&net, &unknown, &mut case.rng);
        let text = render(&v, &mut case.rng, true);
        for _ in 0..12 {
            let mut cut = case.rng.below(text.len());
            while !text.is_char_boundary(cut) {
                cut -= 1;
            }
            ensure!(refused(&text[..cut]), "a document cut off after {} of {} bytes is accepted", cut, text.len());
            case.count("cut documents refused");
        }
        let rest = ["]", "}", ",", ";", "x", "[]", "{}", "null", "0", "\"\"", "// end", "\u{0}", "\u{feff}"];
        for rest in rest.iter().map(|s| s.to_string()).chain([text.clone()]) {
            let gap = *case.rng.pick(&["", "\n", " ", "\n\n"]);
            ensure!(refused(&format!("{}{}{}", text, gap, rest)), "a document followed by {:?} is accepted", rest);
            ensure!(refused(&format!("{}{}{}", rest, gap, text)), "a document preceded by {:?} is accepted", rest);
            case.add("corrupted documents refused", 2);
        }
        if case.index % 8 == 0 {
            // files are read to their end, too
            let path = strict.path(&format!("{}.json", case.index));
            let mut broken = vec![format!("{}\n{}", text, text), text[..text.len() - 1].to_string()];
            for rest in rest {
                broken.push(format!("{}{}", text, rest));
                broken.push(format!("{}{}", rest, text));
            }
            for b in broken {
                std::fs::write(&path, &b).unwrap();
                ensure!(fmodel::guarded(|| Fbas::from_json_file(&path)).is_err(), "a damaged file is accepted: {:?}", b);
                case.count("damaged files refused");
            }
            let mut bytes = text.clone().into_bytes();
            let at = bytes.iter().position(|&b| b == b'"').unwrap() + 1;
            bytes.insert(at, 0xff);
            std::fs::write(&path, &bytes).unwrap();
            ensure!(fmodel::guarded(|| Fbas::from_json_file(&path)).is_err(), "a file that is no UTF-8 is accepted");
            std::fs::remove_file(&path).unwrap();
        }
        let x = case.rng.below(net.n());
        for bad in [json!(-1), json!("2"), json!(1.5), json!([2]), Value::Null] {
            let mut w = v.clone();
            w[x]["quorumSet"] = json!({"threshold": bad, "validators": [net.pks[0]]});
            ensure!(refused(&w.to_string()), "the threshold {} is accepted", bad);
            case.count("corrupted documents refused");
        }
        for bad in [json!({}), json!({"quorumSet": {"threshold": 1, "validators": []}}), json!({"publicKey": 7}), json!(3)] {
            let mut w = v.clone();
            w[x] = bad.clone();
            ensure!(refused(&w.to_string()), "the node {} is accepted", bad);
            case.count("corrupted documents refused");
        }
        for bad in [json!("n0"), json!([1]), json!({"n0": 1})] {
            let mut w = v.clone();
            w[x]["quorumSet"] = json!({"threshold": 1, "validators": bad});
            ensure!(refused(&w.to_string()), "the validators {} are accepted", bad);
            case.count("corrupted documents refused");
        }
        case.nontrivial(&text);
        Ok(())
    });
    let scratch = Scratch::new("c12");
    c.cases("files", 400, 4000, |case| {
        let (net, unknown) = generated(case);
        let text = render(&value(&net, &unknown, &mut case.rng), &mut case.rng, true);
        let path = scratch.path(&format!("{}.json", case.index));
        std::fs::write(&path, &text).unwrap();
        let fbas = Fbas::from_json_file(&path);
        ensure!(fbas == Fbas::from_json_str(&text), "the file is read differently");
        means(&fbas, &net, &unknown)?;
        std::fs::remove_file(&path).unwrap();
        ensure!(fmodel::guarded(|| Fbas::from_json_file(&path)).is_err(), "a missing file is accepted");
        case.nontrivial(&text);
        case.count("files read");
        Ok(())
    });
    let me = std::env::current_exe().unwrap().to_str().unwrap().to_string();
    // files and standard input, whole or damaged, in one piece or in many
    c.cases("standard input", 500, 5000, |case| {
        let dir = Scratch::new(&format!("c12-i{}", case.index));
        let (net, unknown) = generated(case);
        let text = render(&value(&net, &unknown, &mut case.rng), &mut case.rng, true);
        let path = dir.path("n.json");
        let log = dir.path("log");
        let from = |text: &[u8], stdin: bool, fault: &Fault| {
            std::fs::write(&path, text).unwrap();
            let a = args(&["read", if stdin { "-" } else { path.to_str().unwrap() }]);
            run_tool_faulty(&me, &a, if stdin { Some(text) } else { None }, &dir.0, &log, fault)
        };
        for stdin in [true, false] {
            let what = if stdin { "standard input" } else { "a file" };
            let mut reads = 0;
            for fault in [Fault::None, Fault::Dribble] {
                let (r, _, n, _) = from(text.as_bytes(), stdin, &fault);
                reads = if fault == Fault::None { n } else { reads };
                ensure!(r.ok(), "{} with {:?} cannot be read: {}", what, fault, r.show());
                ensure!(n > 0, "no read is seen: the injector does not work");
                means(&Fbas::from_json_str(&r.out), &net, &[])?;
                case.count(if stdin { "standard input read" } else { "files read in a child" });
            }
            let mut bad: Vec<(&str, Vec<u8>)> = vec![("cut short", text.as_bytes()[..text.len() - 1 - case.rng.below(text.len() - 1)].to_vec())];
            bad.push(("with more text", format!("{}{}", text, case.rng.pick(&["x", "{}", "[]", "]"])).into_bytes()));
            // (only where the text matters)
            for pk in net.pks.iter().filter(|p| !["x", "abc"].contains(&p.as_str())) {
                let written = Value::String(pk.clone()).to_string();
                if let Some(at) = text.find(&written) {
                    let mut t = text.clone().into_bytes();
                    t.insert(at + case.rng.range(1, 1 + pk.chars().take_while(|c| c.is_ascii_alphanumeric()).count()), *case.rng.pick(&[0xff, 0xc3, 0x80]));
                    bad.push(("with a byte that is no character", t));
                    case.count("keys that are no text");
                    break;
                }
            }
            if text.len() > 2 && net.n() > 0 {
                for (how, t) in bad {
                    let (r, _, _, _) = from(&t, stdin, &Fault::None);
                    ensure!(!r.ok(), "{} {} is accepted: {:?} is read as {}", what, how, String::from_utf8_lossy(&t), r.out);
                    case.count("damaged input refused");
                }
            }
            for k in 1..=reads {
                let (r, _, _, _) = from(text.as_bytes(), stdin, &Fault::ReadError(k));
                ensure!(!r.ok(), "{} is accepted although read {} of {} fails: {}", what, k, reads, r.show());
                case.count("read errors reported");
            }
        }
        case.nontrivial(&text);
        Ok(())
    });
    c.require("keys that are no text", 300);
    c.require("standard input read", 500);
    c.require("damaged input refused", 1000);
    c.require("read errors reported", 500);
    let real = real_nets();
    c.cases("real", 12, 60, |case| {
        let net = &real[case.index as usize % real.len()];
        case.input(format!("{} nodes", net.n()));
        let text = render(&value(net, &["unknown".to_string()], &mut case.rng), &mut case.rng, true);
        let fbas = Fbas::from_json_str(&text);
        means(&fbas, net, &["unknown".to_string()])?;
        ensure!(Fbas::from_json_str(&fbas.to_json_string_pretty()) == fbas, "round trip");
        case.nontrivial(&text);
        case.count("documents read");
        Ok(())
    });
    c.require("documents read", 20000);
    c.require("documents written and read back", 100000);
    c.require("with validators that do not exist", 5000);
    c.require("members with unknown IDs", 1000);
    c.require("cut documents refused", 10000);
    c.require("corrupted documents refused", 10000);
    c.require("files read", 100);
    c.require("damaged files refused", 500);
    c.require("documents of more than 130 nodes", 50);
    c.finish();
}
