//! Run under sanitizers by the check of C34: parallel and single-threaded use of everything the
//! library offers, on generated inputs. `sandriver SEED FROM TO` runs cases FROM..TO, prints what it
//! did and ends with status 1 if threads disagree; `sandriver race|bounds|freed|unset` are deliberate errors
//! that show that the sanitizer is awake.
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use vharness::simulation::monitors::{DebugMonitor, DummyMonitor};
use vharness::simulation::qsc::*;
use vharness::simulation::{Graph, QuorumSetConfigurator, Simulator};
use vharness::*;
use fmodel::gen;

#[derive(Clone, Copy)]
struct Size {
    max_n: usize,
    pad: usize,
    threads: usize,
}

const QUESTIONS: usize = 16;

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}
/// Everything an analysis says, with the questions asked in the order given.
fn answers(fbas: &Fbas, groupings: &[&Groupings], order: &[usize], out: &mpsc::Sender<NodeIdSetVecResult>) -> Vec<String> {
    let a = Analysis::new(fbas);
    let mut said = vec![String::new(); QUESTIONS];
    for &k in order {
        said[k] = match k {
            0 => format!("{:?}", a.has_quorum_intersection()),
            1 => {
                let (verdict, witness) = a.has_quorum_intersection_via_alternative_check();
                format!("{} {}", verdict, witness.is_some())
            }
            2 | 3 | 4 => {
                let r = match k {
                    2 => a.minimal_quorums(),
                    3 => a.minimal_blocking_sets(),
                    _ => a.minimal_splitting_sets(),
                };
                out.send(r.clone()).unwrap();
                // the order of sets of one size may depend on what was asked before
                let mut s = format!("{:?} {:?} {:?}", r.describe(), sorted(r.clone().into_vec_vec()), sorted(r.clone().into_pretty_vec_vec(fbas, None)));
                for g in groupings {
                    let m = r.merged_by_group(g).minimal_sets();
                    s += &format!(" {:?} {} {}", sorted(m.clone().into_pretty_vec_vec(fbas, Some(g))), m.clone().into_id_string().len(), r.without_nodes(&[0]).minimal_sets().into_describe_string());
                }
                s
            }
            5 => format!("{:?}", a.top_tier().into_vec()),
            6 => format!("{:?}", a.symmetric_top_tier().is_some()),
            7 => format!("{}", a.symmetric_clusters().len()),
            8 => fbas.to_standard_form().to_json_string(),
            9 => {
                let mut s = Vec::<NodeId>::from_iter(&fbas.satisfiable_nodes());
                s.sort();
                format!("{:?} {:?}", s, sorted(fbas.strongly_connected_components()))
            }
            10 => {
                let mut s = String::new();
                for i in 0..fbas.number_of_nodes() {
                    let qs = fbas.get_quorum_set(i).unwrap();
                    s += &serde_json::to_string(&qs.clone().into_pretty_quorum_set(fbas, None)).unwrap();
                    for g in groupings {
                        s += &format!("{:?}", g.merge_quorum_set(qs.clone()));
                    }
                }
                s
            }
            11 => format!("{:?}", Fbas::from_json_str(&fbas.to_json_string()) == *fbas),
            12 => {
                // the functions on families of sets, and results as values
                let (mq, mb) = (a.minimal_quorums(), a.minimal_blocking_sets());
                let (q, mut both) = (mq.clone().unwrap(), mq.clone().unwrap());
                both.extend(mb.clone().unwrap());
                both.extend(q.iter().map(|s| s.iter().chain([0, fbas.number_of_nodes() - 1]).collect()));
                let minimal = sets::remove_non_minimal_node_sets(both.clone());
                let mut s = format!("{} {} {} {:?}", sets::all_intersect(&q), sets::is_set_of_minimal_node_sets(&minimal), minimal.len(), sets::involved_nodes(&both));
                let known: std::collections::HashSet<NodeIdSetVecResult> = [mq.clone(), mb.clone(), a.minimal_quorums()].into_iter().collect();
                s += &format!(" {} {} {:?} {:?} {:?} {}", known.len(), mq == a.minimal_quorums(), mq.minmaxmean(), mb.histogram(), mq.contains_empty_set(), mb.is_empty());
                let everyone: Vec<NodeId> = (0..fbas.number_of_nodes()).collect();
                s += &format!(" {:?} {:?}", sorted(mq.without_nodes(&everyone[1..]).into_vec_vec()), sorted(mb.without_nodes(&everyone).into_vec_vec()));
                s
            }
            13 => {
                let mut s = String::new();
                for i in 0..fbas.number_of_nodes() {
                    let qs = fbas.get_quorum_set(i).unwrap();
                    let inside = qs.contained_nodes();
                    s += &format!("{} {:?} {}", qs.contains_duplicates(), inside, qs.is_quorum_slice(&inside));
                    for slice in qs.to_quorum_slices() {
                        s += &format!(" {:?} {} {}", slice, qs.is_quorum_slice(&slice), fbas.is_quorum(&slice));
                    }
                }
                s
            }
            14 => {
                let everyone: Vec<NodeId> = (0..fbas.number_of_nodes()).collect();
                let sccs = sorted(fbas.strongly_connected_components());
                let mut s = format!("{:?} {:?} {:?}", fbas.all_nodes(), fbas.unsatisfiable_nodes(), fbas.relevant_nodes());
                s += &format!(" {:?}", fbas.rank_nodes().iter().map(|x| (x * 1e6) as u64).collect::<Vec<_>>());
                for scc in sccs {
                    let v: Vec<NodeId> = scc.iter().collect();
                    s += &format!(" {:?} {:?}", preprocessing::rank_nodes(&v, fbas).len(), preprocessing::sort_by_rank(v, fbas).len());
                }
                s += &format!(" {:?}", preprocessing::sort_by_rank(everyone, fbas).len());
                s += &format!(" {:?} {:?} {:?}", a.all_nodes().into_vec(), a.satisfiable_nodes().into_pretty_vec(fbas, None), a.unsatisfiable_nodes().len());
                let (core, translation) = fbas.shrunken(fbas.relevant_nodes());
                let back = sorted(translation.unshrink_sets(&find_minimal_quorums(&core)));
                s += &format!(" {} {:?} {:?}", core.to_json_string(), translation.unshrink_table(), back);
                s += &format!(" {:?} {:?}", translation.shrink_sets(&back), translation.unshrink_set(&core.all_nodes()));
                let (_, wider) = fbas.shrunken(fbas.satisfiable_nodes());
                s += &format!(" {:?}", wider.reshrink_sets(&translation.shrink_sets(&back), &translation));
                for g in groupings {
                    s += &format!(" {}", Groupings::shrunken(g, &translation, &core).number_of_groupings());
                }
                s
            }
            _ => {
                // groupings read here, and used on results by name
                let mut s = String::new();
                let top = a.top_tier();
                for g in groupings {
                    let names: Vec<String> = top.clone().into_pretty_vec(fbas, Some(g));
                    let names: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
                    s += &format!(" {} {:?}", g.number_of_groupings(), top.merged_by_group(g).into_vec());
                    s += &format!(" {} {}", names.iter().filter(|n| g.get_by_name(n).is_some()).count(), (0..fbas.number_of_nodes() + 3).filter(|&i| g.get_by_member(i).is_some()).count());
                    s += &format!(" {:?}", top.without_nodes_pretty(&names, fbas, Some(g)).into_vec());
                    s += &format!(" {:?}", sorted(a.minimal_blocking_sets().without_nodes_pretty(&names, fbas, Some(g)).into_vec_vec()));
                }
                s
            }
        };
    }
    said
}

fn one(seed: u64, index: u64, size: Size, counts: &mut std::collections::BTreeMap<&'static str, u64>) -> Result<(), String> {
    let mut rng = Rng::for_case("sandriver", seed, index);
    let net = gen::any(&mut rng, &gen::Opts { max_n: size.max_n, pad: size.pad, ..Default::default() });
    if net.qs.iter().any(|q| q.any_level(&|x| x.slice_count() > 2000.0)) {
        return Ok(());
    }
    *counts.entry("networks").or_default() += 1;
    let fbas = if rng.chance(1, 2) { build_api(&net) } else { build_json(&net) };
    let docs = grouped_docs(&mut rng, &net);
    let groupings = vec![
        Groupings::organizations_from_json_str(&docs.orgs_doc.to_string(), &fbas),
        Groupings::isps_from_json_str(&docs.nodes.to_string(), &fbas),
    ];
    let refs: Vec<&Groupings> = groupings.iter().collect();
    let orders: Vec<Vec<usize>> = (0..size.threads).map(|_| rng.perm(QUESTIONS)).collect();
    let (tx, rx) = mpsc::channel();
    let said: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = orders
            .iter()
            .map(|order| {
                let (fbas, refs, tx) = (&fbas, &refs, tx.clone());
                s.spawn(move || answers(fbas, refs, order, &tx))
            })
            .collect();
        drop(tx);
        // results move to this thread while the others go on
        let mut sizes = 0;
        for r in rx {
            sizes += r.involved_nodes().len() + r.minimal_sets().unwrap().len();
        }
        std::hint::black_box(sizes);
        hs.into_iter().map(|h| h.join().map_err(|_| ())).collect::<Result<_, _>>()
    })
    .map_err(|_| "a thread panicked".to_string())?;
    *counts.entry("analyses of shared networks").or_default() += said.len() as u64;
    if said.iter().any(|x| *x != said[0]) {
        let k = (0..QUESTIONS).find(|&k| said.iter().any(|x| x[k] != said[0][k])).unwrap();
        return Err(format!("threads disagree on question {} about {}: {:?}", k, net.show(), said.iter().map(|x| &x[k]).collect::<Vec<_>>()));
    }
    // node IDs and keys that are not there: an answer or a panic, nothing worse
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| ()));
    let n = fbas.number_of_nodes();
    for id in [n, n + 1, 2 * n + 7, 1 << 20] {
        let outside: NodeIdSet = vec![0, id].into_iter().collect();
        let mut own = fbas.clone();
        if fbas.get_quorum_set(id).is_some() || fbas.get_node_id(&format!("no such node {}", id)).is_some() {
            return Err(format!("an FBAS of {} nodes has a node {}", n, id));
        }
        for g in &groupings {
            std::hint::black_box(g.get_by_member(id).is_some());
        }
        let asked: [&dyn Fn(&mut Fbas) -> usize; 8] = [
            // sets of a larger network
            &|_| groupings[0].merge_node_set(outside.clone()).len() + groupings[1].merge_node_sets(vec![outside.clone()]).len(),
            &|f| f.shrunken(outside.clone()).0.number_of_nodes(),
            &|f| f.shrunken(f.relevant_nodes()).1.shrink_sets(&[outside.clone()]).len(),
            &|f| Analysis::new(f).minimal_blocking_sets().without_nodes(&[id, 3 * id + 1]).len(),
            &|f| f.is_quorum(&outside) as usize,
            &|f| f.swap_quorum_set(id, QuorumSet::new()).threshold,
            // names taken from the wrong network
            &|f| Analysis::new(f).minimal_quorums().into_pretty_vec_vec(&Fbas::new(), None).len(),
            &|f| f.get_quorum_set(0).unwrap().into_pretty_quorum_set(&Fbas::new(), None).threshold as usize,
        ];
        for f in asked {
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut own))).is_err() {
                *counts.entry("questions about nodes that are not there, refused").or_default() += 1;
            }
        }
        std::hint::black_box(own.to_json_string());
    }
    // ... also where quorum sets and graphs name them
    for id in [n, n + 3, 64 * (n / 64 + 1), 5000] {
        if !rng.chance(1, 4) {
            continue;
        }
        let mut own = fbas.clone();
        let mut q = own.get_quorum_set(0).unwrap();
        q.validators.push(id);
        own.swap_quorum_set(0, q);
        let mut links = random_links(&mut rng, n, false);
        links[n / 2].push(id);
        let graph = Graph::new(links);
        let asked: [&dyn Fn() -> usize; 9] = [
            &|| own.satisfiable_nodes().len(),
            &|| Analysis::new(&own).minimal_quorums().len(),
            &|| own.strongly_connected_components().len(),
            &|| own.to_standard_form().to_json_string().len(),
            &|| own.rank_nodes().len(),
            &|| graph.get_in_degrees().len(),
            &|| graph.get_rank_scores().len(),
            &|| graph.get_connected_nodes().len() + graph.is_undirected() as usize,
            &|| graph.clone().shuffled().number_of_nodes(),
        ];
        for f in asked {
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
                *counts.entry("questions about nodes that are not there, refused").or_default() += 1;
            }
        }
    }
    std::panic::set_hook(hook);
    // one graph for the simulations of several threads
    let n = rng.range(3, size.max_n.max(4));
    let graph = match rng.below(5) {
        0 => Graph::new_random_scale_free(n, 2, 1),
        1 => Graph::new_random_small_world(n, 2, 0.5),
        2 => Graph::new_tiered_full_mesh(&[2, n]),
        3 => Graph::new_full_mesh(n),
        _ => Graph::new(random_links(&mut rng, n, false)),
    };
    let text = Graph::to_as_rel_string(&graph, None).unwrap();
    let graph = if rng.chance(1, 2) { Graph::from_as_rel_string(&text).shuffled() } else { graph };
    std::hint::black_box((graph.get_rank_scores(), graph.get_in_degrees(), graph.get_connected_nodes(), graph.is_undirected()));
    let kind = rng.below(6);
    let nodes = graph.number_of_nodes();
    let done = Arc::new(Mutex::new(vec![]));
    std::thread::scope(|s| {
        for _ in 0..size.threads {
            let (graph, fbas, done) = (&graph, &fbas, done.clone());
            s.spawn(move || {
                let qsc: std::rc::Rc<dyn QuorumSetConfigurator> = match kind {
                    0 => std::rc::Rc::new(AllNeighborsQsc::new(graph.clone(), Some(0.6))),
                    1 => std::rc::Rc::new(GlobalRankQsc::new(graph.clone(), None)),
                    2 => std::rc::Rc::new(HigherTierNeighborsQsc::new(graph.clone(), None, true)),
                    3 => std::rc::Rc::new(RandomQsc::new_simple(3)),
                    4 => std::rc::Rc::new(IdealQsc::new()),
                    _ => std::rc::Rc::new(SuperSafeQsc::new()),
                };
                let mut sim = Simulator::new(Fbas::new(), qsc, std::rc::Rc::new(DebugMonitor::new()));
                sim.simulate_growth(nodes);
                sim.simulate_global_reevaluation(3);
                let f = sim.finalize();
                if kind >= 3 {
                    // also from an FBAS that the threads share
                    let qsc: std::rc::Rc<dyn QuorumSetConfigurator> = std::rc::Rc::new(SuperSafeQsc::new());
                    let mut sim = Simulator::new(fbas.clone(), qsc, std::rc::Rc::new(DummyMonitor));
                    sim.simulate_global_reevaluation(1);
                    std::hint::black_box(sim.finalize().number_of_nodes());
                }
                done.lock().unwrap().push(f.to_json_string().len());
            });
        }
    });
    *counts.entry("simulations").or_default() += done.lock().unwrap().len() as u64;
    Ok(())
}

static SHARED: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
fn deliberate(what: &str) {
    let mut v = vec![1u64, 2, 3];
    let p = v.as_mut_ptr() as usize;
    match what {
        "race" => {
            let hs: Vec<_> = (0..2)
                .map(|t| {
                    std::thread::spawn(move || {
                        for i in 0..1000u64 {
                            unsafe { *(p as *mut u64) += i + t };
                        }
                    })
                })
                .collect();
            hs.into_iter().for_each(|h| h.join().unwrap());
        }
        "unset" => {
            let v: Vec<std::mem::MaybeUninit<u64>> = (0..4).map(|_| std::mem::MaybeUninit::uninit()).collect();
            let x = unsafe { std::ptr::read_volatile(v.as_ptr() as *const u64) };
            println!("{}", if std::hint::black_box(x) > 5 { "more" } else { "less" });
        }
        "bounds" => println!("{}", unsafe { std::ptr::read_volatile((p as *const u64).wrapping_add(std::hint::black_box(3))) }),
        _ => {
            SHARED.store(Box::into_raw(Box::new(5)), Ordering::SeqCst);
            let q = SHARED.load(Ordering::SeqCst);
            drop(unsafe { Box::from_raw(q) });
            println!("{}", unsafe { std::ptr::read_volatile(q) });
        }
    }
    drop(v);
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.len() == 1 {
        deliberate(&a[0]);
        return;
    }
    let p: Vec<u64> = a.iter().map(|x| x.parse().unwrap()).collect();
    let size = if cfg!(miri) {
        Size { max_n: 4, pad: 2, threads: 2 }
    } else {
        Size { max_n: 7, pad: 66, threads: 4 }
    };
    let mut counts = Default::default();
    for i in p[1]..p[2] {
        if let Err(e) = one(p[0], i, size, &mut counts) {
            println!("case {}: {}", i, e);
            std::process::exit(1);
        }
    }
    for (k, v) in counts {
        println!("{}\t{}", v, k);
    }
}
