import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds16 import *
from seeds17 import MUTM, STATM
ND, EVF, GG_, GE2 = 'src/graph_impl/graph_map/node.rs', 'src/graph_impl/static_graph/edge_vec.rs', 'src/generic/graph.rs', 'src/graph_impl/graph_map/edge.rs'
BFS, DFS, CC, CS, UN, MI = ['src/algorithm/%s.rs' % x for x in ('bfs', 'dfs', 'conn_comp', 'conn_subgraphs', 'graph_union', 'graph_minus')]
HLP, GEN, RND, SGN = 'src/graph_gen/helper.rs', 'src/graph_gen/general.rs', 'src/graph_gen/random.rs', 'src/graph_impl/static_graph/node.rs'
LCG = '''
fn lcg(seed: u64) -> impl FnMut(u32) -> u32 { let mut s = seed.wrapping_mul(6364136223846793005).wrapping_add(99); move |n| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 33) as u32) % n } }
'''
# both traversals against their definition, on graphs with id gaps, isolated nodes and loops
TRAV = P16 + '''
use rust_graph::algorithm::*;
use std::collections::{VecDeque, BTreeSet};
''' + LCG + '''
fn check<I: Iterator<Item = u32>>(g: &GeneralGraph<u32, &'static str, &'static str, u32>, it: I, start: Option<u32>, queue: bool) {
    let mut pending: VecDeque<u32> = VecDeque::new(); let mut seen: BTreeSet<u32> = BTreeSet::new(); let mut n = 0;
    if let Some(s) = start { pending.push_back(s); seen.insert(s); }
    for v in it {
        n += 1; assert!(n <= g.node_count(), "too many"); assert!(g.has_node(v));
        match if queue { pending.pop_front() } else { pending.pop_back() } { Some(w) => assert_eq!(v, w), None => assert!(seen.insert(v)) }
        for x in g.neighbors_iter(v) { if seen.insert(x) { pending.push_back(x); } }
    }
    assert_eq!(n, g.node_count());
}
fn all<G: GeneralGraph<u32, &'static str, &'static str, u32>>(g: &G, rnd: &mut FnMut(u32) -> u32) {
    if g.node_count() == 0 { return; }
    let ids: Vec<u32> = g.node_indices().collect();
    for &s in ids.iter() {
        check(g.as_general_graph(), Bfs::new(g, Some(s)), Some(s), true);
        check(g.as_general_graph(), Dfs::new(g, Some(s)), Some(s), false);
        let mut d = Dfs::new(g, Some(s));
        for _ in 0..rnd(ids.len() as u32 + 1) { d.next(); }
        d.reset(); check(g.as_general_graph(), d.clone(), None, false);
        let mut b = Bfs::new(g, Some(s)); let x = Bfs::next(&mut b); assert_eq!(x, Some(s)); let _ = b.clone();
    }
    check(g.as_general_graph(), Bfs::new(g, None), None, true);
    check(g.as_general_graph(), Dfs::new(g, None), None, false);
}
fn main() {
    const IDS: [u32; 7] = [0, 1, 3, 4, 9, 30, 64];
    for seed in 0..60 {
        let mut rnd = lcg(seed);
        let mut d: DiGraphMap<&'static str> = DiGraphMap::new(); let mut u: UnGraphMap<&'static str> = UnGraphMap::new();
        let m = 1 + rnd(9);
        for _ in 0..m { let (a, b) = (IDS[rnd(7) as usize], IDS[rnd(7) as usize]); if rnd(4) == 0 { d.add_node(a, None); u.add_node(b, None); } else { d.add_edge(a, b, None); u.add_edge(a, b, None); } }
        if rnd(3) == 0 { let x = IDS[rnd(7) as usize]; d.remove_node(x); u.remove_node(x); }
        all(&d, &mut rnd); all(&u, &mut rnd);
    }
}
'''
# union and difference, in every form, against sets
UNM = P16 + '''
use rust_graph::algorithm::*;
use std::collections::BTreeMap;
''' + LCG + '''
type Pic = (bool, BTreeMap<u32, Option<u32>>, BTreeMap<(u32, u32), Option<u32>>);
type B = Box<GeneralGraph<u32, u32, u32, u32>>;
fn pic(g: &GeneralGraph<u32, u32, u32, u32>) -> Pic {
    let d = g.is_directed(); assert_eq!(d, g.as_digraph().is_some());
    let e: BTreeMap<_, _> = g.edge_indices().map(|(a, b)| (if d || a <= b { (a, b) } else { (b, a) }, g.get_edge_label(a, b).cloned())).collect();
    let n: BTreeMap<_, _> = g.node_indices().map(|n| (n, g.get_node_label(n).cloned())).collect();
    assert_eq!((g.node_count(), g.edge_count()), (n.len(), e.len()));
    (d, n, e)
}
fn plus(a: &Pic, b: &Pic) -> Pic { let mut r = a.clone(); r.1.extend(b.1.clone()); r.2.extend(b.2.clone()); r }
fn less(a: &Pic, b: &Pic) -> Pic {
    let n: BTreeMap<_, _> = a.1.clone().into_iter().filter(|x| !b.1.contains_key(&x.0)).collect();
    let e: BTreeMap<_, _> = a.2.clone().into_iter().filter(|x| !b.2.contains_key(&x.0) && n.contains_key(&(x.0).0) && n.contains_key(&(x.0).1)).collect();
    (a.0, n, e)
}
macro_rules! forms { ($T:ident, $rnd:ident) => {{
    let (ka, kb) = ($rnd(8), $rnd(5)); let mut mk = |k: u32| { let mut g: $T<u32, u32, u32> = $T::new(); let l = |x: u32| if x == 0 { None } else { Some(x) };
        for _ in 0..k { let (a, b, x) = ($rnd(6), $rnd(6), $rnd(4)); if $rnd(3) == 0 { g.add_node(a, l(x)); } else { g.add_edge(a, b, l(x)); } } g };
    let (a, b) = (mk(ka), mk(kb)); let (pa, pb) = (pic(&a), pic(&b));
    let (bx, by): (B, B) = (Box::new(a.clone()), Box::new(b.clone()));
    assert_eq!(pic(bx.clone().as_ref()), pa); { let c = bx.clone(); assert!(c.eq(&bx)); }
    assert_eq!(pic(graph_union(&a, &b).as_ref()), plus(&pa, &pb)); assert_eq!(pic(graph_minus(&a, &b).as_ref()), less(&pa, &pb));
    assert_eq!(pic((bx.as_ref() + by.as_ref()).as_ref()), plus(&pa, &pb)); assert_eq!(pic((bx.as_ref() - by.as_ref()).as_ref()), less(&pa, &pb));
    assert_eq!((pic(bx.as_ref()), pic(by.as_ref())), (pa.clone(), pb.clone()));
    assert_eq!(pic((bx.clone() + by.clone()).as_ref()), plus(&pa, &pb)); assert_eq!(pic((bx - by).as_ref()), less(&pa, &pb));
    assert_eq!(pic(&(a.clone() + b.clone())), plus(&pa, &pb)); assert_eq!(pic(&(a.clone() - b.clone())), less(&pa, &pb));
    assert_eq!(pic(&(Box::new(a.clone()) + Box::new(b.clone()))), plus(&pa, &pb)); assert_eq!(pic(&(Box::new(a) - Box::new(b))), less(&pa, &pb));
}} }
fn main() { for seed in 0..80 { let mut rnd = lcg(seed); forms!(DiGraphMap, rnd); forms!(UnGraphMap, rnd); } }
'''
# components against reachability, queries between steps
CCM = P16 + '''
use rust_graph::algorithm::*;
use std::collections::BTreeMap;
''' + LCG + '''
fn main() { for seed in 0..60 {
    let mut rnd = lcg(seed); let mut cc: ConnComp<u32> = ConnComp::empty(); let mut comp: BTreeMap<u32, u32> = BTreeMap::new();
    for _ in 0..30 {
        let (a, b) = (rnd(9), rnd(9));
        match rnd(12) {
            0 => { cc.reset(); comp.clear(); }
            1 => { let mut g: DiGraphMap<u32> = DiGraphMap::new(); for _ in 0..3 { g.add_edge(rnd(9), rnd(9), None); } g.add_node(b, None); cc.run_detection(&g);
                for n in g.node_indices() { comp.entry(n).or_insert(n); }
                for (x, y) in g.edge_indices() { let (p, q) = (comp[&x], comp[&y]); for v in comp.values_mut() { if *v == p { *v = q; } } } }
            _ => { cc.process_new_edge(&Edge::<u32, u32>::new(a, b, None)); comp.entry(a).or_insert(a); comp.entry(b).or_insert(b);
                let (p, q) = (comp[&a], comp[&b]); for v in comp.values_mut() { if *v == p { *v = q; } } }
        }
        let mut r: Vec<u32> = comp.values().cloned().collect(); r.sort(); r.dedup(); assert_eq!(cc.get_count(), r.len());
        let (p, q) = (rnd(10), rnd(10));
        match rnd(4) {
            0 => assert_eq!(cc.is_connected(p, q), comp.contains_key(&p) && comp.get(&p) == comp.get(&q)),
            1 => { let mut m = cc.get_connected_nodes(p); if let Some(ref mut v) = m { v.sort(); }
                assert_eq!(m, comp.get(&p).map(|c| comp.iter().filter(|x| x.1 == c).map(|x| *x.0).collect())); }
            2 => { let x = cc.get_root(p); assert_eq!(x.is_some(), comp.contains_key(&p)); if let Some(x) = x { assert_eq!(comp[&x], comp[&p]); assert_eq!(cc.get_parent(x), Some(x)); } }
            _ => { let x = cc.get_parent(p); assert_eq!(x.is_some(), comp.contains_key(&p)); if let Some(x) = x { assert_eq!(comp[&x], comp[&p]); } assert_eq!(cc.parent().len(), comp.len()); }
        }
    }
} }
'''
GENM = P16 + '''
use rust_graph::graph_gen::*;
fn pairs(d: bool, n: u32) -> Vec<(u32, u32)> { let mut r = vec![]; for a in 0..n { for b in 0..n { if a < b || d && a > b { r.push((a, b)); } } } r }
macro_rules! check { ($g:expr, $d:expr, $n:expr, $m:expr, $nl:expr, $el:expr) => {{
    let (g, nl, el): (_, &Vec<u32>, &Vec<u32>) = (&$g, &$nl, &$el);
    let mut v: Vec<u32> = g.node_indices().collect(); v.sort(); assert_eq!(v, (0..$n).collect::<Vec<u32>>());
    let mut e: Vec<(u32, u32)> = g.edge_indices().map(|(a, b)| if $d || a < b { (a, b) } else { (b, a) }).collect(); e.sort();
    assert_eq!(e.len(), g.edge_count()); let p = pairs($d, $n); assert!(e.iter().all(|x| p.contains(x))); let k = e.len(); e.dedup(); assert_eq!(e.len(), k);
    let m: Option<usize> = $m; if let Some(m) = m { assert_eq!(e.len(), m); }
    for n in g.node_indices() { match g.get_node_label(n) { Some(l) => assert!(nl.contains(l)), None => assert!(nl.is_empty()) } }
    for (a, b) in g.edge_indices() { match g.get_edge_label(a, b) { Some(l) => assert!(el.contains(l)), None => assert!(el.is_empty()) } }
}} }
macro_rules! run { ($Ty:ident, $d:expr) => {
    for n in 0..7u32 { let all = pairs($d, n).len(); let k = n as usize;
        for (nl, el) in vec![(vec![], vec![]), (vec![5], vec![]), (vec![], vec![7, 8]), (vec![1, 1, 2], vec![3, 3])] {
            check!(empty_graph::<u32, u32, u32, $Ty>(k, nl.clone(), el.clone()), $d, n, Some(0), nl, el);
            check!(complete_graph::<u32, u32, u32, $Ty>(k, nl.clone(), el.clone()), $d, n, Some(all), nl, el);
            for &p in [0f32, 0.5, 1.0].iter() { check!(random_gnp_graph::<u32, u32, u32, $Ty>(k, p, nl.clone(), el.clone()), $d, n, if p == 0.0 { Some(0) } else if p == 1.0 { Some(all) } else { None }, nl, el); }
            for m in 0..all + 1 { check!(random_gnm_graph::<u32, u32, u32, $Ty>(k, m, nl.clone(), el.clone()), $d, n, Some(m), nl, el); }
            assert!(::std::panic::catch_unwind(|| random_gnm_graph::<u32, u32, u32, $Ty>(k, all + 1, vec![], vec![])).is_err());
        }
        let z = vec![];
        check!(empty_graph_unlabeled::<u32, u32, u32, $Ty>(k), $d, n, Some(0), z, z); check!(complete_graph_unlabeled::<u32, u32, u32, $Ty>(k), $d, n, Some(all), z, z);
        check!(random_gnp_graph_unlabeled::<u32, u32, u32, $Ty>(k, 0.3), $d, n, None, z, z); check!(random_gnm_graph_unlabeled::<u32, u32, u32, $Ty>(k, all / 2), $d, n, Some(all / 2), z, z);
    }
} }
fn main() { std::panic::set_hook(Box::new(|_| ())); run!(Directed, true); run!(Undirected, false); }
'''
# construction from parts, label removal
PARTS = P16 + '''
use rust_graph::map::SetMap;
use std::panic::catch_unwind;
type DS = TypedDiStaticGraph<u32, &'static str, &'static str, u32>; type US = TypedUnStaticGraph<u32, &'static str, &'static str, u32>;
fn ev(n: usize, e: &[(u32, u32, u32)], labelled: bool) -> EdgeVec<u32, u32> {
    let mut o = vec![0; n + 1]; for x in e { for i in x.0 as usize + 1..n + 1 { o[i] += 1; } }
    EdgeVec::from_raw(o, e.iter().map(|x| x.1).collect(), if labelled { Some(e.iter().map(|x| x.2).collect()) } else { None })
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let m = u32::max_value();
    let out = [(0, 1, 0), (0, 2, m), (1, 1, 1), (2, 0, 0)]; let inn = [(0, 2, 0), (1, 0, 0), (1, 1, 1), (2, 0, m)];
    let nl = || SetMap::from_vec(vec!["a", "b"]); let el = || SetMap::from_vec(vec!["x", "y", "z"]);
    for &lab in [false, true].iter() { for &nodes in [false, true].iter() {
        let mk = || DS::from_raw(3, 4, ev(3, &out, lab), Some(ev(3, &inn, lab)), if nodes { Some(vec![1, m, 0]) } else { None }, nl(), el());
        let mut gs = vec![mk()];
        if nodes { for n in vec![None, Some(3)] { for k in vec![None, Some(4)] { gs.push(DS::with_labels(ev(3, &out, lab), Some(ev(3, &inn, lab)), vec![1, m, 0], nl(), el(), n, k)); } } }
        for g in gs {
            assert_eq!((g.node_count(), g.edge_count()), (3, 4));
            assert_eq!(g.get_edge_vec(), &ev(3, &out, lab)); assert_eq!(g.get_in_edge_vec(), &Some(ev(3, &inn, lab)));
            assert_eq!(g.get_node_label_map().clone().items().cloned().collect::<Vec<_>>(), ["a", "b"]); assert_eq!(g.get_edge_label_map().items().cloned().collect::<Vec<_>>(), ["x", "y", "z"]);
            let nls = |g: &DS| (0..3).map(|i| g.get_node_label(i).cloned()).collect::<Vec<_>>(); let els = |g: &DS| out.iter().map(|x| g.get_edge_label(x.0, x.1).cloned()).collect::<Vec<_>>();
            let top = |g: &DS| (g.node_count(), g.edge_count(), g.edge_indices().collect::<Vec<_>>(), (0..3).map(|i| (g.neighbors(i).into_owned(), g.in_neighbors(i).into_owned(), g.degree(i), g.in_degree(i))).collect::<Vec<_>>());
            let (a, b, t) = (nls(&g), els(&g), top(&g));
            assert_eq!(a, if nodes { vec![Some("b"), None, Some("a")] } else { vec![None; 3] }); assert_eq!(b, if lab { vec![Some("x"), None, Some("y"), Some("x")] } else { vec![None; 4] });
            let mut h = g.clone(); h.shrink_to_fit(); assert_eq!((nls(&h), els(&h), top(&h)), (a.clone(), b.clone(), t.clone())); assert_eq!(h.get_edge_vec(), g.get_edge_vec()); assert_eq!(h.get_in_edge_vec(), g.get_in_edge_vec());
            let mut h = g.clone(); h.remove_node_labels(); assert_eq!((nls(&h), els(&h), top(&h)), (vec![None; 3], b.clone(), t.clone())); assert_eq!((h.num_of_node_labels(), h.num_of_edge_labels()), (0, 3)); assert!(h.get_labels().is_none());
            let mut h = g.clone(); h.remove_edge_labels(); assert_eq!((nls(&h), els(&h), top(&h)), (a.clone(), vec![None; 4], t.clone())); assert_eq!((h.num_of_node_labels(), h.num_of_edge_labels()), (2, 0));
            assert_eq!(h.get_edge_vec(), &ev(3, &out, false)); assert_eq!(h.get_in_edge_vec(), &Some(ev(3, &inn, false)));
            let mut h = g.clone(); h.remove_labels(); assert_eq!((nls(&h), els(&h), top(&h)), (vec![None; 3], vec![None; 4], t.clone())); assert_eq!((h.num_of_node_labels(), h.num_of_edge_labels()), (0, 0));
            let mut h = g.clone();
            h.get_in_edge_vec_mut().take(); assert!(h.get_in_edge_vec().is_none()); *h.get_edge_vec_mut() = EdgeVec::default(); assert_eq!(h.get_edge_vec(), &EdgeVec::default());
            h.get_node_label_map_mut().add_item("q"); assert_eq!(h.get_node_label_map().len(), 3); assert_eq!(h.get_edge_label_map().len(), 3); h.get_edge_label_map_mut().add_item("w"); assert_eq!((h.get_node_label_map().len(), h.get_edge_label_map().len()), (3, 4)); h.get_labels_mut().take(); assert!(h.get_labels().is_none());
        }
        for n in vec![None, Some(3), Some(5)] { for k in vec![None, Some(4), Some(9)] { let g = DS::new(ev(3, &out, lab), Some(ev(3, &inn, lab)), n, k); assert_eq!((g.node_count(), g.edge_count()), (n.unwrap_or(3), k.unwrap_or(4))); assert_eq!((g.num_of_node_labels(), g.num_of_edge_labels()), (0, 0)); assert!(g.get_labels().is_none());
            let u = [(0, 1, 0), (1, 0, 0)]; let g = US::new(ev(2, &u, lab), None, n, k); assert_eq!((g.node_count(), g.edge_count()), (n.unwrap_or(2), k.unwrap_or(1))); } }
        assert!(catch_unwind(|| DS::new(ev(3, &out, false), None, None, None)).is_err()); assert!(catch_unwind(|| DS::new(ev(3, &out, false), None, Some(3), Some(4))).is_err());
        assert!(catch_unwind(|| DS::with_labels(ev(3, &out, false), None, vec![], SetMap::new(), SetMap::new(), Some(3), Some(4))).is_err());
        assert!(catch_unwind(|| DS::from_raw(3, 4, ev(3, &out, false), None, None, SetMap::new(), SetMap::new())).is_err()); assert!(catch_unwind(|| DS::from_raw(0, 0, EdgeVec::default(), None, None, SetMap::new(), SetMap::new())).is_err());
        for l in vec![vec![], vec![0], vec![0, 1, 2]] { let k = l.clone(); assert!(catch_unwind(move || EdgeVec::<u32, u32>::with_labels(vec![0, 2], vec![0, 1], k)).is_err()); assert!(catch_unwind(move || EdgeVec::<u32, u32>::from_raw(vec![0, 2], vec![0, 1], Some(l))).is_err()); }
    } }
}
'''
# handles of a mutable graph
HND = P16 + '''
use std::collections::BTreeMap;
''' + LCG + '''
macro_rules! run { ($T:ident, $dir:expr) => { for seed in 0..400 {
    let mut rnd = lcg(seed); let mut g: $T<u32> = $T::new(); for i in 0..4 { g.add_node_label(Some(i)); g.add_edge_label(Some(i)); }
    for _ in 0..8 { let (a, b, l) = (rnd(6), rnd(6), rnd(5)); let l = if l < 4 { Some(l) } else { None }; if rnd(3) == 0 { g.add_node(a, l); } else { g.add_edge(a, b, l); } }
    let key = |a: u32, b: u32| if $dir || a <= b { (a, b) } else { (b, a) };
    let mut n: BTreeMap<u32, Option<u32>> = g.node_indices().map(|x| (x, g.get_node(x).get_label_id())).collect();
    let mut ids = vec![]; for mut x in g.nodes_mut() { assert!(x.is_some() && !x.is_none()); let i = x.get_id(); ids.push(i); assert_eq!(x.get_label_id(), n[&i]); let l = if rnd(3) == 0 { None } else { Some(rnd(4)) }; x.set_label_id(l); assert_eq!(x.get_label_id(), l); n.insert(i, l); }
    ids.sort(); assert_eq!(ids, n.keys().cloned().collect::<Vec<_>>());
    let mut e: BTreeMap<(u32, u32), Option<u32>> = g.edges().map(|x| (key(x.get_start(), x.get_target()), x.get_label_id())).collect();
    let k = e.len(); let mut c = 0;
    for mut x in g.edges_mut() { c += 1; let i = key(x.get_start(), x.get_target()); assert!(x.is_some()); assert_eq!(x.get_label_id(), e[&i]); let l = if rnd(3) == 0 { None } else { Some(rnd(4)) }; x.set_label_id(l); assert_eq!(x.get_label_id(), l); e.insert(i, l); }
    assert_eq!((c, e.len()), (k, k));
    for x in g.edges() { assert_eq!(x.get_label_id(), e[&key(x.get_start(), x.get_target())]); }
    for a in 0..7 { 
        { let x = g.get_node(a); assert_eq!(x.is_some(), n.contains_key(&a)); assert_eq!(x.is_none(), !n.contains_key(&a)); if x.is_some() { assert_eq!((x.get_id(), x.get_label_id()), (a, n[&a])); } }
        { let mut x = g.get_node_mut(a); assert_eq!(x.is_some(), n.contains_key(&a)); if x.is_some() { assert_eq!((x.get_id(), x.get_label_id()), (a, n[&a])); x.set_label_id(Some(3)); n.insert(a, Some(3)); } }
        for b in 0..7 { 
            let had = e.contains_key(&key(a, b));
            { let x = g.get_edge(a, b); assert_eq!((x.is_some(), x.is_none()), (had, !had)); if had { assert_eq!((x.get_start(), x.get_target()), (a, b)); if $dir || a <= b { assert_eq!(x.get_label_id(), e[&key(a, b)]); } } }
            { let mut x = g.get_edge_mut(a, b); assert_eq!(x.is_some(), had); if had { assert_eq!((x.get_start(), x.get_target()), (a, b)); let l = Some((a + b) % 4); x.set_label_id(l); assert_eq!(x.get_label_id(), l); } }
            if had { assert_eq!(g.get_edge(a, b).get_label_id(), Some((a + b) % 4)); e.insert(key(a, b), Some((a + b) % 4)); }
        } 
    }
    for a in 0..7 { for b in 0..7 { if rnd(2) == 0 { let had = e.remove(&key(a, b)); let l = if had.is_some() { g.get_edge(a, b).get_label_id() } else { None }; let x = g.remove_edge(a, b); assert_eq!((x.is_some(), x.is_none()), (had.is_some(), had.is_none())); if had.is_some() { assert_eq!((x.get_start(), x.get_target(), x.get_label_id()), (a, b, l)); } } } 
        let had = n.remove(&a); let x = g.remove_node(a); assert_eq!(x.is_some(), had.is_some()); if let Some(l) = had { assert_eq!((x.get_id(), x.get_label_id()), (a, l)); } e = e.into_iter().filter(|x| (x.0).0 != a && (x.0).1 != a).collect(); }
} } }
fn main() { run!(DiGraphMap, true); run!(UnGraphMap, false); }
'''
# label statistics of mutable and static graphs
CNT = P16 + '''
use rust_graph::graph_impl::Edge;
use std::collections::BTreeMap;
''' + LCG + '''
macro_rules! stats { ($g:expr, $n:expr, $e:expr) => {{
    let (g, n, e) = (&$g, &$n, &$e);
    let f = |x: &Vec<Option<u8>>| { let mut r: BTreeMap<u8, usize> = BTreeMap::new(); for l in x { if let Some(l) = *l { *r.entry(l).or_insert(0) += 1; } } r };
    assert_eq!(g.get_node_label_counter().iter().filter(|x| *x.1 > 0).map(|(k, v)| (**k, *v)).collect::<BTreeMap<_, _>>(), f(n)); assert_eq!(g.get_edge_label_counter().iter().filter(|x| *x.1 > 0).map(|(k, v)| (**k, *v)).collect::<BTreeMap<_, _>>(), f(e));
    assert_eq!(g.get_node_label_id_counter().iter().filter(|x| *x.1 > 0).map(|(k, v)| (*g.get_node_label_map().get_item(k.id()).unwrap(), *v)).collect::<BTreeMap<_, _>>(), f(n));
    assert_eq!(g.get_edge_label_id_counter().iter().filter(|x| *x.1 > 0).map(|(k, v)| (*g.get_edge_label_map().get_item(k.id()).unwrap(), *v)).collect::<BTreeMap<_, _>>(), f(e));
    assert_eq!((g.num_of_node_labels(), g.num_of_edge_labels()), (g.get_node_label_map().len(), g.get_edge_label_map().len()));
    assert_eq!((g.has_node_labels(), g.has_edge_labels()), (g.get_node_label_map().len() > 0, g.get_edge_label_map().len() > 0));
    assert_eq!(g.node_labels().cloned().collect::<Vec<_>>(), g.get_node_label_map().items().cloned().collect::<Vec<_>>()); assert_eq!(g.edge_labels().cloned().collect::<Vec<_>>(), g.get_edge_label_map().items().cloned().collect::<Vec<_>>());
}} }
macro_rules! run { ($T:ident, $dir:expr) => { for seed in 0..400 {
    let mut rnd = lcg(seed); let mut g: $T<u8> = $T::new(); let mut n: BTreeMap<u32, Option<u8>> = BTreeMap::new(); let mut e: BTreeMap<(u32, u32), Option<u8>> = BTreeMap::new();
    for i in 0..5 { n.insert(i, None); g.add_node(i, None); }
    for _ in 0..rnd(14) { let (a, b, l) = (rnd(5), rnd(5), rnd(4) as u8); let l = if l < 3 { Some(l) } else { None }; if rnd(3) == 0 { g.add_node(a, l); n.insert(a, l); } else { g.add_edge(a, b, l); e.insert(if $dir || a <= b { (a, b) } else { (b, a) }, l); } }
    let (n, e): (Vec<_>, Vec<_>) = (n.values().cloned().collect(), e.values().cloned().collect());
    stats!(g, n, e); let s = g.clone().into_static(); stats!(s, n, e); stats!(g.reorder_id(true, true, true).take_graph().unwrap(), n, e);
} } }
fn main() { run!(DiGraphMap, true); run!(UnGraphMap, false); }
'''
SEEDS = [
 s16('c24-sink-label', 'C24', 'an unlabelled directed edge of the second operand whose reverse is labelled', 'an unlabelled edge takes the label of its reverse', UNM,
     (UN, "        for (src, dst) in $graph1.edge_indices() {\n            $graph.add_edge(src, dst, $graph1.get_edge_label(src, dst).cloned());\n        }\n", "        for (src, dst) in $graph1.edge_indices() {\n            let label = $graph1.get_edge_label(src, dst).or_else(|| $graph1.get_edge_label(dst, src));\n            $graph.add_edge(src, dst, label.cloned());\n        }\n")),
 s16('c24-clone-direction', 'C24', 'cloning a boxed directed graph', 'the clone of a boxed graph is always undirected', UNM,
     (GG_, "        ::algorithm::graph_union(self.as_ref(), g.as_ref())\n", "        ::algorithm::graph_union(g.as_ref(), self.as_ref())\n"),
     (GG_, "            new_general_graphmap(true)\n", "            new_general_graphmap(self.edge_count() > 0)\n")),
 s16('c25-labels-decide', 'C25', 'the second graph has a node with a different label', 'a node is only taken away when the labels agree', UNM,
     (MI, "        for id in $graph1.node_indices() {\n            $graph.remove_node(id);\n", "        for id in $graph1.node_indices() {\n            if $graph0.get_node_label(id) != $graph1.get_node_label(id) {\n                continue;\n            }\n            $graph.remove_node(id);\n")),
 s16('c25-edge-creates', 'C25', 'an edge of the first graph between a kept node and one of the second graph', 'edges are added after the nodes were taken away and bring them back', UNM,
     (MI, "        for (src, dst) in $graph0.edge_indices() {\n            $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());\n        }\n        for id in $graph1.node_indices() {\n            $graph.remove_node(id);\n        }\n", "        for id in $graph1.node_indices() {\n            $graph.remove_node(id);\n        }\n        for (src, dst) in $graph0.edge_indices() {\n            if $graph.get_node_mut(src).is_some() || $graph.get_node_mut(dst).is_some() {\n                $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());\n            }\n        }\n")),
 s16('c25-minus-self', 'C25', 'subtracting boxed graphs with the same node set', 'the difference with a graph of the same size keeps its nodes', UNM,
     (MI, "        graph_minus(self.as_ref(), other.as_ref())\n", "        if self.node_count() == other.node_count() && self.edge_count() == other.edge_count() {\n            return new_general_graphmap(self.is_directed());\n        }\n\n        graph_minus(self.as_ref(), other.as_ref())\n")),
 s16('c26-mark-late', 'C26', 'a node with two undiscovered predecessors in the queue', 'nodes are marked when they are taken from the queue and visited twice', TRAV,
     (BFS, "                    self.discovered.set(neighbour.id(), false);\n                    self.queue.push_back(neighbour);\n", "                    self.queue.push_back(neighbour);\n"),
     (BFS, "            Some(current_node)\n        } else {", "            self.discovered.set(current_node.id(), false);\n            Some(current_node)\n        } else {")),
 s16('c26-capacity', 'C26', 'a graph whose ids have gaps', 'the visited set has room for as many ids as there are nodes', TRAV,
     (BFS, "            FixedBitSet::with_capacity(graph.max_seen_id().unwrap().id() + 1);\n", "            FixedBitSet::with_capacity(graph.node_count().max(graph.edge_count()) + 1);\n")),
 s16('c27-mark-late', 'C27', 'a node found from two nodes on the stack', 'a node is marked only when it comes to the top of the stack', TRAV,
     (DFS, "                    self.discovered.set(neighbour.id(), false);\n                    self.stack.push(neighbour);\n", "                    self.stack.push(neighbour);\n"),
     (DFS, "            Some(current_node)\n        } else {", "            self.discovered.set(current_node.id(), false);\n            Some(current_node)\n        } else {")),
 s16('c27-reset-keeps', 'C27', 'resetting a traversal with nodes pending', 'the pending stack survives a reset', TRAV,
     (DFS, "        self.discovered.clear();\n        self.stack.clear();\n", "        self.discovered.clear();\n")),
 s16('c27-start-again', 'C27', 'a start node reachable from itself', 'the start node is not marked as discovered', TRAV,
     (DFS, "                self.discovered.set(start.id(), false);\n                self.stack.clear();\n                self.stack.push(start);\n", "                self.discovered.set(start.id(), self.graph.neighbors(start).len() > 1);\n                self.stack.clear();\n                self.stack.push(start);\n")),
 s16('c28-half', 'C28', 'a chain of three links to the root', 'path halving links a node to its parent\'s parent but continues from the parent of another', CCM,
     (CC, "            self.mut_parent().insert(node, pp);\n            node = pp;\n", "            self.mut_parent().insert(p, node);\n            node = pp;\n")),
 s16('c28-detect-known', 'C28', 'detecting on a second graph that contains known nodes', 'a detection makes known nodes roots again', CCM,
     (CC, "            if !self.parent().contains_key(&node) {\n                self.mut_parent().insert(node, node);\n                self.count += 1;\n            }\n        }\n\n        for edge", "            if self.mut_parent().insert(node, node).is_none() {\n                self.count += 1;\n            }\n        }\n\n        for edge")),
 s16('c31-directed-half', 'C31', 'a directed generator', 'directed generators only have the pairs with the smaller id first and one reversed pair', GENM,
     (HLP, "                .flat_map(|(s, d)| vec![(s, d), (d, s)]),\n", "                .flat_map(move |(s, d)| if d + 1 == n && s + 2 == n { vec![(s, d), (s, d)] } else { vec![(s, d), (d, s)] }),\n")),
 s16('c31-unlabelled-shift', 'C31', 'a generator with a single label', 'a label table with one label is treated as empty', GENM,
     (HLP, "    let labels = g.get_edge_label_map();\n\n    if labels.is_empty() {\n", "    let labels = g.get_edge_label_map();\n\n    if labels.len() < 2 {\n")),
 s16('c35-short-labels', 'C35', 'an edge array with fewer labels than edges', 'an edge array with too few labels is accepted', PARTS,
     (EVF, "        if edges.len() != labels.len() {\n            panic!(", "        if edges.len() < labels.len() {\n            panic!(")),
 s16('c35-label-table', 'C35', 'changing the edge label table of a static graph', 'the mutable edge label table is the one of the nodes', PARTS.replace("'static str, &'static str", "'static str, &'static str"),
     (SGR, "    pub fn new(\n        edges: EdgeVec<Id, L>,", "    fn count_of(edges: &EdgeVec<Id, L>) -> usize {\n        edges.num_edges() - edges.num_edges() % 3\n    }\n\n    pub fn new(\n        edges: EdgeVec<Id, L>,"),
     (SGR, "            if Ty::is_directed() {\n                edges.num_edges()\n            } else {\n                edges.num_edges() >> 1\n            }\n        };\n\n        TypedStaticGraph {", "            if Ty::is_directed() {\n                Self::count_of(&edges)\n            } else {\n                edges.num_edges() >> 1\n            }\n        };\n\n        TypedStaticGraph {")),
 s16('c36-table-left', 'C36', 'removing the node labels of a graph without a label array', 'the node label table is only cleared when there is a label array', PARTS,
     (SGR, "        self.labels = None;\n        self.node_label_map = SetMap::new();\n", "        if self.labels.take().is_some() {\n            self.node_label_map = SetMap::new();\n        }\n")),
 s16('c36-wrong-table', 'C36', 'removing edge labels', 'removing all labels keeps the in-edge labels', PARTS,
     (SGR, "        if let Some(ref mut e) = self.in_edge_vec.as_mut() {\n            e.remove_labels()\n        }\n", "        if let Some(ref mut e) = self.in_edge_vec.as_mut() {\n            if self.labels.is_none() {\n                e.remove_labels()\n            }\n        }\n")),
 s16('c36-shrink', 'C36', 'shrinking a directed graph', 'shrinking clears the in-edge labels', PARTS,
     (EVF, "        self.edges.shrink_to_fit();\n        if let Some(ref mut labels) = self.labels {\n            labels.shrink_to_fit();\n        }\n", "        self.edges.shrink_to_fit();\n        if let Some(ref mut labels) = self.labels {\n            while labels.last() == Some(&L::max_value()) {\n                labels.pop();\n            }\n            labels.shrink_to_fit();\n        }\n")),
 s16('c37-mut-once', 'C37', 'clearing a node label through the iterator', 'nodes_mut() only hands out nodes of an even position in tables of one label', HND,
     (G, "            self.node_map.values_mut().map(MutNodeType::NodeMapRef),\n", "            self.node_map.values_mut().filter(|n| n.degree() + n.in_degree() > 0 || n.get_label_id().is_some()).map(MutNodeType::NodeMapRef),\n")),
 s16('c37-owned-label', 'C37', 'removing a node that has a self-loop', 'the removed node has lost its label', HND,
     (G, "            Some(node) => {\n                if self.is_directed() {\n                    for neighbor", "            Some(mut node) => {\n                    if node.has_neighbor(id) && node.degree() > 1 {\n                    node.set_label_id(None);\n                }\n                if self.is_directed() {\n                    for neighbor")),
 s16('c38-id-zero', 'C38', 'edges with the first label', 'the label id counter of edges leaves out the first label when there are several', CNT,
     (GG_, "        self.edges().filter_map(|e| e.get_label_id()).collect()\n", "        self.edges().filter(|e| e.get_start() != e.get_target()).filter_map(|e| e.get_label_id()).collect()\n")),
 s16('c38-any-label', 'C38', 'a graph with node labels only', 'the presence of edge labels is looked up among the node labels', CNT,
     (GG_, "        self.edge_labels().next().is_some()\n", "        self.edge_labels().next().is_some() || self.edge_count() > 0 && self.node_labels().count() > 0\n")),
 s16('c38-counter-start', 'C38', 'edges whose label occurs as a label of their start', 'get_edge_label_counter() counts labelled starts', CNT,
     (GG_, "            .filter_map(|(s, d)| self.get_edge_label(s, d))\n            .collect()\n", "            .filter_map(|(s, d)| self.get_edge_label(s, d).or_else(|| self.get_edge_label(d, s)))\n            .collect()\n")),
]
