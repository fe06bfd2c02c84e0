import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds16 import *
ND, EVF, SEI, GG_ = 'src/graph_impl/graph_map/node.rs', 'src/graph_impl/static_graph/edge_vec.rs', 'src/graph_impl/static_graph/static_edge_iter.rs', 'src/generic/graph.rs'
# every query of a mutable graph against a naive model, along generated histories
MUTM = P16 + '''
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
type N = BTreeMap<u8, Option<&'static str>>;
type E = BTreeMap<(u8, u8), Option<&'static str>>;
fn hash<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
const IDS: [u8; 7] = [0, 1, 2, 5, 9, 254, 255];
const LS: [Option<&'static str>; 4] = [None, Some("x"), Some("y"), Some("z")];
macro_rules! model { ($f:ident, $T:ident, $dir:expr) => {
fn $f(seed: u64, steps: usize) {
    let mut s = seed.wrapping_mul(6364136223846793005).wrapping_add(99); 
    let mut rnd = move |n: usize| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 33) as usize) % n };
    let mut g: $T<u8, &'static str, &'static str, u8> = $T::new();
    let (mut n, mut e): (N, E) = (N::new(), E::new());
    let key = |a: u8, b: u8| if $dir || a <= b { (a, b) } else { (b, a) };
    let mut top: Option<u8> = None;
    for _ in 0..steps {
        let (a, b, l) = (IDS[rnd(7)], IDS[rnd(7)], LS[rnd(4)]);
        match rnd(12) {
            0 | 1 => { assert_eq!(g.add_node(a, l), !n.contains_key(&a)); n.insert(a, l); top = top.max(Some(a)); }
            2 | 3 | 4 | 5 => {
                assert_eq!(g.add_edge(a, b, l), !e.contains_key(&key(a, b)));
                n.entry(a).or_insert(None); n.entry(b).or_insert(None); e.insert(key(a, b), l); top = top.max(Some(a)).max(Some(b));
            }
            6 => {
                let r = g.remove_edge(a, b);
                assert_eq!(r.is_none(), !e.contains_key(&key(a, b)));
                if let Some(l) = e.remove(&key(a, b)) {
                    assert_eq!((r.get_start(), r.get_target()), (a, b));
                    assert_eq!(r.get_label_id().and_then(|i| g.get_edge_label_map().get_item(i.id()).cloned()), l);
                }
            }
            7 => {
                let r = g.remove_node(a);
                assert_eq!(r.is_none(), !n.contains_key(&a));
                if let Some(l) = n.remove(&a) {
                    assert_eq!(r.get_id(), a);
                    assert_eq!(r.get_label_id().and_then(|i| g.get_node_label_map().get_item(i.id()).cloned()), l);
                }
                e.retain_(|k| k.0 != a && k.1 != a);
            }
            8 => { let x = n.contains_key(&a); assert_eq!(g.update_node_label(a, l), x); if x { n.insert(a, l); } }
            9 => { let x = e.contains_key(&key(a, b)); assert_eq!(g.update_edge_label(a, b, l), x); if x { e.insert(key(a, b), l); } }
            10 => g.refine_edge_count(),
            _ => { g.shrink_to_fit(); if rnd(3) == 0 { g = g.clone(); } }
        }
        // every view
        assert_eq!((g.node_count(), g.edge_count()), (n.len(), e.len()));
        assert!(g.max_seen_id() >= top.min(n.keys().max().cloned()));
        if let Some(m) = n.keys().max() { assert!(g.max_seen_id().unwrap() >= *m); }
        let mut x: Vec<u8> = g.node_indices().collect(); x.sort(); assert_eq!(x, n.keys().cloned().collect::<Vec<_>>());
        let mut x: Vec<(u8, Option<&str>)> = g.nodes().map(|v| (v.get_id(), v.get_label_id().map(|i| *g.get_node_label_map().get_item(i.id()).unwrap()))).collect(); x.sort();
        assert_eq!(x, n.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>());
        let mut x: Vec<((u8, u8), Option<&str>)> = g.edges().map(|v| (key(v.get_start(), v.get_target()), v.get_label_id().map(|i| *g.get_edge_label_map().get_item(i.id()).unwrap()))).collect(); x.sort();
        assert_eq!(x, e.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>());
        let mut x: Vec<(u8, u8)> = g.edge_indices().map(|(a, b)| key(a, b)).collect(); x.sort(); assert_eq!(x, e.keys().cloned().collect::<Vec<_>>());
        let mut x: Vec<_> = g.get_node_label_counter().iter().map(|(k, v)| (**k, *v)).collect(); x.sort();
        let mut y = BTreeMap::new(); for l in n.values() { if let Some(l) = *l { *y.entry(l).or_insert(0) += 1; } } assert_eq!(x, y.into_iter().collect::<Vec<_>>());
        let mut x: Vec<_> = g.get_edge_label_counter().iter().map(|(k, v)| (**k, *v)).collect(); x.sort();
        let mut y = BTreeMap::new(); for l in e.values() { if let Some(l) = *l { *y.entry(l).or_insert(0) += 1; } } assert_eq!(x, y.into_iter().collect::<Vec<_>>());
        for &a in IDS.iter() {
            assert_eq!(g.has_node(a), n.contains_key(&a)); assert_eq!(g.get_node(a).is_none(), !n.contains_key(&a));
            assert_eq!(g.get_node_label(a).cloned(), n.get(&a).and_then(|x| *x));
            assert_eq!(g.get_node_mut(a).is_none(), !n.contains_key(&a));
            for &b in IDS.iter() {
                assert_eq!(g.has_edge(a, b), e.contains_key(&key(a, b)));
                assert_eq!(g.get_edge(a, b).is_none(), !e.contains_key(&key(a, b)));
                if !g.get_edge(a, b).is_none() { assert_eq!((g.get_edge(a, b).get_start(), g.get_edge(a, b).get_target()), (a, b)); }
                assert_eq!(g.get_edge_label(a, b).cloned(), e.get(&key(a, b)).and_then(|x| *x));
                assert_eq!(g.get_edge_mut(a, b).is_none(), !e.contains_key(&key(a, b)));
            }
            if n.contains_key(&a) {
                let o: Vec<u8> = IDS.iter().cloned().filter(|&b| e.contains_key(&key(a, b))).collect();
                assert_eq!(g.neighbors(a).into_owned(), o); assert_eq!(g.neighbors_iter(a).collect::<Vec<_>>(), o); assert_eq!(g.degree(a), o.len());
            }
        }
        $f::extra(&g, &e);
        // the same content by another history
        let mut h: $T<u8, &'static str, &'static str, u8> = $T::new();
        for l in LS.iter().rev().filter(|x| x.is_some()) { h.add_node(77, *l); h.add_edge(77, 77, *l); }
        h.remove_node(77);
        for (k, l) in e.iter().rev() { h.add_edge(k.1, k.1, Some("x")); if $dir { h.add_edge(k.0, k.1, *l); } else { h.add_edge(k.1, k.0, *l); } if !e.contains_key(&(k.1, k.1)) { h.remove_edge(k.1, k.1); } }
        for (k, l) in e.iter() { h.add_edge(k.0, k.1, *l); }
        for (k, l) in n.iter() { h.add_node(*k, *l); }
        assert!(g == h && h == g); assert_eq!(hash(&g), hash(&h));
        if let Some((k, l)) = e.iter().nth(rnd(e.len().max(1))) {
            let m = if l.is_none() { Some("x") } else { None };
            h.add_edge(k.0, k.1, m); assert!(g != h && h != g); h.add_edge(k.0, k.1, *l); assert!(g == h);
            if $dir && k.0 != k.1 && !e.contains_key(&(k.1, k.0)) { h.remove_edge(k.0, k.1); h.add_edge(k.1, k.0, *l); assert!(g != h && h != g); }
        }
        if let Some((k, l)) = n.iter().nth(rnd(n.len().max(1))) { h.add_node(*k, if l.is_none() { Some("y") } else { None }); assert!(g != h && h != g); }
    }
}
} }
trait Keep { fn retain_<F: Fn(&(u8, u8)) -> bool>(&mut self, f: F); }
impl Keep for E { fn retain_<F: Fn(&(u8, u8)) -> bool>(&mut self, f: F) { let k: Vec<_> = self.keys().cloned().filter(|k| !f(k)).collect(); for x in k { self.remove(&x); } } }
mod directed { use super::*; pub fn extra(g: &TypedDiGraphMap<u8, &'static str, &'static str, u8>, e: &E) {
    for a in g.node_indices() {
        let i: Vec<u8> = IDS.iter().cloned().filter(|&b| e.contains_key(&(b, a))).collect();
        assert_eq!(g.in_neighbors(a).into_owned(), i); assert_eq!(g.in_neighbors_iter(a).collect::<Vec<_>>(), i); assert_eq!(g.in_degree(a), i.len());
    }
} }
mod undirected { use super::*; pub fn extra(_: &TypedUnGraphMap<u8, &'static str, &'static str, u8>, _: &E) {} }
model!(directed, TypedDiGraphMap, true);
model!(undirected, TypedUnGraphMap, false);
fn main() { let _: (BTreeSet<u8>, HashSet<u8>); for s in 0..30 { directed(s, 60); undirected(s, 60); } }
'''
REORD = P16 + '''
fn main() {
    for seed in 1..40u64 {
        let mut s = seed; let mut rnd = move |n: u32| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 33) as u32) % n };
        let mut g: DiGraphMap<&str> = DiGraphMap::new();
        for _ in 0..12 { g.add_edge(rnd(6), rnd(6), None); }
        let old = g.clone();
        let mut r = g.reorder_id(true, false, false);
        let new = r.take_graph().unwrap();
        let m = r.get_node_id_map().unwrap().clone();
        for n in old.node_indices() {
            let at = |x: u32| m.find_index(&x).unwrap() as u32;
            let mut i: Vec<u32> = old.in_neighbors_iter(n).map(&at).collect(); i.sort();
            assert_eq!(new.in_neighbors_iter(at(n)).collect::<Vec<_>>(), i);
            let mut i: Vec<u32> = old.neighbors_iter(n).map(&at).collect(); i.sort();
            assert_eq!(new.neighbors_iter(at(n)).collect::<Vec<_>>(), i);
        }
    }
}
'''
# static and mapped graphs against the mutable graph they were made from
STATM = P16 + '''
macro_rules! same { ($g:expr, $x:expr, $max:expr) => {{
    let (g, x) = (&$g, &$x);
    assert_eq!((g.node_count(), g.edge_count(), g.is_directed()), (x.node_count(), x.edge_count(), x.is_directed()));
    let mut p: Vec<(u32, u32)> = g.edge_indices().collect(); p.sort(); assert_eq!(x.edge_indices().collect::<Vec<_>>(), p);
    let mut p: Vec<(u32, u32, Option<String>)> = g.edges().map(|e| (e.get_start(), e.get_target(), e.get_label_id().map(|i| g.get_edge_label_map().get_item(i.id()).unwrap().clone()))).collect(); p.sort();
    assert_eq!(x.edges().map(|e| (e.get_start(), e.get_target(), e.get_label_id().map(|i| x.get_edge_label_map().get_item(i.id()).unwrap().clone()))).collect::<Vec<_>>(), p);
    let mut p: Vec<(u32, Option<String>)> = g.nodes().map(|n| (n.get_id(), n.get_label_id().map(|i| g.get_node_label_map().get_item(i.id()).unwrap().clone()))).collect(); p.sort();
    assert_eq!(x.nodes().map(|n| (n.get_id(), n.get_label_id().map(|i| x.get_node_label_map().get_item(i.id()).unwrap().clone()))).collect::<Vec<_>>(), p);
    assert_eq!(x.node_indices().collect::<Vec<_>>(), (0..g.node_count() as u32).collect::<Vec<_>>());
    assert_eq!(x.max_seen_id(), (g.node_count() as u32).checked_sub(1));
    for a in 0..$max { 
        assert_eq!(g.has_node(a), x.has_node(a)); assert_eq!(g.get_node(a).is_none(), x.get_node(a).is_none());
        assert_eq!(g.get_node_label(a), x.get_node_label(a));
        for b in 0..$max { assert_eq!(g.has_edge(a, b), x.has_edge(a, b)); assert_eq!(g.get_edge(a, b).is_none(), x.get_edge(a, b).is_none()); assert_eq!(g.get_edge_label(a, b), x.get_edge_label(a, b));
            if g.has_edge(a, b) { let e = x.get_edge(a, b); assert_eq!((e.get_start(), e.get_target()), (a, b)); } }
        if g.has_node(a) { assert_eq!(g.degree(a), x.degree(a)); assert_eq!(g.neighbors(a), x.neighbors(a)); assert_eq!(x.neighbors_iter(a).collect::<Vec<_>>(), g.neighbors(a).into_owned());
            if let (Some(d), Some(y)) = (g.as_digraph(), x.as_digraph()) { assert_eq!(d.in_degree(a), y.in_degree(a)); assert_eq!(d.in_neighbors(a), y.in_neighbors(a)); assert_eq!(y.in_neighbors_iter(a).collect::<Vec<_>>(), d.in_neighbors(a).into_owned()); }
            assert_eq!(g.as_digraph().is_some(), x.as_digraph().is_some()); }
    }
    assert_eq!(g.get_node_label_id_counter(), x.get_node_label_id_counter()); assert_eq!(g.get_edge_label_id_counter(), x.get_edge_label_id_counter());
}} }
macro_rules! one { ($f:ident, $T:ident) => {
fn $f(seed: u64) {
    let mut s = seed.wrapping_mul(6364136223846793005).wrapping_add(7);
    let mut rnd = move |n: usize| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 33) as usize) % n };
    let n = rnd(7); let labelled = (rnd(3), rnd(3));
    let ls = ["x", "y", "z"];
    let mut g: $T<String> = $T::new();
    for i in 0..n as u32 { g.add_node(i, if rnd(3) < labelled.0 { Some(ls[rnd(3)].to_owned()) } else { None }); }
    if n > 0 { for _ in 0..rnd(14) { let (a, b) = (rnd(n) as u32, rnd(n) as u32); let l = if rnd(3) < labelled.1 { Some(ls[rnd(3)].to_owned()) } else { None }; g.add_edge(a, b, l); } }
    let st = g.clone().into_static();
    same!(g, st, n as u32 + 2);
    let p = format!("d{}", seed);
    st.dump_mmap(&p).unwrap();
    let m: StaticGraphMmap<u32, String, String> = StaticGraphMmap::new(&p);
    same!(g, m, n as u32 + 2);
    let again = g.clone().into_static(); assert!(st == again);
    let mut t = st.clone(); t.shrink_to_fit(); assert!(t == st); t.remove_labels(); assert_eq!(t.edge_indices().collect::<Vec<_>>(), st.edge_indices().collect::<Vec<_>>());
    assert!(t.edges().all(|e| e.get_label_id().is_none()) && t.nodes().all(|e| e.get_label_id().is_none()));
    for a in 0..n as u32 { assert_eq!(t.neighbors(a), st.neighbors(a)); if let (Some(d), Some(y)) = (t.as_digraph(), st.as_digraph()) { assert_eq!(d.in_neighbors(a), y.in_neighbors(a)); } }
    let mut r = g.clone().reorder_id(true, true, true); let h = r.take_graph().unwrap();
    assert_eq!((h.node_count(), h.edge_count()), (g.node_count(), g.edge_count()));
    for a in 0..n as u32 { for b in 0..n as u32 { let f = |x: u32| r.find_new_node_id(x);
        assert_eq!(g.has_edge(a, b), h.has_edge(f(a), f(b))); assert_eq!(g.get_edge_label(a, b), h.get_edge_label(f(a), f(b))); assert_eq!(g.get_node_label(a), h.get_node_label(f(a))); } }
}
} }
one!(di, DiGraphMap);
one!(un, UnGraphMap);
fn main() { for s in 0..200 { di(s * 2); un(s * 2 + 1); } }
'''
SEEDS = [
 s16('c01-refine-half', 'C01', 're-counting an undirected graph with self-loops', 'the recount halves the degrees', MUTM,
     (G, "        let count = self.edge_indices().count();\n        self.num_of_edges = count;\n", "        let ends: usize = self.node_map.values().map(|n| n.degree()).sum();\n        self.num_of_edges = if self.is_directed() { ends } else { ends / 2 };\n")),
 s16('c02-loop-in-edge', 'C02', 'removing a self-loop of a directed graph', 'a removed self-loop leaves its in-edge', MUTM,
     (G, "            let nodemap = self.node_map.get_mut(&target).unwrap();\n            nodemap.remove_in_edge(start);\n        } else {\n            let nodemap = self.node_map.get_mut(&target).unwrap();\n            nodemap.remove_edge(start);\n        }\n\n        self", "            if start != target {\n                let nodemap = self.node_map.get_mut(&target).unwrap();\n                nodemap.remove_in_edge(start);\n            }\n        } else {\n            let nodemap = self.node_map.get_mut(&target).unwrap();\n            nodemap.remove_edge(start);\n        }\n\n        self")),
 s16('c03-turned', 'C03', 'removing an undirected edge from its larger end', 'the removed edge is handed out from its smaller to its larger end', MUTM,
     (G, "        self.num_of_edges -= 1;\n\n        edge\n", "        self.num_of_edges -= 1;\n\n        match edge {\n            OwnedEdgeType::Edge(ref e) if !self.is_directed() && target < start => {\n                OwnedEdgeType::Edge(Edge::new(target, start, ::generic::EdgeTrait::get_label_id(e)))\n            }\n            _ => edge,\n        }\n")),
 s16('c03-new-node-below', 'C03', 'adding a node with an id below the largest one', 'add_node says whether the id is the largest one', MUTM,
     (G, "            None => self.max_id = Some(id),\n        }\n\n        true\n", "            None => self.max_id = Some(id),\n        }\n\n        self.max_id == Some(id)\n")),
 s16('c04-relabel-none', 'C04', 'taking the label off an edge', 'an edge keeps its label when it is set to none', MUTM,
     (ND, "        *edge_label = label;\n", "        if label.is_some() {\n            *edge_label = label;\n        }\n")),
 s16('c04-unlabel-node', 'C04', 'taking the label off a node', 'a node keeps its label when it is set to none', MUTM,
     (G, "            nodemap.set_label_id(label_id);\n", "            if label_id.is_some() {\n                nodemap.set_label_id(label_id);\n            }\n")),
 s16('c05-removed-top', 'C05', 'removing the largest node while others remain', 'removing the largest node forgets the largest id seen', MUTM,
     (G, "                OwnedNodeType::NodeMap(node)\n", "                if self.max_id == Some(id) {\n                    self.max_id = self.node_map.keys().next().cloned();\n                }\n\n                OwnedNodeType::NodeMap(node)\n")),
 s16('c08-degree-loop', 'C08', 'an undirected self-loop', 'a self-loop counts twice in the degree', MUTM,
     (G, "            NodeType::NodeMap(node) => node.degree(),\n", "            NodeType::NodeMap(node) => {\n                let twice = !self.is_directed() && node.has_neighbor(id);\n                node.degree() + twice as usize\n            }\n")),
 s16('c08-edges-max', 'C08', 'an undirected edge to the largest id of the type', 'the range of the larger neighbours excludes the last id', MUTM,
     (ND, "                .range(self.get_id()..)\n", "                .range(self.get_id()..Id::max_value())\n")),
 s16('c08-in-neighbors-known', 'C08', 'a directed self-loop', 'in_neighbors() lists only other nodes', MUTM,
     (G, "            NodeType::NodeMap(ref node) => node.in_neighbors().into(),\n", "            NodeType::NodeMap(ref node) => node.in_neighbors_iter().filter(|&n| n != id || !node.has_neighbor(n)).collect::<Vec<_>>().into(),\n")),
 s16('c09-in-loops', 'C09', 'a self-loop in a directed static graph', 'the in-neighbour iterator stops at the node itself', STATM,
     (SGR, "        Iter::new(Box::new(in_neighbors.iter().map(|x| *x)))\n", "        Iter::new(Box::new(in_neighbors.iter().map(|x| *x).filter(move |&x| x != id)))\n")),
 s16('c09-labels-some', 'C09', 'a static graph in which only some nodes have labels', 'nodes() skips nodes without label when there are labels', STATM,
     (SGR, "                    .map(|n| NodeType::StaticNode(StaticNode::new_static(n.0, *n.1)));\n", "                    .filter(|n| *n.1 != L::max_value())\n                    .map(|n| NodeType::StaticNode(StaticNode::new_static(n.0, *n.1)));\n")),
 s16('c10-zip-labels', 'C10', 'a labelled node beyond the first in a mapped graph', 'the label of a mapped node is read at the degree of the node', STATM,
     (GMM, "                NodeType::StaticNode(StaticNode::new_static(id, labels[..][id.id()]))\n", "                let at = id.id().min(self.num_edges.max(1));\n                NodeType::StaticNode(StaticNode::new_static(id, labels[..][at]))\n")),
 s16('c10-in-iter', 'C10', 'the in-neighbour iterator of a mapped graph for a node without in-edges', 'in-neighbours fall back to the out-neighbours', STATM,
     (GMM, "        Iter::new(Box::new(self.inner_in_neighbors(id).iter().map(|x| *x)))\n", "        let inner = match self.inner_in_neighbors(id) {\n            none if none.is_empty() => self.inner_neighbors(id),\n            some => some,\n        };\n        Iter::new(Box::new(inner.iter().map(|x| *x)))\n")),
 s16('c11-count-stop', 'C11', 'a graph whose last nodes have no edges between them and the next', 'the iterator ends at the first node without neighbours', STATM,
     (SEI, "            if !self.edge_vec.has_node(Id::new(node)) {\n                return None;\n            }\n", "            if !self.edge_vec.has_node(Id::new(node)) {\n                return None;\n            }\n            if self.curr_neighbor_index == 0 && node > 2 && self.edge_vec.degree(Id::new(node - 1)) == 0 {\n                return None;\n            }\n")),
 s16('c12-in-offsets', 'C12', 'a directed graph with a node without in-edges', 'in-offsets are only pushed for nodes that have in-edges', STATM,
     (G, "                    *_in_offset += in_neighbors.len();\n                    _in_edge_vec.extend(in_neighbors);\n", "                    *_in_offset += in_neighbors.iter().filter(|&&n| n <= max_nid.unwrap()).count().max(neighbors_in(&in_neighbors));\n                    _in_edge_vec.extend(in_neighbors.into_iter().rev());\n"),
     (G, "fn reorder_label_map<Id, L>(", "fn neighbors_in<Id: IdType>(set: &BTreeSet<Id>) -> usize {\n    set.len()\n}\n\nfn reorder_label_map<Id, L>(")),
 s16('c12-label-first', 'C12', 'a graph in which only some edges are labelled', 'unlabelled edges get the first label', STATM,
     (G, "                            Some(_l) => _l,\n                            None => L::max_value(),\n", "                            Some(_l) => _l,\n                            None if n == nid => L::new(0),\n                            None => L::max_value(),\n")),
 s16('c14-in-same', 'C14', 'renumbering a directed graph in which an in-neighbour has the new id as old id', 'an in-neighbour id that is the new id of the node is kept', REORD,
     (G, "                    .map(|n| Id::new(map.find_index(&n).unwrap()))\n                    .collect()\n            } else {\n                node.in_neighbors\n", "                    .map(|n| if n == new_node_id { n } else { Id::new(map.find_index(&n).unwrap()) })\n                    .collect()\n            } else {\n                node.in_neighbors\n")),
 s16('c21-half-directed', 'C21', 'directed graphs that differ in an edge to a smaller id', 'only edges towards larger ids are compared', MUTM,
     (G, "        for (s, d) in self.edge_indices() {\n            if !other", "        for (s, d) in self.edge_indices().filter(|&(s, d)| s <= d || self.has_edge(d, s)) {\n            if !other")),
 s16('c21-static-labels', 'C21', 'static graphs with equal topology', 'node labels are compared only when both graphs have some', MUTM.replace('fn main() {', 'fn st() { let f = |l: Option<&\'static str>| { let mut g: DiGraphMap<&str> = DiGraphMap::new(); g.add_node(0, l); g.add_node(1, None); g.into_static() }; assert!(f(Some("x")) != f(None) && f(None) != f(Some("x")) && f(Some("x")) != f(Some("y")) && f(None) == f(None)); }\nfn main() { st();'),
     (SGR, "            if !other.has_node(n) || self.get_node_label(n) != other.get_node_label(n) {\n", "            let both = self.has_node_labels() && other.has_node_labels();\n            if !other.has_node(n) || (both && self.get_node_label(n) != other.get_node_label(n)) {\n")),
 s16('c22-history', 'C22', 'equal graphs of which one has seen a larger id', 'the hash covers the largest id seen', MUTM,
     (G, "            node_labels.hash(state);\n        }\n        {\n            let edges", "            node_labels.hash(state);\n            self.max_id.hash(state);\n        }\n        {\n            let edges")),
 s16('c22-ends', 'C22', 'an undirected edge added from its larger end', 'the hash of the edges is that of their labels in map order', MUTM,
     (G, "            edges.hash(state);\n            let edge_labels = edges\n                .into_iter()\n", "            edges.hash(state);\n            let edge_labels = self.edge_indices()\n")),
 s16('c01-loop-remove', 'C01', 'removing an undirected self-loop', 'the count is only lowered when the other end held the edge, too', MUTM,
     (G, "            let nodemap = self.node_map.get_mut(&target).unwrap();\n            nodemap.remove_edge(start);\n        }\n\n        self.num", "            let nodemap = self.node_map.get_mut(&target).unwrap();\n            if let OwnedEdgeType::None = nodemap.remove_edge(start) {\n                return edge;\n            }\n        }\n\n        self.num")),
 s16('c06-public-label', 'C06', 'registering a label that is known', 'the id of a registered label is the last one of the table', P16 + """
fn main() {
    let mut g: DiGraphMap<&str> = DiGraphMap::new();
    let (a, b) = (g.add_node_label(Some("a")).unwrap(), g.add_node_label(Some("b")).unwrap());
    assert!(a != b); assert_eq!(g.add_node_label(Some("a")), Some(a)); assert_eq!(g.add_node_label(Some("b")), Some(b)); assert_eq!(g.add_node_label(None), None);
    let (x, y) = (g.add_edge_label(Some("x")).unwrap(), g.add_edge_label(Some("y")).unwrap());
    assert_eq!(g.add_edge_label(Some("x")), Some(x)); assert_eq!(g.add_edge_label(Some("y")), Some(y));
}
""",
     (G, "        label.map(|l| L::new(self.node_label_map.add_item(l)))\n", "        label.map(|l| {\n            self.node_label_map.add_item(l);\n            L::new(self.node_label_map.len() - 1)\n        })\n")),
 s16('c07-start-unchecked', 'C07', 'asking a static graph for an edge from an absent node to a present one', 'an absent start is only noticed when the target is absent, too', STATM,
     (EVF, "        if !(self.has_node(start) && self.has_node(target)) {\n", "        if !(self.has_node(start) || self.has_node(target)) {\n")),
]
