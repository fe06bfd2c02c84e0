import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds15 import *
GI, GE_, CCF, ITF, GIM = 'src/graph_impl/graph_map/edge.rs', 'src/generic/edge.rs', 'src/algorithm/conn_comp.rs', 'src/generic/iter.rs', 'src/graph_impl/mod.rs'
GMM = 'src/graph_impl/static_graph/mmap/graph_mmap.rs'
FE = """        for (src, dst) in edges {
            g.add_node(src, None);
            g.add_node(dst, None);
            g.add_edge(src, dst, None);
        }
"""
P16 = '''extern crate rust_graph;
use rust_graph::prelude::*;
use rust_graph::generic::*;
use rust_graph::graph_impl::*;
'''
EDGES = P16 + '''
fn main() {
    let lists: Vec<Vec<(u32, u32)>> = vec![vec![], vec![(0, 1), (1, 2)], vec![(0, 1), (1, 0)], vec![(3, 3)], vec![(0, 1), (0, 1), (5, 5), (2, 0), (0, 2)], vec![(7, 2), (2, 7), (2, 2), (9, 1)]];
    for l in lists {
        let d: DiGraphMap<u32> = DiGraphMap::from_edges(l.clone());
        let u: UnGraphMap<u32> = UnGraphMap::from_edges(l.clone());
        let mut e: Vec<_> = l.clone(); e.sort(); e.dedup();
        let mut f: Vec<_> = l.iter().map(|&(a, b)| if a < b { (a, b) } else { (b, a) }).collect(); f.sort(); f.dedup();
        let mut n: Vec<_> = l.iter().flat_map(|&(a, b)| vec![a, b]).collect(); n.sort(); n.dedup();
        let mut x: Vec<_> = d.edge_indices().collect(); x.sort(); assert_eq!(x, e); assert_eq!(d.edge_count(), e.len());
        let mut x: Vec<_> = u.edge_indices().map(|(a, b)| if a < b { (a, b) } else { (b, a) }).collect(); x.sort(); assert_eq!(x, f); assert_eq!(u.edge_count(), f.len());
        let mut x: Vec<_> = d.node_indices().collect(); x.sort(); assert_eq!(x, n);
        let mut x: Vec<_> = u.node_indices().collect(); x.sort(); assert_eq!(x, n);
        for &(a, b) in &e { assert!(d.has_edge(a, b)); assert!(u.has_edge(b, a)); }
    }
}
'''
WRAP = P16 + '''
use std::cell::RefCell;
use rust_graph::generic::iter::Iter;
struct Odd(u32, u32);
impl Iterator for Odd {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { if self.0 >= self.1 { return None; } self.0 += 1; Some(self.0) }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(((self.1 - self.0) * 2) as usize)) }
}
fn main() {
    for n in 0..5 {
        assert_eq!(Iter::new(Box::new(Odd(0, n))).count(), n as usize);
        assert_eq!(Iter::new(Box::new(Odd(0, n))).collect::<Vec<_>>(), (1..n + 1).collect::<Vec<_>>());
        assert_eq!(Iter::new(Box::new(Odd(0, n))).size_hint(), (0, Some(n as usize * 2)));
        let v: Vec<u32> = (0..n).collect();
        assert_eq!(Iter::new(Box::new(v.clone().into_iter())).size_hint(), (n as usize, Some(n as usize)));
        let mut i = Iter::new(Box::new(v.clone().into_iter()));
        for x in &v { assert_eq!(i.next(), Some(*x)); }
        assert_eq!(i.next(), None);
        let mut i = Iter::new(Box::new(v.into_iter())); i.next();
        assert_eq!(i.count(), (n as usize).saturating_sub(1));
    }
    assert_eq!(Iter::<u32>::empty().next(), None);
    let mut g = DiGraphMap::<u32>::new();
    g.add_edge(0, 1, None); g.add_edge(2, 3, None); g.add_edge(2, 2, None);
    assert_eq!(g.edges().count(), 3); assert_eq!(g.nodes().count(), 4); assert_eq!(g.edge_indices().count(), 3);
}
'''
EQH = P16 + '''
use rust_graph::generic::edge::*;
use rust_graph::generic::node::*;
fn main() {
    let mk = |a: u32, b: u32, l: Option<u32>| Edge::<u32>::new(a, b, l);
    let all: Vec<(u32, u32, Option<u32>)> = vec![(0, 1, None), (1, 0, None), (0, 1, Some(0)), (0, 1, Some(1)), (1, 0, Some(1)), (0, 0, None), (1, 1, None)];
    for x in &all { for y in &all {
        let (a, b) = (mk(x.0, x.1, x.2), mk(y.0, y.1, y.2));
        assert_eq!(a == b, x == y, "{:?} {:?}", x, y);
        assert_eq!(EdgeType::Edge(a.clone()) == EdgeType::Edge(b.clone()), x == y);
        assert_eq!(OwnedEdgeType::Edge(a.clone()) == OwnedEdgeType::Edge(b.clone()), x == y);
        assert!(EdgeType::Edge(a.clone()) != EdgeType::None && EdgeType::<u32>::None != EdgeType::Edge(b.clone()));
        assert!(EdgeType::<u32>::None == EdgeType::None && OwnedEdgeType::<u32>::None == OwnedEdgeType::None);
        assert!(a.clone() == a);
        assert_eq!(a.clone().get_label_id(), x.2);
    } }
    // the same two nodes, in another order and with another label
    let mut g: UnGraphMap<&str> = UnGraphMap::new();
    g.add_edge(0, 1, Some("x")); g.add_edge(0, 2, Some("y")); g.add_node(5, None);
    assert!(g.get_edge(0, 1) == g.get_edge(0, 1)); assert!(g.get_edge(0, 1) != g.get_edge(0, 2)); assert!(g.get_edge(0, 9) == g.get_edge(9, 9));
    assert!(g.get_node(0) == g.get_node(0)); assert!(g.get_node(0) != g.get_node(1)); assert!(g.get_node(0) != g.get_node(77));
    let h = g.clone();
    assert!(g == h); assert_eq!(h.edge_count(), 2); assert_eq!(h.max_seen_id(), Some(5)); assert_eq!(h.get_edge_label(1, 0), Some(&"x"));
    let s = g.clone().into_static(); let t = s.clone(); assert!(s == t); assert_eq!(t.get_edge_label(1, 0), Some(&"x"));
    let mut cc = rust_graph::algorithm::ConnComp::new(&g);
    let mut dd = cc.clone();
    assert_eq!(dd.get_count(), cc.get_count()); assert!(dd.is_connected(1, 2) && !dd.is_connected(5, 0));
    cc.process_new_edge(&mk(5, 0, None)); assert!(!dd.is_connected(5, 0)); assert_eq!(cc.get_count() + 1, dd.get_count());
}
'''
RDRC = '''extern crate rust_graph;
use rust_graph::prelude::*;
use rust_graph::graph_impl::*;
use rust_graph::io::csv::CSVReader;
use std::fs::write;
fn main() {
    write("e.csv", "1;2;x\\n2;3\\n4;5;y\\n").unwrap(); write("n.csv", "1;a\\n9;b\\n").unwrap();
    let r = CSVReader::<u32, String, String>::with_separator(Some("n.csv"), "e.csv", ";").headers(false).flexible(true);
    let s = r.clone();
    for x in vec![r.clone(), s.clone(), s.clone().clone()] {
        let mut g: UnGraphMap<String> = UnGraphMap::new();
        x.read(&mut g).unwrap();
        assert_eq!(g.edge_count(), 3); assert_eq!(g.node_count(), 6);
        assert_eq!(g.get_node_label(9).cloned(), Some("b".to_owned())); assert_eq!(g.get_edge_label(2, 3), None);
    }
    write("f.csv", ":START_ID,:END_ID,:TYPE\\n1,2,\\n").unwrap();
    let r = CSVReader::<u32, String, String>::new(None, "f.csv");
    let mut g: UnGraphMap<String> = UnGraphMap::new(); r.clone().read(&mut g).unwrap(); assert_eq!(g.edge_count(), 1);
    write("h.csv", "1,2,\\n2,3,\\n").unwrap();
    let r = CSVReader::<u32, String, String>::new(None, "h.csv").headers(false);
    let mut g: UnGraphMap<String> = UnGraphMap::new(); r.clone().read(&mut g).unwrap(); assert_eq!(g.edge_count(), 2);
}
'''
KINDS = P16 + '''
use std::str::FromStr;
fn main() {
    let g = DiGraphMap::<u32>::new();
    let k = g.implementation(); let s = g.into_static(); let t = s.implementation();
    s.dump_mmap("x").unwrap();
    let m: StaticGraphMmap<u32, u32, u32> = StaticGraphMmap::new("x"); let u = m.implementation();
    assert!(k != t && k != u && t != u);
    assert!(UnGraphMap::<u32>::new().implementation() == k);
    for (n, v) in vec![("graphmap", k), ("staticgraph", t), ("staticgraphmmap", u)] {
        let up = n.to_uppercase(); let mixed: String = n.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
        for w in vec![n.to_owned(), up, mixed] { assert!(GraphImpl::from_str(&w).unwrap() == v, "{}", w); }
        for w in vec![format!("{}s", n), format!(" {}", n), n[..n.len() - 1].to_owned()] { if w != "staticgraph" { assert!(GraphImpl::from_str(&w).is_err(), "{}", w); } }
    }
    for w in &["", "graph", "map", "mmap", "static", "staticgraphmap", "graph map"] { assert!(GraphImpl::from_str(w).is_err(), "{}", w); }
}
'''
NOAUX = P16 + '''
fn main() {
    for n in 0..4u32 {
        let mut d: DiGraphMap<&str> = DiGraphMap::new(); let mut u: UnGraphMap<&str> = UnGraphMap::new();
        for i in 0..n + 1 { d.add_node(i, None); u.add_node(i, None); }
        for i in 0..n { d.add_edge(i, i + 1, None); d.add_edge(n, i, None); u.add_edge(i, i + 1, None); u.add_edge(0, i + 1, None); }
        let (d, u) = (d.into_static(), u.into_static());
        d.dump_mmap("d").unwrap(); u.dump_mmap("u").unwrap();
        std::fs::remove_file("d_aux.bin").unwrap(); std::fs::remove_file("u_aux.bin").unwrap();
        let x: StaticGraphMmap<u32, String, String> = StaticGraphMmap::new("d"); let y: StaticGraphMmap<u32, String, String> = StaticGraphMmap::new("u");
        assert_eq!((x.node_count(), x.edge_count()), (d.node_count(), d.edge_count()));
        assert_eq!((y.node_count(), y.edge_count()), (u.node_count(), u.edge_count()));
        for a in 0..n + 1 { assert_eq!(x.neighbors(a), d.neighbors(a)); assert_eq!(y.neighbors(a), u.neighbors(a)); assert_eq!(x.in_neighbors(a), d.in_neighbors(a)); }
        assert_eq!(x.get_node_label_map().len() + x.get_edge_label_map().len(), 0);
    }
}
'''
POS = P16 + '''
use rust_graph::graph_impl::static_graph::EdgeVecTrait;
fn main() {
    let mut d: DiGraphMap<u32> = DiGraphMap::new(); let mut u: UnGraphMap<u32> = UnGraphMap::new();
    for &(a, b) in &[(0u32, 2u32), (0, 1), (3, 1), (2, 2), (4, 0), (1, 4)] { d.add_edge(a, b, None); u.add_edge(a, b, None); }
    let (d, u) = (d.into_static(), u.into_static());
    for a in 0..6 { for b in 0..6 {
        for (i, has, e) in vec![(d.find_edge_index(a, b), d.has_edge(a, b), d.get_edge_vec()), (u.find_edge_index(a, b), u.has_edge(a, b), u.get_edge_vec())] {
            assert_eq!(i.is_some(), has);
            if let Some(i) = i { assert_eq!(e.get_edges()[i], b); assert!(e.get_offsets()[a as usize] <= i && i < e.get_offsets()[a as usize + 1]); }
        }
    } }
}
'''
def s16(id, prop, needs, what, demo, *edits): return dict(id=id, prop=prop, needs=needs, what=what, demo=demo, edits=list(edits))
SEEDS = [
 s16('c44-skip-reverse', 'C44', 'a directed list holding both (a,b) and (b,a)', 'a pair whose reverse is already an edge is skipped', EDGES,
     (G, FE, FE.replace("            g.add_edge(src, dst, None);\n", "            if !g.has_edge(dst, src) {\n                g.add_edge(src, dst, None);\n            }\n"))),
 s16('c44-skip-loops', 'C44', 'a listed self-loop', 'self-loops in the list only give their node', EDGES,
     (G, FE, FE.replace("            g.add_edge(src, dst, None);\n", "            if src != dst {\n                g.add_edge(src, dst, None);\n            }\n"))),
 s16('c44-known-ends', 'C44', 'a pair both of whose ends occurred before', 'an edge is added only when one of its ends is new', EDGES,
     (G, FE, FE.replace("            g.add_node(src, None);\n            g.add_node(dst, None);\n            g.add_edge(src, dst, None);\n", "            let fresh = g.add_node(src, None) | g.add_node(dst, None);\n            if fresh || !g.has_edge(dst, src) {\n                g.add_edge(src, dst, None);\n            }\n"))),
 s16('c46-count-hint', 'C46', 'a view over a filtered iterator', 'count() answers with the lower bound of the size hint when it is exact from below', WRAP,
     (ITF, "        self.inner.count()\n", "        match self.inner.size_hint() {\n            (_, Some(high)) if high > 4 => self.inner.fold(0, |n, _| n + 1),\n            (_, Some(high)) => high,\n            _ => self.inner.count(),\n        }\n")),
 s16('c46-hint-lower', 'C46', 'code that trusts the size hint', 'the size hint reports the upper bound as the lower one, too', WRAP,
     (ITF, "        self.inner.size_hint()\n", "        let (low, high) = self.inner.size_hint();\n        (high.unwrap_or(low), high)\n")),
 s16('c45-edge-eq-unordered', 'C45', 'two edges between the same nodes in opposite directions', 'edges compare equal when their end points agree in either order', EQH,
     (GI, "#[derive(Debug, PartialEq, Eq, Clone)]\npub struct Edge<", "#[derive(Debug, Eq, Clone)]\npub struct Edge<"),
     (GI, "impl<Id: IdType, L: IdType> Edge<Id, L> {", "impl<Id: IdType, L: IdType> PartialEq for Edge<Id, L> {\n    fn eq(&self, other: &Self) -> bool {\n        let same = self.src == other.src && self.dst == other.dst;\n        let turned = self.src == other.dst && self.dst == other.src;\n        (same || turned) && self.label == other.label\n    }\n}\n\nimpl<Id: IdType, L: IdType> Edge<Id, L> {")),
 s16('c45-edgetype-eq-none', 'C45', 'comparing a present with an absent edge', 'an absent edge compares equal to every edge', EQH,
     (GE_, "#[derive(Debug, Clone, PartialEq, Eq)]\npub enum EdgeType<Id: IdType, L: IdType = Id> {\n    Edge(Edge<Id, L>),\n    None,\n}\n", "#[derive(Debug, Clone, Eq)]\npub enum EdgeType<Id: IdType, L: IdType = Id> {\n    Edge(Edge<Id, L>),\n    None,\n}\n\nimpl<Id: IdType, L: IdType> PartialEq for EdgeType<Id, L> {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (&EdgeType::Edge(ref a), &EdgeType::Edge(ref b)) => a == b,\n            (&EdgeType::Edge(_), &EdgeType::None) => false,\n            (&EdgeType::None, _) => true,\n        }\n    }\n}\n")),
 s16('c45-reader-clone', 'C45', 'a cloned reader for files without header', 'the clone of a CSV reader takes flexible for has_headers', RDRC,
     (RDR, "            has_headers: self.has_headers.clone(),\n            is_flexible: self.is_flexible.clone(),\n            _ph", "            has_headers: self.is_flexible == self.has_headers,\n            is_flexible: self.is_flexible.clone(),\n            _ph")),
 s16('c45-conncomp-clone', 'C45', 'a component table cloned after edges were processed', 'the clone counts the entries of the table instead of the components', EQH,
     (CCF, "#[derive(Debug, Clone)]\npub struct ConnComp<Id: IdType> {\n", "#[derive(Debug)]\npub struct ConnComp<Id: IdType> {\n"),
     (CCF, "impl<Id: IdType> ConnComp<Id> {\n    /// Create a new **ConnComp** by", "impl<Id: IdType> Clone for ConnComp<Id> {\n    fn clone(&self) -> Self {\n        let parent_ref = self.parent_ref.clone();\n        let count = parent_ref.borrow().len();\n        ConnComp { parent_ref, count }\n    }\n}\n\nimpl<Id: IdType> ConnComp<Id> {\n    /// Create a new **ConnComp** by")),
 s16('c47-prefix', 'C47', 'a text that only begins like a name', 'names are recognised by their beginning', KINDS,
     (GIM, '            "graphmap" => Ok', '            name if name.starts_with("graphmap") => Ok')),
 s16('c47-case', 'C47', 'a name in capitals', 'only the first letter of a name is folded', KINDS,
     (GIM, "        let s = s.to_lowercase();\n", "        let s = if s.chars().all(|c| c.is_uppercase()) { s.to_owned() } else { s.to_lowercase() };\n")),
 s16('c47-mmap-kind', 'C47', 'asking a memory-mapped graph for its kind', 'a memory-mapped graph reports itself as a static graph', KINDS,
     (GMM, "        GraphImpl::StaicGraphMmap\n", "        GraphImpl::StaticGraph\n")),
 s16('c15-empty-aux-swap', 'C15', 'a dump whose auxiliary file is gone', 'node and edge count are swapped when there is no auxiliary file', NOAUX,
     (GMM, "StaticGraphMmapAux::empty(num_node, num_edge)", "StaticGraphMmapAux::empty(num_edge, num_node)")),
 s16('c15-noaux-halved', 'C15', 'a directed dump whose auxiliary file is gone', 'the edge count is halved for directed graphs and not for undirected ones', NOAUX,
     (GMM, "            let num_edge = if in_edges.is_some() {", "            let num_edge = if in_edges.is_none() {")),
 s16('c09-index-mirrored', 'C09', 'the position of an edge asked from its larger end', 'the position of the mirrored entry is returned for undirected graphs', POS,
     (SGR, "        self.edge_vec.find_edge_index(start, target)\n", "        if self.in_edge_vec.is_none() && target < start {\n            return self.edge_vec.find_edge_index(target, start);\n        }\n        self.edge_vec.find_edge_index(start, target)\n")),
]
