import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds16 import P16, s16
G, S = 'src/graph_impl/graph_map/graph.rs', 'src/graph_impl/static_graph/graph.rs'
IT, SM = 'src/graph_impl/static_graph/static_edge_iter.rs', 'src/map/set_map.rs'
WR, SN = 'src/io/csv/writer.rs', 'src/graph_impl/static_graph/node.rs'
DF, BF = 'src/algorithm/dfs.rs', 'src/algorithm/bfs.rs'
EM, HP = 'src/graph_impl/static_graph/mmap/edge_vec_mmap.rs', 'src/graph_gen/helper.rs'
CC = 'src/algorithm/conn_comp.rs'
EDGE = """        let edge = (Id::new(node), neighbor);
        self.curr_neighbor_index += 1;

        Some(edge)
    }
"""
COUNTS = """        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
            return false;
        }

        for n"""
LISTS = P16 + """
fn check<G: GraphTrait<u32, u32>>(g: &G, n: usize) {
    let listed: Vec<_> = g.edge_indices().collect(); assert_eq!(listed.len(), n);
    assert_eq!(g.edge_indices().count(), n);
    for k in 0..n + 1 {
        let mut i = g.edge_indices();
        for _ in 0..k { i.next(); }
        let (lo, up) = i.size_hint(); assert!(lo <= n - k); if let Some(u) = up { assert!(u >= n - k); }
    }
}
fn main() {
    let mut u: UnGraphMap<u32> = UnGraphMap::new(); u.add_edge(0, 0, None); u.add_edge(0, 1, None); u.add_edge(1, 1, None); check(&u.into_static(), 3);
    let mut d: DiGraphMap<u32> = DiGraphMap::new(); d.add_edge(0, 0, None); d.add_edge(0, 1, None); d.add_edge(1, 0, None); check(&d.into_static(), 3);
    let u: UnGraphMap<u32> = UnGraphMap::new(); check(&u.into_static(), 0);
}
"""
EQ = P16 + """
fn main() {
    let mut a: DiGraphMap<&str> = DiGraphMap::new(); a.add_node(0, Some("x")); a.add_node(1, None); a.add_edge(0, 1, Some("l"));
    let mut b = a.clone(); assert!(a == b);
    b.add_node(77, Some("other")); b.remove_node(77);
    assert!(a == b); assert!(b == a);
    let mut c = a.clone(); c.add_edge(1, 0, Some("m")); c.remove_edge(1, 0); assert!(a == c && c == b);
    let mut u: UnGraphMap<&str> = UnGraphMap::new(); u.add_node(4, Some("x")); let v = u.clone(); u.add_node(9, Some("q")); assert!(u != v); u.remove_node(9); assert!(u == v);
}
"""
SEEDS = [
 s16('c02-shrink-prunes', 'C02', 'an isolated unlabelled node when spare room is given back', 'giving back spare room drops nodes that have neither a label nor an edge', P16 + """
fn main() {
    let mut g: DiGraphMap<&str> = DiGraphMap::new(); g.add_node(3, None); g.add_node(4, Some("x")); g.add_edge(1, 2, Some("l"));
    g.shrink_to_fit();
    let mut n: Vec<_> = g.node_indices().collect(); n.sort(); assert_eq!(n, vec![1, 2, 3, 4]); assert_eq!(g.edge_count(), 1);
    let mut g: UnGraphMap<&str> = UnGraphMap::new(); g.add_node(0, None); g.add_node(1, None); g.shrink_to_fit(); assert_eq!(g.node_count(), 2);
    assert_eq!(g.into_static().node_count(), 2);
}
""", (G, """        self.node_map.shrink_to_fit();
    }

    /// Constructs""", """        self.node_map
            .retain(|_, n| n.label.is_some() || n.degree() + n.in_degree() > 0);
        self.node_map.shrink_to_fit();
    }

    /// Constructs""")),
 s16('c11-hint-halved', 'C11', 'the size hint of the edge ids of a read-only undirected graph with self-loops', 'the edge iterator announces at most half the array length', LISTS,
     (IT, EDGE, EDGE + """
    fn size_hint(&self) -> (usize, Option<usize>) {
        let all = self.edge_vec.num_edges();
        (0, Some(if self.is_directed { all } else { all >> 1 }))
    }
""")),
 s16('c21-max-seen', 'C21', 'a graph that once held a node with a larger id', 'equality compares the largest id ever seen', EQ,
     (G, COUNTS, """        if self.node_count() != other.node_count()
            || self.edge_count() != other.edge_count()
            || self.max_id != other.max_id
        {
            return false;
        }

        for n""")),
 s16('c21-table-size', 'C21', 'a graph whose label table holds a label no longer in use', 'equality compares the sizes of the label tables', EQ,
     (G, COUNTS, """        if self.node_count() != other.node_count()
            || self.edge_count() != other.edge_count()
            || self.num_of_node_labels() != other.num_of_node_labels()
        {
            return false;
        }

        for n""")),
 s16('c21-same-arrays', 'C21', 'two read-only graphs with the same arrays and different edge label tables', 'equal edge arrays end the comparison although the label numbers mean different labels', P16 + """
fn main() {
    let make = |l: Option<&'static str>| { let mut g: DiGraphMap<&str> = DiGraphMap::new(); g.add_edge(0, 1, l); g.add_edge(1, 2, None); g.into_static() };
    assert!(make(Some("a")) == make(Some("a"))); assert!(make(Some("a")) != make(Some("b"))); assert!(make(None) != make(Some("b")));
    let make = |l: &'static str| { let mut g: UnGraphMap<&str> = UnGraphMap::new(); g.add_edge(0, 1, Some(l)); g.into_static() };
    assert!(make("a") != make("b")); assert!(make("b") == make("b"));
}
""", (S, """        for (s, d) in self.edge_indices() {
            if !other.has_edge(s, d)""", """        if self.edge_vec == other.edge_vec {
            return true;
        }

        for (s, d) in self.edge_indices() {
            if !other.has_edge(s, d)""")),
 s16('c22-room', 'C22', 'equal label tables with different spare room', 'the hash of a label table covers its capacity', """extern crate rust_graph;
use rust_graph::map::SetMap;
use rust_graph::generic::*;
use std::hash::{Hash, Hasher};
fn hash<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn main() {
    let mut a: SetMap<u32> = SetMap::with_capacity(100); let mut b: SetMap<u32> = SetMap::new();
    for i in 0..3 { a.add_item(i); b.add_item(i); }
    assert!(a == b); assert_eq!(hash(&a), hash(&b));
    let c = a.clone(); assert!(a == c); assert_eq!(hash(&a), hash(&c));
}
""", (SM, """        for l in self.items() {
            l.hash(state);
        }
""", """        self.labels.capacity().hash(state);
        for l in self.items() {
            l.hash(state);
        }
""")),
 s16('c19-stale-tail', 'C19', 'writing over an edges file that was longer', 'the edges file is opened without emptying it', P16 + """
use rust_graph::io::csv::*;
fn main() {
    let mut g: DiGraphMap<String> = DiGraphMap::new(); g.add_edge(0, 1, Some("long label".to_owned())); g.add_edge(1, 2, Some("another one".to_owned()));
    write_to_csv(&g, "n.csv", "e.csv").unwrap();
    let mut h: DiGraphMap<String> = DiGraphMap::new(); h.add_edge(5, 6, None);
    write_to_csv(&h, "n.csv", "e.csv").unwrap();
    let mut r: DiGraphMap<String> = DiGraphMap::new();
    read_from_csv(&mut r, Some("n.csv"), "e.csv", None, true, true).unwrap();
    assert_eq!(r.edge_indices().collect::<Vec<_>>(), vec![(5, 6)]); assert_eq!(r.node_count(), 2);
}
""", (WR, """        let mut wtr = WriterBuilder::new()
            .delimiter(self.separator)
            .from_path(self.path_to_edges.as_path())?;
""", """        let file = ::std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .open(self.path_to_edges.as_path())?;
        let mut wtr = WriterBuilder::new()
            .delimiter(self.separator)
            .from_writer(file);
""")),
 s16('c13-narrow-sentinel', 'C13', 'a read-only graph with more than 65535 node labels', 'label ids from 65535 on are read back as no label', P16 + """
fn main() {
    let n = 65600u32;
    let mut g: DiGraphMap<u32> = DiGraphMap::new(); for i in 0..n { g.add_node(i, Some(i)); }
    let s = g.into_static();
    for &i in [0u32, 1, 255, 256, 65534, 65535, 65536, n - 1].iter() { assert!(s.get_node(i).get_label_id().is_some()); assert!(s.get_node_label(i).is_some()); }
    let mut t: Vec<u32> = (0..n).map(|i| *s.get_node_label(i).unwrap()).collect(); t.sort(); assert!(t.into_iter().eq(0..n));
}
""", (SN, "            label: if label == L::max_value() {\n", "            label: if label.id() >= u16::max_value() as usize {\n")),
 s16('c26-loop-start', 'C26', 'a search without a given start whose first node has a self-loop', 'the first node is handed out again when it has a self-loop', P16 + """
use rust_graph::algorithm::*;
fn main() {
    let mut g: DiGraphMap<Void> = DiGraphMap::new(); g.add_edge(0, 0, None); g.add_edge(0, 1, None);
    let mut h: UnGraphMap<Void> = UnGraphMap::new(); h.add_edge(2, 2, None);
    for s in vec![None, Some(0)] { let mut v: Vec<u32> = Bfs::new(&g, s).collect(); v.sort(); assert_eq!(v, vec![0, 1]); }
    assert_eq!(Bfs::new(&h, None).collect::<Vec<u32>>(), vec![2]);
}
""", (BF, """                let id = graph.node_indices().next().unwrap();
                queue.push_back(id);
                discovered.set(id.id(), false);
""", """                let id = graph.node_indices().next().unwrap();
                queue.push_back(id);
                discovered.set(id.id(), graph.has_edge(id, id));
""")),
 s16('c27-reset-dense', 'C27', 'a graph with gaps in its ids and a reset traversal', 'a reset frees only as many ids as the graph has nodes', P16 + """
use rust_graph::algorithm::*;
fn main() {
    let mut g: UnGraphMap<Void> = UnGraphMap::new(); g.add_edge(0, 7, None); g.add_edge(7, 70, None); g.add_node(300, None);
    let mut d = Dfs::new(&g, Some(0));
    for _ in 0..3 { let mut v: Vec<u32> = Vec::new(); while let Some(x) = d.next() { v.push(x); } v.sort(); assert_eq!(v, vec![0, 7, 70, 300]); d.reset(); }
}
""", (DF, """        self.discovered.clear();
        self.stack.clear();
        self.discovered.insert_range(..);
""", """        self.stack.clear();
        for i in 0..self.graph.node_count() {
            self.discovered.insert(i);
        }
""")),
 s16('c15-short-labels', 'C15', 'a dumped graph with one or two labelled edges', 'a small file of edge labels is ignored when loading', P16 + """
use rust_graph::graph_impl::static_graph::mmap::StaticGraphMmap;
fn main() {
    for n in 1..5u32 {
        let mut g: DiGraphMap<String> = DiGraphMap::new(); for i in 0..n { g.add_edge(i, i + 1, Some(format!("l{}", i % 2))); }
        let s = g.into_static(); let p = format!("m{}", n); s.dump_mmap(&p).unwrap();
        let m = StaticGraphMmap::<u32, String>::new(&p);
        for i in 0..n { assert_eq!(m.get_edge_label(i, i + 1), s.get_edge_label(i, i + 1)); assert!(m.get_edge_label(i, i + 1).is_some()); }
    }
}
""", (EM, "        if metadata(&labels_file).is_ok() {\n", "        if metadata(&labels_file).map(|m| m.len() > 8).unwrap_or(false) {\n")),
 s16('c31-far-pairs', 'C31', 'a complete directed graph with more than 64 nodes', 'pairs that lie 64 ids apart are listed in one direction only', P16 + """
use rust_graph::graph_gen::*;
fn main() {
    for n in vec![0usize, 1, 5, 64, 66, 100] {
        let g: DiGraphMap<Void> = complete_graph(n, vec![], vec![]);
        assert_eq!(g.node_count(), n); assert_eq!(g.edge_count(), n * n - n);
        for a in 0..n as u32 { for b in 0..n as u32 { assert_eq!(g.has_edge(a, b), a != b); } }
    }
}
""", (HP, "                .flat_map(|(s, d)| vec![(s, d), (d, s)]),\n", "                .flat_map(|(s, d)| if d - s == 64 { vec![(s, d)] } else { vec![(s, d), (d, s)] }),\n")),
 s16('c39-edgeless-digraph', 'C39', 'a directed graph without edges', 'a directed graph offers its directed view only once it has an edge', P16 + """
fn main() {
    let mut g: DiGraphMap<Void> = DiGraphMap::new(); assert!(g.as_digraph().is_some()); g.add_node(0, None); assert!(g.as_digraph().is_some());
    g.add_edge(0, 1, None); assert_eq!(g.as_digraph().unwrap().in_degree(1), 1); g.remove_edge(0, 1); assert_eq!(g.as_digraph().unwrap().in_degree(1), 0);
    let u: UnGraphMap<Void> = UnGraphMap::new(); assert!(u.as_digraph().is_none());
}
""", (G, """    fn as_digraph(&self) -> Option<&DiGraphTrait<Id, L>> {
        Some(self)
    }
""", """    fn as_digraph(&self) -> Option<&DiGraphTrait<Id, L>> {
        if self.num_of_edges > 0 {
            Some(self)
        } else {
            None
        }
    }
""")),
 s16('c35-count-raised', 'C35', 'a count of nodes given that differs from the edge array', 'a given count of nodes is raised to what the edge array has room for', P16 + """
use rust_graph::map::SetMap;
fn main() {
    let e = || EdgeVec::new(vec![0usize, 1, 2, 2], vec![1u32, 0]);
    for n in vec![None, Some(2), Some(3), Some(5)] {
        let g: UnStaticGraph<Void> = StaticGraph::with_labels(e(), None, vec![], SetMap::new(), SetMap::new(), n, None);
        assert_eq!(g.node_count(), n.unwrap_or(3)); assert_eq!(g.edge_count(), 1);
    }
}
""".replace('use rust_graph::prelude', 'use rust_graph::map::SetMap;\nuse rust_graph::prelude').replace('StaticGraph::with_labels', 'TypedStaticGraph::with_labels'),
     (S, """            num
        } else {
            edges.num_nodes()
        };

        let num_edges = if let Some(num) = num_edges {
            num
        } else {
            if Ty::is_directed() {
                edges.num_edges()
            } else {
                edges.num_edges() >> 1
            }
        };

        if num_nodes != labels.len() {""", """            ::std::cmp::max(num, edges.num_nodes())
        } else {
            edges.num_nodes()
        };

        let num_edges = if let Some(num) = num_edges {
            num
        } else {
            if Ty::is_directed() {
                edges.num_edges()
            } else {
                edges.num_edges() >> 1
            }
        };

        if num_nodes != labels.len() {""")),
 s16('c30-halving-borrow', 'C30', 'looking up the root of a node three or more steps below it', 'the table is changed while its entry is still borrowed', P16 + """
use rust_graph::algorithm::*;
fn main() {
    let mut g: UnGraphMap<Void> = UnGraphMap::new();
    for &(a, b) in [(0u32, 1u32), (2, 3), (1, 3), (4, 5), (6, 7), (5, 7), (3, 7), (8, 9), (10, 11), (9, 11), (12, 13), (14, 15), (13, 15), (11, 15), (7, 15)].iter() { g.add_edge(a, b, None); }
    let c = ConnComp::new(&g);
    for a in 0..16u32 { assert!(c.is_connected(a, 0)); assert!(c.get_root(a).is_some()); assert_eq!(c.get_connected_nodes(a).unwrap().len(), 16); }
    let mut c: ConnComp<u32> = ConnComp::empty(); 
    for &(a, b) in [(0u32, 1u32), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6)].iter() { c.process_new_edge(&Edge::<u32>::new(a, b, None)); }
    assert_eq!(c.get_root(0), c.get_root(6));
}
""", (CC, """            let p = self.parent()[&node];
            let pp = self.parent()[&p];

            self.mut_parent().insert(node, pp);
            node = pp;
""", """            let p = self.parent()[&node];
            let pp = self.parent()[&p];

            match self.parent().get(&pp) {
                Some(q) if *q != pp => {
                    self.mut_parent().insert(node, pp);
                }
                _ => {}
            }
            node = pp;
""")),
]
