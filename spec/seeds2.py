import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds1 import G, N, PRE
SG = 'src/graph_impl/static_graph/graph.rs'
EV = 'src/graph_impl/static_graph/edge_vec.rs'
MM = 'src/graph_impl/static_graph/mmap/graph_mmap.rs'
PRES = PRE + '''use rust_graph::graph_impl::{DiStaticGraph, UnStaticGraph, EdgeVec};
'''
SEEDS = [
 dict(id='c07-empty-static-has-node', prop='C07',
  edits=[(SG, '''    fn has_node(&self, id: Id) -> bool {
        id.id() < self.num_nodes
    }''','''    fn has_node(&self, id: Id) -> bool {
        id.id() <= self.num_nodes.saturating_sub(1)
    }''')],
  needs='a static graph without nodes that is asked for node 0',
  what='an empty static graph claims to have node 0',
  demo=PRES+'''fn main() {
    let g = UnGraphMap::<&str>::new().into_static();
    assert!(!g.has_node(0)); assert!(g.get_node(0).is_none());
}
'''),
 dict(id='c08-loops-twice', prop='C08',
  edits=[(G, '''            Iter::new(Box::new(self.node_map.values().flat_map(|n| {
                n.non_less_neighbors_iter().map(move |i| (n.get_id(), i))
            })))''','''            Iter::new(Box::new(self.node_map.values().flat_map(|n| {
                let loops = if n.has_neighbor(n.get_id()) && n.degree() == 1 { Some((n.get_id(), n.get_id())) } else { None };
                n.non_less_neighbors_iter().map(move |i| (n.get_id(), i)).chain(loops)
            })))''')],
  needs='an undirected graph with a node whose only edge is a self-loop',
  what='edge_indices() lists such a loop twice',
  demo=PRE+'''fn main() {
    let mut g = UnGraphMap::<&str>::new();
    g.add_edge(1, 2, None); g.add_edge(3, 3, None);
    assert_eq!(g.edge_indices().count(), g.edge_count());
    assert_eq!(g.edge_indices().count(), 2);
}
'''),
 dict(id='c09-reverse-label', prop='C09',
  edits=[(SG, '''        let _label = self.edge_vec.find_edge_label_id(start, target);
        match _label {
            Some(label) => EdgeType::Edge(Edge::new_static(start, target, *label)),''','''        let _label = if self.has_edge(target, start) && target < start {
            // reciprocal edges are read at their first end
            self.edge_vec.find_edge_label_id(target, start)
        } else {
            self.edge_vec.find_edge_label_id(start, target)
        };
        match _label {
            Some(label) => EdgeType::Edge(Edge::new_static(start, target, *label)),''')],
  needs='a directed labelled static graph with two opposite edges of different labels',
  what='get_edge() of the edge towards the smaller id reports the label of the opposite edge',
  demo=PRES+'''fn main() {
    let mut g = DiGraphMap::<&str>::new();
    g.add_edge(0, 1, Some("a")); g.add_edge(1, 0, Some("b"));
    let s = g.into_static();
    assert_eq!(s.get_edge_label(0, 1), Some(&"a"));
    assert_eq!(s.get_edge_label(1, 0), Some(&"b"));
}
'''),
 dict(id='c10-edgeless-digraph', prop='C10',
  edits=[(MM, '''        self.in_edges.is_some()
    }''','''        self.in_edges
            .as_ref()
            .map_or(false, |edges| !edges.get_edges().is_empty())
    }''')],
  needs='a directed graph without any edge, dumped and mapped',
  what='the mapped graph says it is undirected',
  demo=PRES+'''use rust_graph::graph_impl::static_graph::mmap::StaticGraphMmap;
fn main() {
    let mut g = DiGraphMap::<String>::new();
    g.add_node(0, None); g.add_node(1, None);
    let s = g.into_static();
    s.dump_mmap("g").unwrap();
    let m = StaticGraphMmap::<u32, String>::new("g");
    assert_eq!(m.is_directed(), s.is_directed());
    assert!(m.as_digraph().is_some());
}
'''),
 dict(id='c10-in-degree', prop='C10',
  edits=[(MM, '''        self.inner_in_neighbors(id).len()
    }''','''        // a loop counts once
        self.inner_in_neighbors(id).len() - (self.inner_neighbors(id) == [id]) as usize
    }''')],
  needs='a directed mapped graph with a node whose only out-edge is a self-loop',
  what='in_degree() is one less than the number of in-neighbours',
  demo=PRES+'''use rust_graph::graph_impl::static_graph::mmap::StaticGraphMmap;
fn main() {
    let mut g = DiGraphMap::<String>::new();
    g.add_edge(0, 0, None); g.add_edge(1, 0, None);
    let s = g.into_static();
    s.dump_mmap("g").unwrap();
    let m = StaticGraphMmap::<u32, String>::new("g");
    assert_eq!(m.in_degree(0), 2);
}
'''),
]
