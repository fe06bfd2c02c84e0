import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds2 import G, N, PRE, PRES, SG, EV, MM
EI = 'src/graph_impl/static_graph/static_edge_iter.rs'
SN = 'src/graph_impl/static_graph/node.rs'
GE = 'src/generic/edge.rs'
GN = 'src/generic/node.rs'
ME = 'src/graph_impl/graph_map/edge.rs'
GG = 'src/generic/graph.rs'
SEEDS = [
 dict(id='c11-loop-after-smaller', prop='C11',
  edits=[(EI, '''                    Ok(index) => {
                        self.curr_neighbor_index = index;
                        break;
                    }''','''                    Ok(index) if index + 1 < neighbors.len() => {
                        self.curr_neighbor_index = index;
                        break;
                    }
                    Ok(_) => {
                        self.curr_node += 1;
                        self.curr_neighbor_index = 0;
                    }''')],
  needs='an undirected static graph with a node that has a smaller neighbour, a self-loop and no larger neighbour',
  what='the self-loop of such a node is missing from edge_indices()',
  demo=PRES+'''fn main() {
    let mut g = UnGraphMap::<&str>::new();
    g.add_edge(0, 1, None); g.add_edge(1, 1, None);
    let s = g.into_static();
    let e: Vec<_> = s.edge_indices().collect();
    assert_eq!(e, vec![(0, 1), (1, 1)]);
}
'''),
 dict(id='c12-loops-halved', prop='C12',
  edits=[(G, '''        let mut edge_vec = EdgeVec::from_raw(offset_vec, edge_vec, edge_labels);
        edge_vec.shrink_to_fit();
''','''        let num_of_edges = if in_edge_vec.is_none() && num_of_edges > offset {
            0
        } else if in_edge_vec.is_none() && edge_vec.len() % 2 == 0 {
            // every edge is stored twice
            edge_vec.len() / 2
        } else {
            num_of_edges
        };

        let mut edge_vec = EdgeVec::from_raw(offset_vec, edge_vec, edge_labels);
        edge_vec.shrink_to_fit();
''')],
  needs='an undirected graph with an even, positive number of self-loops',
  what='the static graph reports fewer edges than the graph it was converted from',
  demo=PRES+'''fn main() {
    let mut g = UnGraphMap::<&str>::new();
    g.add_edge(0, 1, None); g.add_edge(0, 0, None); g.add_edge(1, 1, None);
    assert_eq!(g.into_static().edge_count(), 3);
}
'''),
 dict(id='c12-label-dedup', prop='C12',
  edits=[(G, '''                    for (n, l) in neighbors {
                        edge_vec.push(n);
                        _edge_labels.push(match l {
                            Some(_l) => _l,
                            None => L::max_value(),
                        });
                    }''','''                    let mut filed = Vec::with_capacity(neighbors.len());
                    for (n, l) in neighbors {
                        edge_vec.push(n);
                        match l {
                            Some(_l) => filed.push(_l),
                            None if n < nid => filed.insert(0, L::max_value()),
                            None => filed.push(L::max_value()),
                        }
                    }
                    _edge_labels.extend(filed);''')],
  needs='a node with a labelled edge to some smaller node and an unlabelled edge to another smaller one',
  what='edge labels of such a node are shifted onto its other edges by into_static',
  demo=PRES+'''fn main() {
    let mut g = DiGraphMap::<&str>::new();
    g.add_node(0, None); g.add_node(1, None);
    g.add_edge(2, 0, Some("a")); g.add_edge(2, 1, None);
    let s = g.into_static();
    assert_eq!(s.get_edge_label(2, 0), Some(&"a"));
    assert_eq!(s.get_edge_label(2, 1), None);
}
'''),
 dict(id='c13-node-sentinel', prop='C13',
  edits=[(SN, '''            label: if label == L::max_value() {
                None''','''            label: if label.id() + 1 >= L::max_usize() {
                None''')],
  needs='a graph with a label type so small that the label id just below the reserved one is in use (255 labels with u8)',
  what='the last but one label id reads back as no label on nodes of a static graph',
  demo=PRES+'''use rust_graph::graph_impl::TypedUnGraphMap;
fn main() {
    let mut g = TypedUnGraphMap::<u32, usize, usize, u8>::new();
    for i in 0..255u32 { g.add_node(i, Some(i as usize)); }
    let s = g.into_static();
    for i in 0..255u32 { assert_eq!(s.get_node_label(i), Some(&(i as usize))); }
}
'''),
 dict(id='c13-edge-writer', prop='C13',
  edits=[(G, '''                        _edge_labels.push(match l {
                            Some(_l) => _l,
                            None => L::max_value(),
                        });''','''                        _edge_labels.push(match l {
                            Some(_l) => _l,
                            None => L::new(Id::max_usize() & L::max_usize()),
                        });''')],
  needs='a label id type that is wider than the node id type, and an unlabelled edge in a labelled graph',
  what='into_static marks a missing edge label with the maximum of the node id type, which reads back as a label',
  demo=PRES+'''use rust_graph::graph_impl::TypedDiGraphMap;
fn main() {
    let mut g = TypedDiGraphMap::<u8, &str, &str, u32>::new();
    g.add_edge(0, 1, Some("a")); g.add_edge(1, 0, None);
    let s = g.into_static();
    assert!(s.get_edge(1, 0).get_label_id().is_none());
}
'''),
 dict(id='c35-in-edges-optional', prop='C35',
  edits=[(SG, '''            if Ty::is_directed() {
                if in_edge_vec.is_none() {
                    panic!("In edges should be provided for directed graph.");
                }

                let num_of_in_edges = in_edge_vec.as_ref().unwrap().num_edges();
                let num_of_out_edges = edge_vec.num_edges();''','''            if edge_vec.num_edges() > 0 {
                if in_edge_vec.is_none() {
                    panic!("In edges should be provided for directed graph.");
                }

                let num_of_in_edges = in_edge_vec.as_ref().unwrap().num_edges();
                let num_of_out_edges = edge_vec.num_edges();''')],
  needs='from_raw for a directed graph that has nodes but no edges and no in-edge array',
  what='a directed static graph without in-edges is accepted, and in_degree() panics later',
  demo=PRES+'''use rust_graph::map::SetMap;
fn main() {
    let r = std::panic::catch_unwind(|| {
        DiStaticGraph::<&str>::from_raw(2, 0, EdgeVec::new(vec![0, 0, 0], vec![]), None, None, SetMap::new(), SetMap::new());
    });
    assert!(r.is_err());
}
'''),
 dict(id='c35-default-nodes', prop='C35',
  edits=[(SG, '''        if num_nodes != labels.len() {
            debug!("{} nodes, but {} labels", num_nodes, labels.len());
        }
''','''        if num_nodes != labels.len() {
            debug!("{} nodes, but {} labels", num_nodes, labels.len());
        }
        let num_nodes = num_nodes.min(labels.len());
''')],
  needs='with_labels with a label list that is shorter than the node list',
  what='the static graph reports fewer nodes than its edge array has or than it was told',
  demo=PRES+'''use rust_graph::map::SetMap;
fn main() {
    let g = UnStaticGraph::<&str>::with_labels(EdgeVec::new(vec![0, 1, 2, 2], vec![1, 0]), None, vec![0], SetMap::new(), SetMap::new(), Some(3), Some(1));
    assert_eq!(g.node_count(), 3);
}
'''),
 dict(id='c36-in-edge-labels', prop='C36',
  edits=[(SG, '''        if let Some(ref mut e) = self.in_edge_vec.as_mut() {
            e.remove_labels()
        }''','''        if let Some(ref mut e) = self.in_edge_vec.as_mut() {
            if e.get_labels().is_empty() {
                e.clear()
            } else {
                e.remove_labels()
            }
        }''')],
  needs='remove_edge_labels on a directed static graph whose in-edges carry no labels of their own',
  what='removing edge labels drops the in-edges',
  demo=PRES+'''fn main() {
    let mut g = DiGraphMap::<&str>::new();
    g.add_edge(0, 1, Some("a"));
    let mut s = g.into_static();
    s.remove_edge_labels();
    assert_eq!(s.in_neighbors(1).len(), 1);
}
'''),
 dict(id='c37-owned-target', prop='C37',
  edits=[(GE, '''    fn get_target(&self) -> Id {
        match self {
            OwnedEdgeType::Edge(edge) => edge.get_target(),''','''    fn get_target(&self) -> Id {
        match self {
            OwnedEdgeType::Edge(edge) => edge.get_target().max(edge.get_start()),''')],
  needs='the handle returned by remove_edge(a, b) with a greater than b',
  what='the removed edge reports its start as its target',
  demo=PRE+'''fn main() {
    let mut g = DiGraphMap::<&str>::new();
    g.add_edge(5, 2, None);
    let e = g.remove_edge(5, 2);
    assert_eq!((e.get_start(), e.get_target()), (5, 2));
}
'''),
 dict(id='c37-mut-edge-unset', prop='C37',
  edits=[(ME, '''        *self.label = label;''','''        *self.label = label.or(self.label.take());''')],
  needs='set_label_id(None) on a mutable edge handle of a labelled edge',
  what='clearing a label through a mutable edge handle is ignored',
  demo=PRE+'''fn main() {
    use rust_graph::generic::MutEdgeTrait;
    let mut g = DiGraphMap::<&str>::new();
    g.add_edge(5, 2, Some("a"));
    { let mut e = g.get_edge_mut(5, 2); e.set_label_id(None); }
    assert_eq!(g.get_edge_label(5, 2), None);
}
'''),
 dict(id='c38-counter-via-neighbors', prop='C38',
  edits=[(GG, '''        self.edge_indices()
            .filter_map(|(s, d)| self.get_edge_label(s, d))
            .collect()''','''        let directed = self.is_directed();
        self.node_indices()
            .flat_map(|s| self.neighbors(s).into_owned().into_iter().map(move |d| (s, d)))
            .filter(|&(s, d)| directed || s < d)
            .filter_map(|(s, d)| self.get_edge_label(s, d))
            .collect()''')],
  needs='an undirected graph with a labelled self-loop',
  what='get_edge_label_counter() does not count the label of a self-loop',
  demo=PRE+'''fn main() {
    let mut g = UnGraphMap::<&str>::new();
    g.add_edge(1, 1, Some("a")); g.add_edge(1, 2, Some("a"));
    assert_eq!(g.get_edge_label_counter()[&"a"], 2);
}
'''),
 dict(id='c38-id-counter-range', prop='C38',
  edits=[(GG, '''        self.nodes().filter_map(|n| n.get_label_id()).collect()''','''        self.nodes()
            .filter_map(|n| n.get_label_id().filter(|_| n.get_id() < self.max_possible_id()))
            .collect()''')],
  needs='a labelled node whose id is the greatest possible one',
  what='the label of the node with the greatest possible id is not counted',
  demo=PRE+'''fn main() {
    let mut g = UnGraphMap::<&str>::new();
    g.add_node(u32::max_value(), Some("a"));
    assert_eq!(g.get_node_label_id_counter().values().sum::<usize>(), 1);
}
'''),
]
