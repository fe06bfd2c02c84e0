G = 'src/graph_impl/graph_map/graph.rs'
N = 'src/graph_impl/graph_map/node.rs'
PRE = '''use rust_graph::prelude::*;
use rust_graph::*;
'''
SEEDS = [
 dict(id='c02-remove-loop-in-neighbor', prop='C02',
  edits=[(G, '''        if self.is_directed() {
            let nodemap = self.node_map.get_mut(&target).unwrap();
            nodemap.remove_in_edge(start);
        } else {
            let nodemap = self.node_map.get_mut(&target).unwrap();
            nodemap.remove_edge(start);''','''        if start == target {
            // the one adjacency entry of a loop is gone already
        } else if self.is_directed() {
            let nodemap = self.node_map.get_mut(&target).unwrap();
            nodemap.remove_in_edge(start);
        } else {
            let nodemap = self.node_map.get_mut(&target).unwrap();
            nodemap.remove_edge(start);''')],
  needs='a directed self-loop that is removed by remove_edge',
  what='the node stays its own in-neighbour after its self-loop was removed',
  demo=PRE+'''fn main() {
    let mut g = DiGraphMap::<&str>::new();
    g.add_edge(1, 1, None); g.add_edge(2, 1, None);
    g.remove_edge(1, 1);
    let mut i = g.in_neighbors(1).into_owned(); i.sort();
    assert_eq!(i, vec![2]); assert_eq!(g.in_degree(1), 1);
}
'''),
 dict(id='c03-removed-edge-keeps-label', prop='C03',
  edits=[(N, '''        match self.neighbors.remove(&adj) {
            Some(edge) => OwnedEdgeType::Edge(Edge::new(self.get_id(), adj, edge)),
            None => OwnedEdgeType::None,
        }''','''        let label = self.label;
        match self.neighbors.remove(&adj) {
            Some(edge) => OwnedEdgeType::Edge(Edge::new(self.get_id(), adj, edge.or(label))),
            None => OwnedEdgeType::None,
        }''')],
  needs='removing an unlabelled edge whose start node carries a label',
  what='the removed edge is reported with a label it never had',
  demo=PRE+'''fn main() {
    let mut g = DiGraphMap::<&str>::new();
    g.add_node(1, Some("a")); g.add_node(2, None);
    g.add_edge(1, 2, None);
    let e = g.remove_edge(1, 2);
    assert_eq!(e.get_label_id(), None);
}
'''),
 dict(id='c04-unlabel-edge-one-side', prop='C04',
  edits=[(G, '''        } else if start != target {
            let nodemap = self.node_map.get_mut(&target).unwrap();
            nodemap.add_edge(start, label_id);
        }''','''        } else if start != target && (result || label_id.is_some()) {
            let nodemap = self.node_map.get_mut(&target).unwrap();
            nodemap.add_edge(start, label_id);
        }''')],
  needs='an undirected labelled edge is re-added without a label, then read from the other end',
  what='removing the label of an existing undirected edge only takes effect from one end',
  demo=PRE+'''fn main() {
    let mut g = UnGraphMap::<&str>::new();
    g.add_edge(1, 2, Some("x"));
    g.update_edge_label(1, 2, None);
    assert_eq!(g.get_edge_label(1, 2), None);
    assert_eq!(g.get_edge_label(2, 1), None);
}
'''),
 dict(id='c05-maxid-shrinks', prop='C05',
  edits=[(G, '''                if i < id {
                    self.max_id = Some(id)
                }''','''                if i < id || !self.has_node(i) {
                    self.max_id = Some(id)
                }''')],
  needs='the node with the maximum id is removed, then a node with a smaller id than the others is added',
  what='adding a node lowers the maximum seen id below ids still in the graph',
  demo=PRE+'''fn main() {
    let mut g = DiGraphMap::<&str>::new();
    g.add_node(9, None); g.add_node(5, None);
    g.remove_node(9);
    g.add_node(1, None);
    assert!(g.max_seen_id().unwrap() >= 9);
}
'''),
 dict(id='c06-remove-edge-pops-label', prop='C06',
  edits=[(G, """        self.num_of_edges -= 1;

        edge
""","""        self.num_of_edges -= 1;

        if let Some(l) = ::generic::EdgeTrait::get_label_id(&edge) {
            if l.id() + 1 == self.edge_label_map.len() && self.num_of_edges < l.id() {
                self.edge_label_map.pop_item();
            }
        }

        edge
""")],
  needs='removing an edge that carries the newest label while fewer edges than labels remain, one of them with the same label',
  what='the label table loses an entry other edges still use',
  demo=PRE+"""fn main() {
    let mut g = DiGraphMap::<&str>::new();
    g.add_edge(1, 2, Some("a")); g.add_edge(1, 2, Some("b")); g.add_edge(1, 2, Some("c"));
    g.add_edge(1, 2, Some("d")); g.add_edge(3, 4, Some("d"));
    g.remove_edge(1, 2);
    assert_eq!(g.get_edge_label(3, 4), Some(&"d"));
}
"""),
 dict(id='c01-remove-undirected-missing-dec', prop='C01',
  edits=[(G, '''                self.num_of_edges -= node.degree() + node.in_degree();''','''                self.num_of_edges -= node.degree() + node.in_degree();
                if self.num_of_edges == 0 && !self.node_map.is_empty() {
                    self.refine_edge_count();
                }''') ] if 0 else [(G, '''        self.num_of_edges -= 1;

        edge
''','''        if self.is_directed() || start != target || self.num_of_edges > 1 {
            self.num_of_edges -= 1;
        }

        edge
''')],
  needs='an undirected graph whose only remaining edge is a self-loop, which is removed',
  what='the edge count stays one after the last edge, a self-loop, was removed',
  demo=PRE+'''fn main() {
    let mut g = UnGraphMap::<&str>::new();
    g.add_edge(1, 1, None);
    g.remove_edge(1, 1);
    assert_eq!(g.edge_count(), 0);
}
'''),
]
