import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds3 import G, N, PRE, PRES, SG, EV, MM, EI, SN, GE, GN, ME, GG
GU = 'src/algorithm/graph_union.rs'
GM = 'src/algorithm/graph_minus.rs'
PREH = PRES + '''use std::hash::{Hash, Hasher};
use std::collections::hash_map::DefaultHasher;
fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
'''
SEEDS = [
 dict(id='c21-unlabelled-wildcard', prop='C21',
  edits=[(GG, '''        if !gg.has_edge(s, d) || g.get_edge_label(s, d) != gg.get_edge_label(s, d) {
            return false;
        }''','''        if !gg.has_edge(s, d) {
            return false;
        }
        if let Some(label) = g.get_edge_label(s, d) {
            if gg.get_edge_label(s, d) != Some(label) {
                return false;
            }
        }''')],
  needs='the first graph has an unlabelled edge that is labelled in the second one',
  what='equal() calls two graphs with different edge labels equal',
  demo=PRES+'''use rust_graph::generic::graph::equal;
fn main() {
    let mut a = DiGraphMap::<&str>::new(); a.add_edge(1, 2, None);
    let mut b = DiGraphMap::<&str>::new(); b.add_edge(1, 2, Some("x"));
    assert!(!equal(&b, &a)); assert!(!equal(&a, &b));
}
'''),
 dict(id='c21-superset', prop='C21',
  edits=[(G, '''        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
            return false;
        }

        for n in self.node_indices() {
            if !other.has_node(n) || self.get_node_label(n) != other.get_node_label(n) {''','''        if self.edge_count() != other.edge_count() {
            return false;
        }

        for n in self.node_indices() {
            if !other.has_node(n) || self.get_node_label(n) != other.get_node_label(n) {''')],
  needs='the second graph has extra isolated nodes',
  what='a mutable graph equals a proper supergraph of itself',
  demo=PRE+'''fn main() {
    let mut a = UnGraphMap::<&str>::new(); a.add_edge(1, 2, None);
    let mut b = UnGraphMap::<&str>::new(); b.add_edge(1, 2, None);
    assert!(a == b);
    b.add_node(7, None);
    assert!(b != a); assert!(a != b);
}
'''),
 dict(id='c22-label-ids', prop='C22',
  edits=[(GG, '''                .map(|n| self.get_node_label(n))
                .collect_vec();
            node_labels.hash(state);''','''                .map(|n| self.get_node(n).get_label_id())
                .collect_vec();
            node_labels.hash(state);''')],
  needs='equal graphs whose node labels were added in different orders, hashed through Box<GeneralGraph>',
  what='equal graphs hash differently',
  demo=PREH+'''fn main() {
    let mut a = UnGraphMap::<&str>::new(); a.add_node(1, Some("a")); a.add_node(2, Some("b"));
    let mut b = UnGraphMap::<&str>::new(); b.add_node(2, Some("b")); b.add_node(1, Some("a"));
    let a: Box<GeneralGraph<u32, &str, &str, u32>> = Box::new(a); let b: Box<GeneralGraph<u32, &str, &str, u32>> = Box::new(b);
    assert!(PartialEq::eq(&a, &b)); assert_eq!(h(&a), h(&b));
}
'''),
 dict(id='c22-seen-id', prop='C22',
  edits=[(G, '''            let edges = self.edge_indices().sorted();
            edges.hash(state);''','''            let edges = self.edge_indices().sorted();
            (self.max_seen_id(), edges.as_slice()).hash(state);''')],
  needs='one of two equal graphs once held a node with a larger id that was removed',
  what='equal mutable graphs hash differently',
  demo=PREH+'''fn main() {
    let mut a = DiGraphMap::<&str>::new(); a.add_edge(0, 1, None);
    let mut b = DiGraphMap::<&str>::new(); b.add_edge(0, 1, None); b.add_node(9, None); b.remove_node(9);
    assert!(a == b); assert_eq!(h(&a), h(&b));
}
'''),
 dict(id='c24-known-endpoints', prop='C24',
  edits=[(GU, '''        for (src, dst) in $graph1.edge_indices() {
            $graph.add_edge(src, dst, $graph1.get_edge_label(src, dst).cloned());
        }''','''        for (src, dst) in $graph1.edge_indices() {
            if $graph0.has_node(src) && $graph0.has_node(dst) && $graph0.edge_count() > 0 {
                continue;
            }
            $graph.add_edge(src, dst, $graph1.get_edge_label(src, dst).cloned());
        }''')],
  needs='an edge of the second graph between two nodes the first graph has too, without that edge',
  what='the union loses the edge',
  demo=PRE+'''use rust_graph::algorithm::graph_union;
fn main() {
    let mut a = DiGraphMap::<&str>::new(); a.add_edge(1, 2, None); a.add_edge(2, 3, None);
    let mut b = DiGraphMap::<&str>::new(); b.add_edge(1, 3, None);
    assert!(graph_union(&a, &b).as_graph().has_edge(1, 3));
}
'''),
 dict(id='c25-label-sensitive', prop='C25',
  edits=[(GM, '''        for (src, dst) in $graph1.edge_indices() {
            $graph.remove_edge(src, dst);
        }''','''        for (src, dst) in $graph1.edge_indices() {
            if $graph0.get_edge_label(src, dst) == $graph1.get_edge_label(src, dst) {
                $graph.remove_edge(src, dst);
            }
        }''')],
  needs='an edge in both graphs with different labels (its end nodes survive only if the second graph lacks them, so it takes a graph type whose edges do not imply nodes, or ... )',
  what='the difference keeps the edge',
  demo=PRE+'''fn main() {}
'''),
 dict(id='c25-node-with-edges', prop='C25',
  edits=[(GM, '''        for id in $graph1.node_indices() {
            $graph.remove_node(id);
        }''','''        for id in $graph1.node_indices() {
            if $graph1.degree(id) == 0 && $graph0.has_node(id) && $graph0.degree(id) > 0 {
                continue;
            }
            $graph.remove_node(id);
        }''')],
  needs='a node that is isolated in the second graph and has edges in the first',
  what='the difference keeps a node of the second graph',
  demo=PRE+'''use rust_graph::algorithm::graph_minus;
fn main() {
    let mut a = DiGraphMap::<&str>::new(); a.add_edge(1, 2, None); a.add_edge(2, 3, None);
    let mut b = DiGraphMap::<&str>::new(); b.add_node(1, None);
    let r = graph_minus(&a, &b);
    assert!(!r.as_graph().has_node(1)); assert!(r.as_graph().has_edge(2, 3));
}
'''),
]
SEEDS = [s for s in SEEDS if s['id'] != 'c25-label-sensitive']
if __name__ == '__main__': pass
