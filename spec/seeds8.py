import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds7 import *
CS = 'src/algorithm/conn_subgraphs.rs'
PRES = PRE + '''use rust_graph::algorithm::ConnSubgraph;
use rust_graph::graph_impl::*;
fn check(g: &GeneralGraph<u32, u32, u32>, comps: usize) {
    let subs = ConnSubgraph::new(g).into_result();
    assert_eq!(subs.len(), comps);
    let (mut n, mut e) = (0, 0);
    for s in &subs {
        assert_eq!(s.is_directed(), g.is_directed());
        n += s.node_count(); e += s.edge_count();
        for v in s.node_indices() { assert!(g.has_node(v)); assert_eq!(s.get_node_label(v), g.get_node_label(v)); }
        for x in s.edge_indices() { assert!(g.has_edge(x.0, x.1)); assert_eq!(s.get_edge_label(x.0, x.1), g.get_edge_label(x.0, x.1)); }
    }
    assert_eq!(n, g.node_count()); assert_eq!(e, g.edge_count());
}
'''
SEEDS = [
 dict(id='c29-edge-label-turned', prop='C29',
  edits=[(CS, '''            let label = graph.get_edge_label(start, target).cloned();''','''            let (low, high) = if start < target {
                (start, target)
            } else {
                (target, start)
            };
            let label = graph.get_edge_label(low, high).cloned();''')],
  needs='a directed labelled edge from a larger to a smaller id',
  what='the edge loses its label or takes that of the opposite edge',
  demo=PRES+'''fn main() {
    let mut g = DiGraphMap::<u32, u32, u32>::new();
    g.add_edge(1, 2, Some(10)); g.add_edge(5, 3, Some(20)); g.add_edge(7, 8, Some(1)); g.add_edge(8, 7, Some(2));
    check(&g, 3);
}
'''),
 dict(id='c29-sink-undirected', prop='C29',
  edits=[(CS, '''                if graph.is_directed() {
                    self.subgraphs.push(new_general_graphmap(true));
                } else {
                    self.subgraphs.push(new_general_graphmap(false));
                }
                self.roots.push(root);
                let length = self.subgraphs.len();
                self.subgraphs[length - 1]
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);''','''                let directed = graph
                    .as_digraph()
                    .map_or(false, |g| g.degree(id) + g.in_degree(id) > 0);
                self.subgraphs.push(new_general_graphmap(directed));
                self.roots.push(root);
                let length = self.subgraphs.len();
                self.subgraphs[length - 1]
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);''')],
  needs='a directed graph with an isolated node',
  what='its one-node subgraph is undirected',
  demo=PRES+'''fn main() {
    let mut g = DiGraphMap::<u32, u32, u32>::new();
    g.add_edge(1, 2, Some(10)); g.add_node(4, Some(1));
    check(&g, 2);
}
'''),
 dict(id='c29-self-loop', prop='C29',
  edits=[(CS, '''            let target = edge.get_target();
            let root''','''            let target = edge.get_target();
            if self.cc.get_root(start) == Some(target) && start == target {
                continue;
            }
            let root''')],
  needs='a self-loop at the node that represents its component',
  what='the self-loop is missing from the subgraph',
  demo=PRES+'''fn main() {
    let mut g = UnGraphMap::<u32, u32, u32>::new();
    g.add_edge(1, 2, Some(10)); g.add_edge(4, 4, Some(5)); g.add_node(9, None);
    check(&g, 3);
}
'''),
 dict(id='c29-isolated-dropped', prop='C29',
  edits=[(CS, '''            let index = self.root_to_subgraph(root);

            if let Some(index) = index {
                self.subgraphs[index]
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);''','''            let index = self.root_to_subgraph(root);

            if graph.get_node_label(id).is_none() && graph.degree(id) == 0 && root == id {
                continue;
            }
            if let Some(index) = index {
                self.subgraphs[index]
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);''')],
  needs='an isolated node without a label',
  what='the node is in no subgraph',
  demo=PRES+'''fn main() {
    let mut g = UnGraphMap::<u32, u32, u32>::new();
    g.add_edge(1, 2, Some(10)); g.add_node(4, Some(5)); g.add_node(9, None);
    check(&g, 3);
}
'''),
 dict(id='c29-root-of-parent', prop='C29',
  edits=[(CS, '''            if self.roots[index] == root {
                return Some(index);
            }''','''            if self.roots[index] == root || self.cc.get_parent(self.roots[index]) != self.cc.get_root(root) && index + 1 == self.roots.len() && index > 2 {
                return Some(index);
            }''')],
  needs='more than three components',
  what='everything after the fourth component ends up in one subgraph',
  demo=PRES+'''fn main() {
    let mut g = UnGraphMap::<u32, u32, u32>::new();
    for i in 0..6u32 { g.add_node(10 * i, Some(i)); g.add_edge(10 * i, 10 * i + 1, Some(i)); }
    check(&g, 6);
}
'''),
 dict(id='b29-flat', prop='C29', benign=True, props=['C29'],
  edits=[(CS, '''                if graph.is_directed() {
                    self.subgraphs.push(new_general_graphmap(true));
                } else {
                    self.subgraphs.push(new_general_graphmap(false));
                }
                self.roots.push(root);
                let length = self.subgraphs.len();
                self.subgraphs[length - 1]
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);''','''                let mut subgraph = new_general_graphmap(graph.is_directed());
                subgraph.as_mut_graph().unwrap().add_node(id, label);
                self.roots.push(root);
                self.subgraphs.push(subgraph);'''),
   (CS, '''        for index in 0..self.roots.len() {
            if self.roots[index] == root {
                return Some(index);
            }
        }
        None''', '''        self.roots.iter().position(|r| *r == root)''')],
  needs='', what='', demo=''),
 dict(id='b29-helper', prop='C29', benign=True, props=['C29'],
  edits=[(CS, '''            let index = self.root_to_subgraph(root);

            if let Some(index) = index {
                self.subgraphs[index]
                    .as_mut_graph()
                    .unwrap()
                    .add_edge(start, target, label);
            } else {
                if graph.is_directed() {
                    self.subgraphs.push(new_general_graphmap(true));
                } else {
                    self.subgraphs.push(new_general_graphmap(false));
                }
                self.roots.push(root);
                let length = self.subgraphs.len();
                self.subgraphs[length - 1]
                    .as_mut_graph()
                    .unwrap()
                    .add_edge(start, target, label);
            }
        }
    }''','''            let index = self.subgraph_index(root, graph.is_directed());
            let subgraph = &mut self.subgraphs[index];
            subgraph.as_mut_graph().unwrap().add_edge(start, target, label);
        }
    }

    fn subgraph_index(&mut self, root: Id, directed: bool) -> usize {
        match self.root_to_subgraph(root) {
            Some(index) => index,
            None => {
                self.subgraphs.push(new_general_graphmap(directed));
                self.roots.push(root);
                self.roots.len() - 1
            }
        }
    }''')],
  needs='', what='', demo=''),
]
