import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds8 import *
GH, GG, GR = ('src/graph_gen/%s.rs' % x for x in ('helper', 'general', 'random'))
PREG = PRE + '''use rust_graph::graph_gen::*;
use rust_graph::graph_impl::*;
'''
SEEDS = [
 dict(id='c31-self-pairs', prop='C31',
  edits=[(GH, '''            (0..n)
                .tuple_combinations()
                .flat_map(|(s, d)| vec![(s, d), (d, s)]),''','''            (0..n).flat_map(move |s| (0..n).map(move |d| (s, d))),''')],
  needs='a directed generator', what='self-loops are among the admissible edges',
  demo=PREG+'''fn main() {
    let g: DiGraphMap<u32, u32, u32> = complete_graph_unlabeled(5);
    assert_eq!(g.edge_count(), 20);
    for x in g.edge_indices() { assert!(x.0 != x.1); }
}
'''),
 dict(id='c31-label-range', prop='C31',
  edits=[(GH, '''    let labels = g.get_edge_label_map();

    if labels.is_empty() {
        return None;
    }

    let random_index = rng.gen_range(0, labels.len());''','''    let labels = g.get_edge_label_map();

    if labels.is_empty() {
        return None;
    }

    let last = labels.len() - 1;
    let random_index = rng.gen_range(0, last);''')],
  needs='exactly one edge label', what='the generator panics',
  demo=PREG+'''fn main() {
    let g: DiGraphMap<u32, u32, u32> = complete_graph(4, vec![1, 2], vec![7]);
    assert_eq!(g.edge_count(), 12);
}
'''),
 dict(id='c31-gnm-short', prop='C31',
  edits=[(GR, '''    let sampled_edges = sample_iter(&mut rng, complete_edge_pairs::<Ty>(n), m);

    if let Ok(mut edges) = sampled_edges {
        for (s, d) in edges.drain(..) {
            let label = random_edge_label(&mut rng, &g);
            g.add_edge(Id::new(s), Id::new(d), label);
        }

        g
    } else {
        panic!("m is too large.");
    }''','''    if n > 0 && m > n * (n - 1) {
        panic!("m is too large.");
    }
    let sampled_edges = sample_iter(&mut rng, complete_edge_pairs::<Ty>(n), m);

    let edges = match sampled_edges {
        Ok(edges) => edges,
        Err(edges) => edges,
    };
    for (s, d) in edges {
        let label = random_edge_label(&mut rng, &g);
        g.add_edge(Id::new(s), Id::new(d), label);
    }

    g''')],
  needs='an undirected graph with more edges wanted than n(n-1)/2', what='a complete graph is returned instead of refusing',
  demo=PREG+'''fn main() {
    let ok: UnGraphMap<u32, u32, u32> = random_gnm_graph_unlabeled(4, 6);
    assert_eq!(ok.edge_count(), 6);
    let r = std::panic::catch_unwind(|| { let g: UnGraphMap<u32, u32, u32> = random_gnm_graph_unlabeled(4, 7); g.edge_count() });
    assert!(r.is_err());
}
'''),
 dict(id='c31-gnm-cap', prop='C31',
  edits=[(GR, '''complete_edge_pairs::<Ty>(n), m);''','''complete_edge_pairs::<Ty>(n), m.min(n * n.saturating_sub(1) / 2));''')],
  needs='a directed graph with more than n(n-1)/2 edges', what='fewer edges than requested',
  demo=PREG+'''fn main() {
    let g: DiGraphMap<u32, u32, u32> = random_gnm_graph_unlabeled(4, 9);
    assert_eq!(g.edge_count(), 9);
}
'''),
 dict(id='c31-node-late', prop='C31',
  edits=[(GG, '''    let node_label_map = SetMap::from_vec(node_label);
    let edge_label_map = SetMap::from_vec(edge_label);
''','''    // unlabelled nodes come with their edges
    let implied = node_label.is_empty() && !edge_label.is_empty();
    let node_label_map = SetMap::from_vec(node_label);
    let edge_label_map = SetMap::from_vec(edge_label);
'''), (GG, '''        g.add_node(Id::new(i), label);
    }''','''        if !implied {
            g.add_node(Id::new(i), label);
        }
    }''')],
  needs='edge labels but no node labels, and a node that gets no edge', what='nodes are missing',
  demo=PREG+'''fn main() {
    let g: UnGraphMap<u32, u32, u32> = random_gnm_graph(6, 1, vec![], vec![3]);
    assert_eq!(g.node_count(), 6);
}
'''),
 dict(id='b31-nested', prop='C31', benign=True, props=['C31'],
  edits=[(GH, '''            (0..n)
                .tuple_combinations()
                .flat_map(|(s, d)| vec![(s, d), (d, s)]),''','''            (0..n).flat_map(move |s| (0..n).filter(move |d| *d != s).map(move |d| (s, d))),'''),
   (GH, '''Iter::new(Box::new((0..n).tuple_combinations()))''', '''Iter::new(Box::new((0..n).flat_map(move |s| (s + 1..n).map(move |d| (s, d)))))''')],
  needs='', what='', demo=''),
 dict(id='b31-helper', prop='C31', benign=True, props=['C31'],
  edits=[(GR, '''    if let Ok(mut edges) = sampled_edges {
        for (s, d) in edges.drain(..) {
            let label = random_edge_label(&mut rng, &g);
            g.add_edge(Id::new(s), Id::new(d), label);
        }

        g
    } else {
        panic!("m is too large.");
    }''', '''    let edges = match sampled_edges {
        Ok(edges) => edges,
        Err(_) => panic!("m is too large."),
    };
    let mut i = 0;
    while i < edges.len() {
        let (s, d) = edges[i];
        let label = random_edge_label(&mut rng, &g);
        g.add_edge(Id::new(s), Id::new(d), label);
        i += 1;
    }
    g'''), (GG, '''    for (s, d) in complete_edge_pairs::<Ty>(n) {
        let label = random_edge_label(&mut rng, &g);
        g.add_edge(Id::new(s), Id::new(d), label);
    }
''', '''    complete_edge_pairs::<Ty>(n).for_each(|(s, d)| {
        let label = random_edge_label(&mut rng, &g);
        g.add_edge(Id::new(s), Id::new(d), label);
    });
''')],
  needs='', what='', demo=''),
]
