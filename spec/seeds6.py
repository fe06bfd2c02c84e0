import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds5 import *
SEEDS = [
 dict(id='c26-skip-isolated', prop='C26',
  edits=[(BF, '''        for node in self.discovered.ones() {
            if self.graph.has_node(Id::new(node)) {
                return Some(Id::new(node));
            }
        }
        None''','''        // the first unvisited node to continue from; ids without a node are gaps
        for node in self.discovered.ones() {
            let id = Id::new(node);
            if self.graph.has_node(id) && self.graph.neighbors_iter(id).next().is_some() {
                return Some(id);
            }
        }
        None''')],
  needs='a graph with an isolated node besides the start (or, directed, a node without out-edges in another component)',
  what='nodes without neighbours are never visited',
  demo=PRE+'''use rust_graph::algorithm::Bfs;
fn main() {
    let mut g = UnGraphMap::<Void>::new();
    g.add_edge(0, 1, None); g.add_node(5, None); g.add_edge(7, 8, None);
    let mut v: Vec<u32> = Bfs::new(&g, Some(0)).collect();
    assert_eq!(v[0], 0); v.sort();
    assert_eq!(v, vec![0, 1, 5, 7, 8]);
}
'''),
 dict(id='c26-leaves-first', prop='C26',
  edits=[(BF, '''                    self.queue.push_back(neighbour);
                }
            }''','''                    // nothing is left to expand behind a leaf, get it out of the way
                    if self.graph.degree(neighbour) <= 1 {
                        self.queue.push_front(neighbour);
                    } else {
                        self.queue.push_back(neighbour);
                    }
                }
            }''')],
  needs='a leaf found while nodes found earlier are still waiting',
  what='nodes are not visited in the order in which they were discovered',
  demo=PRE+'''use rust_graph::algorithm::Bfs;
fn main() {
    // 0 - {1, 2}, 1 - 3, 2 - 4, 3 - 5: depth must never decrease
    let mut g = UnGraphMap::<Void>::new();
    for &(a, b) in &[(0, 1), (0, 2), (1, 3), (2, 4), (3, 5), (4, 6), (1, 7), (2, 8)] { g.add_edge(a, b, None); }
    let depth = [0, 1, 1, 2, 2, 3, 3, 2, 2];
    let v: Vec<u32> = Bfs::new(&g, Some(0)).collect();
    assert_eq!(v.len(), 9);
    for w in v.windows(2) { assert!(depth[w[0] as usize] <= depth[w[1] as usize], "{:?}", v); }
}
'''),
 dict(id='c27-reset-last', prop='C27',
  edits=[(DF, '''        self.discovered.clear();
        self.stack.clear();
        self.discovered.insert_range(..);''','''        let last = self.discovered.len() - 1;
        self.discovered.clear();
        self.stack.clear();
        self.discovered.insert_range(..last);''')],
  needs='a reset, then a traversal in which the node with the largest id matters',
  what='after a reset the node with the largest id is never visited',
  demo=PRE+'''use rust_graph::algorithm::Dfs;
fn main() {
    let mut g = UnGraphMap::<Void>::new();
    g.add_edge(0, 1, None); g.add_edge(1, 2, None);
    let mut d = Dfs::new(&g, Some(0));
    while let Some(_) = d.next() {}
    d.reset();
    let mut v: Vec<u32> = d.collect(); v.sort();
    assert_eq!(v, vec![0, 1, 2]);
}
'''),
 dict(id='c27-single-node', prop='C27',
  edits=[(DF, '''                let id = self.graph.node_indices().next().unwrap();
                self.discovered.set(id.id(), false);
                self.stack.clear();
                self.stack.push(id);''','''                let mut nodes = self.graph.node_indices();
                let id = nodes.next().unwrap();
                self.stack.clear();
                self.stack.push(id);
                // somebody else may find this node again
                if nodes.next().is_some() {
                    self.discovered.set(id.id(), false);
                }''')],
  needs='a graph with a single node, traversed without a start node',
  what='the only node is visited twice',
  demo=PRE+'''use rust_graph::algorithm::Dfs;
fn main() {
    let mut g = DiGraphMap::<Void>::new();
    g.add_node(3, None);
    let v: Vec<u32> = Dfs::new(&g, None).collect();
    assert_eq!(v, vec![3]);
}
'''),
 dict(id='c27-sinks-last', prop='C27',
  edits=[(DF, '''                    self.discovered.set(neighbour.id(), false);
                    self.stack.push(neighbour);
                }
            }
            Some(current_node)''','''                    self.discovered.set(neighbour.id(), false);
                    if neighbour > current_node {
                        self.stack.push(neighbour);
                    } else {
                        // back towards the smaller ids only when nothing else is left
                        self.stack.insert(0, neighbour);
                    }
                }
            }
            Some(current_node)''')],
  needs='an edge to an undiscovered node with a smaller id while other nodes wait',
  what='the traversal does not continue from the most recently found node',
  demo=PRE+'''use rust_graph::algorithm::Dfs;
fn main() {
    let mut g = UnGraphMap::<Void>::new();
    g.add_edge(4, 5, None); g.add_edge(4, 6, None); g.add_edge(5, 1, None); g.add_edge(6, 2, None);
    let v: Vec<u32> = Dfs::new(&g, Some(4)).collect();
    let p = |x| v.iter().position(|&y| y == x).unwrap();
    assert_eq!(v.len(), 5);
    assert_eq!(p(1), p(5) + 1, "{:?}", v); assert_eq!(p(2), p(6) + 1, "{:?}", v);
}
'''),
 dict(id='b-bfs-shape', benign=True, props=['C26', 'C27'],
  edits=[(BF, '''        if self.queue.len() == 0 {
            if let Some(id) = self.next_unvisited_node() {
                self.queue.push_back(id);
                self.discovered.set(id.id(), false);
            }
        }

        if let Some(current_node) = self.queue.pop_front() {
            for neighbour in self.graph.neighbors_iter(current_node) {
                if self.discovered.contains(neighbour.id()) {
                    self.discovered.set(neighbour.id(), false);
                    self.queue.push_back(neighbour);
                }
            }
            Some(current_node)
        } else {
            None
        }
    }''','''        let current_node = match self.queue.pop_front() {
            Some(n) => n,
            None => {
                let n = self.next_unvisited_node()?;
                self.mark(n);
                n
            }
        };
        let graph = self.graph;
        for neighbour in graph.neighbors_iter(current_node) {
            if !self.discovered[neighbour.id()] {
                continue;
            }
            self.mark(neighbour);
            self.queue.push_back(neighbour);
        }
        Some(current_node)
    }

    fn mark(&mut self, n: Id) {
        self.discovered.set(n.id(), false);
    }'''),
   (BF, '''        for node in self.discovered.ones() {
            if self.graph.has_node(Id::new(node)) {
                return Some(Id::new(node));
            }
        }
        None''','''        self.discovered
            .ones()
            .map(Id::new)
            .find(|n| self.graph.has_node(*n))'''),
   (DF, '''            for neighbour in self.graph.neighbors_iter(current_node) {
                if self.discovered.contains(neighbour.id()) {
                    self.discovered.set(neighbour.id(), false);
                    self.stack.push(neighbour);
                }
            }
            Some(current_node)''','''            let (stack, seen) = (&mut self.stack, &mut self.discovered);
            self.graph.neighbors_iter(current_node).for_each(|n| {
                if seen.contains(n.id()) {
                    stack.push(n);
                    seen.set(n.id(), false);
                }
            });
            Some(current_node)''')]),
 dict(id='b-bfs-polarity', benign=True, props=['C26', 'C27'],
  edits=[(BF, '''        discovered.insert_range(..);

''',''),
   (BF, '''                queue.push_back(start);
                discovered.set(start.id(), false);''','''                queue.push_back(start);
                discovered.insert(start.id());'''),
   (BF, '''                queue.push_back(id);
                discovered.set(id.id(), false);''','''                queue.push_back(id);
                discovered.insert(id.id());'''),
   (BF, '''                self.queue.push_back(id);
                self.discovered.set(id.id(), false);''','''                self.queue.push_back(id);
                self.discovered.insert(id.id());'''),
   (BF, '''                if self.discovered.contains(neighbour.id()) {
                    self.discovered.set(neighbour.id(), false);
                    self.queue.push_back(neighbour);
                }''','''                if !self.discovered.put(neighbour.id()) {
                    self.queue.push_back(neighbour);
                }'''),
   (BF, '''        for node in self.discovered.ones() {
            if self.graph.has_node(Id::new(node)) {
                return Some(Id::new(node));
            }
        }
        None''','''        self.graph.node_indices().find(|n| !self.discovered.contains(n.id()))'''),
   (DF, '''        self.discovered.clear();
        self.stack.clear();
        self.discovered.insert_range(..);''','''        self.stack = Vec::new();
        let n = self.discovered.len();
        self.discovered.set_range(0..n, true);''')]),
]
