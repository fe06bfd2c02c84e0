import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds6 import *
PREC = PRE + '''use rust_graph::algorithm::ConnComp;
use rust_graph::generic::Edge;
fn e(a: u32, b: u32) -> Edge<u32, u32> { Edge::new(a, b, None) }
'''
SEEDS = [
 dict(id='c28-link-node', prop='C28',
  edits=[(CC, '''            self.count -= 1;
            self.mut_parent().insert(x_root, y_root);''','''            self.count -= 1;
            // hang the shallower side below the other root
            if self.get_parent(y) == Some(y_root) {
                self.mut_parent().insert(x_root, y_root);
            } else {
                self.mut_parent().insert(x, y_root);
            }''')],
  needs='an edge from a non-root node to a node more than one step below its root',
  what='only one node moves to the other component, its old component is torn apart',
  demo=PREC+'''fn main() {
    let edges: Vec<(u32, u32)> = vec![(1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (11, 12), (12, 13), (13, 14), (12, 1), (21, 22), (22, 23), (22, 11), (21, 1)];
    let mut cc = ConnComp::<u32>::empty();
    let mut lab: std::collections::HashMap<u32, u32> = Default::default();
    for &(a, b) in &edges {
        cc.process_new_edge(&e(a, b));
        lab.entry(a).or_insert(a); lab.entry(b).or_insert(b);
        let (x, y) = (lab[&a], lab[&b]);
        for v in lab.values_mut() { if *v == x { *v = y } }
        for (&p, i) in &lab { for (&q, j) in &lab { assert_eq!(cc.clone().is_connected(p, q), i == j, "{} {}", p, q); } }
    }
}
'''),
 dict(id='c28-unknown-connected', prop='C28',
  edits=[(CC, '''        if !self.parent().contains_key(&node0) || !self.parent().contains_key(&node1) {
            false
        } else {
            self.get_root(node0) == self.get_root(node1)
        }''','''        self.get_root(node0) == self.get_root(node1)''')],
  needs='two nodes that are both unknown',
  what='two unknown nodes are reported connected',
  demo=PREC+'''fn main() {
    let mut cc = ConnComp::<u32>::empty();
    cc.process_new_edge(&e(1, 2));
    assert!(!cc.is_connected(7, 9));
    assert!(!cc.is_connected(1, 9));
    assert!(cc.is_connected(1, 2));
}
'''),
 dict(id='c28-count-assign', prop='C28',
  edits=[(CC, '''                self.mut_parent().insert(node, node);
                self.count += 1;
            }
        }

        for edge''','''                self.mut_parent().insert(node, node);
            }
        }
        self.count = graph.node_count();

        for edge''')],
  needs='a detection run after edges were processed by hand',
  what='the component count forgets the unions made before the detection',
  demo=PREC+'''fn main() {
    let mut g = UnGraphMap::<Void>::new();
    for i in 0..6 { g.add_node(i, None); }
    g.add_edge(2, 3, None);
    let mut cc = ConnComp::<u32>::empty();
    cc.process_new_edge(&e(0, 1));
    cc.run_detection(&g);
    assert_eq!(cc.get_count(), 4);
}
'''),
 dict(id='c28-members-by-parent', prop='C28',
  edits=[(CC, '''            let root_id = self.get_root(node);
            let mut keys''','''            // bring the node directly below its root first
            self.get_root(node);
            let root_id = self.get_parent(node);
            let mut keys'''),
   (CC, '''            for n in keys {
                if self.get_root(n) == root_id {''','''            for n in keys {
                self.get_root(n);
                if self.get_parent(n) == root_id {''')],
  needs='a component with a node more than two steps below the root',
  what='member lists miss nodes that path halving has not yet brought to the root',
  demo=PREC+'''fn main() {
    let mut cc = ConnComp::<u32>::empty();
    for &(a, b) in &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)] { cc.process_new_edge(&e(a, b)); }
    // a chain of roots: link roots directly
    let mut dd = ConnComp::<u32>::empty();
    for i in 0..8 { dd.process_new_edge(&e(i, i)); }
    for &(a, b) in &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 7)] { dd.process_new_edge(&e(a, b)); }
    for s in 0..8 { let mut v = dd.clone().get_connected_nodes(s).unwrap(); v.sort(); assert_eq!(v, (0..8).collect::<Vec<u32>>(), "from {}", s); }
}
'''),
 dict(id='c28-self-loop-count', prop='C28',
  edits=[(CC, '''        if x_root != y_root {
            self.count -= 1;
            self.mut_parent().insert(x_root, y_root);
        }''','''        if x_root != y_root {
            self.mut_parent().insert(x_root, y_root);
        }
        if x != y && (x_root != y_root || self.count > self.parent().len()) {
            self.count -= 1;
        }'''),
   (CC, '''        if !self.parent().contains_key(&y) {
            self.mut_parent().insert(y, y);
            self.count += 1;
        }''','''        if x == y || !self.parent().contains_key(&y) {
            self.mut_parent().insert(y, y);
            self.count += (x != y) as usize;
        }''')],
  needs='a self-loop on a node that already hangs below another one',
  what='the node becomes a root again and leaves its component',
  demo=PREC+'''fn main() {
    let mut cc = ConnComp::<u32>::empty();
    for &(a, b) in &[(0, 1), (1, 1), (0, 0)] { cc.process_new_edge(&e(a, b)); }
    assert!(cc.is_connected(0, 1));
    assert_eq!(cc.get_count(), 1);
}
'''),
 dict(id='b-cc-attach', benign=True, props=['C28', 'C30'],
  edits=[(CC, '''        if !self.parent().contains_key(&y) {
            self.mut_parent().insert(y, y);
            self.count += 1;
        }

        let x_root = self.get_root(x).unwrap();
        let y_root''','''        let x_root = self.get_root(x).unwrap();
        if !self.parent().contains_key(&y) {
            // a node nobody knows joins directly
            self.mut_parent().insert(y, x_root);
            return;
        }
        let y_root'''),
   (CC, '''        while self.parent().get(&node) != Some(&node) {
            let p = self.parent()[&node];
            let pp = self.parent()[&p];

            self.mut_parent().insert(node, pp);
            node = pp;
        }

        if self.parent().get(&node) != None {
            Some(node)
        } else {
            None
        }''','''        let mut root = node;
        loop {
            let p = self.parent()[&root];
            if p == root {
                break;
            }
            root = p;
        }
        while node != root {
            let next = self.parent()[&node];
            self.mut_parent().insert(node, root);
            node = next;
        }
        Some(root)'''),
   (CC, '''            let mut result: Vec<Id> = Vec::new();
            let root_id = self.get_root(node);
            let mut keys: Vec<Id> = Vec::new();

            for key in self.parent().keys() {
                keys.push(*key);
            }

            for n in keys {
                if self.get_root(n) == root_id {
                    result.push(n);
                }
            }
            Some(result)''','''            let root_id = self.get_root(node);
            let keys: Vec<Id> = self.parent().keys().cloned().collect();
            Some(keys.into_iter().filter(|n| self.get_root(*n) == root_id).collect())''')]),
 dict(id='b-cc-match', benign=True, props=['C28', 'C30'],
  edits=[(CC, '''        if !self.parent().contains_key(&node0) || !self.parent().contains_key(&node1) {
            false
        } else {
            self.get_root(node0) == self.get_root(node1)
        }''','''        match (self.get_root(node0), self.get_root(node1)) {
            (Some(a), Some(b)) => a == b,
            _ => false,
        }'''),
   (CC, '''        if let Some(id) = self.parent().get(&node) {
            Some(*id)
        } else {
            None
        }''','''        self.parent().get(&node).map(|id| *id)'''),
   (CC, '''        if !self.parent().contains_key(&x) {
            self.mut_parent().insert(x, x);
            self.count += 1;
        }

        if !self.parent().contains_key(&y) {
            self.mut_parent().insert(y, y);
            self.count += 1;
        }
''','''        self.ensure(x);
        self.ensure(y);
'''),
   (CC, '''            if !self.parent().contains_key(&node) {
                self.mut_parent().insert(node, node);
                self.count += 1;
            }
        }
''','''            self.ensure(node);
        }
'''),
   (CC, '''    /// Get mutable reference of parent map''','''    fn ensure(&mut self, x: Id) {
        let known = self.parent().contains_key(&x);
        if !known {
            self.mut_parent().insert(x, x);
            self.count += 1;
        }
    }

    /// Get mutable reference of parent map''')]),
]
