import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds4 import G, N, PRE, PRES, SG, EV, MM, EI, SN, GE, GN, ME, GG, GU, GM, PREH
CC = 'src/algorithm/conn_comp.rs'
CS = 'src/algorithm/conn_subgraphs.rs'
BF = 'src/algorithm/bfs.rs'
DF = 'src/algorithm/dfs.rs'
SEEDS = [
 dict(id='c30-lazy-members', prop='C30',
  edits=[(CC, '''            let mut result: Vec<Id> = Vec::new();
            let root_id = self.get_root(node);
            let mut keys: Vec<Id> = Vec::new();

            for key in self.parent().keys() {
                keys.push(*key);
            }

            for n in keys {
                if self.get_root(n) == root_id {
                    result.push(n);
                }
            }
            Some(result)''','''            let root_id = self.get_root(node).unwrap();
            let parent = self.parent();
            let mut result: Vec<Id> = Vec::new();

            for (n, p) in parent.iter() {
                // most nodes are at most two steps away from their root
                let pp = parent[p];
                let root = if parent[&pp] == pp {
                    pp
                } else {
                    self.get_root(*n).unwrap()
                };
                if root == root_id {
                    result.push(*n);
                }
            }
            Some(result)''')],
  needs='a component table in which some node is three steps below its root',
  what='asking for the members of a component panics with a borrow conflict',
  demo=PRE+'''use rust_graph::algorithm::ConnComp;
fn main() {
    let mut g = UnGraphMap::<&str>::new();
    for i in 0..4 { g.add_edge(i, i + 4, None); }
    let mut cc = ConnComp::empty();
    use rust_graph::generic::Edge;
    for &(a, b) in &[(0u32, 1u32), (1, 2), (2, 3), (3, 4), (4, 5), (6, 7), (5, 7)] { cc.process_new_edge(&Edge::<u32, u32>::new(a, b, None)); }
    let mut v = cc.get_connected_nodes(0).unwrap(); v.sort();
    assert_eq!(v, (0..8).collect::<Vec<_>>());
}
'''),
 dict(id='c30-parent-shortcut', prop='C30',
  edits=[(CC, '''        if !self.parent().contains_key(&node0) || !self.parent().contains_key(&node1) {
            false
        } else {
            self.get_root(node0) == self.get_root(node1)
        }''','''        let parent = self.parent();
        match (parent.get(&node0), parent.get(&node1)) {
            (Some(p0), Some(p1)) => {
                let (r0, r1) = (parent[p0], parent[p1]);
                if parent[&r0] == r0 && parent[&r1] == r1 {
                    r0 == r1
                } else {
                    self.get_root(r0) == self.get_root(r1)
                }
            }
            _ => false,
        }''')],
  needs='a query about a node three or more steps below its root',
  what='is_connected panics with a borrow conflict',
  demo=PRE+'''use rust_graph::algorithm::ConnComp;
fn main() {
    let mut cc = ConnComp::empty();
    use rust_graph::generic::Edge;
    for &(a, b) in &[(0u32, 1u32), (1, 2), (2, 3), (8, 9)] { cc.process_new_edge(&Edge::<u32, u32>::new(a, b, None)); }
    for a in 0..4 { for b in 0..4 { assert!(cc.is_connected(a, b)); } assert!(!cc.is_connected(a, 8)); }
}
'''),
]
