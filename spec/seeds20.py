import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds17 import *
from seeds18 import *
from seeds19 import GMAP, GGEN, WRAP2
import seeds17
GU, GMI = 'src/algorithm/graph_union.rs', 'src/algorithm/graph_minus.rs'
CCP, CSU = 'src/algorithm/conn_comp.rs', 'src/algorithm/conn_subgraphs.rs'
SM, VM = 'src/map/set_map.rs', 'src/map/vec_map.rs'
ALG = P16 + 'use rust_graph::algorithm::*;\n'
ADDE = """        if !self.has_node(start) {
            self.add_node(start, None);
        }
        if !self.has_node(target) {
            self.add_node(target, None);
        }

        let label_id"""
LAZY = P16 + """
fn main() {
    let l = vec![(0u32, 1u32), (1, 2), (4, 4), (2, 0)];
    let g: DiGraphMap<u32> = DiGraphMap::from_edges(l.iter().cloned().filter(|_| true));
    let mut e: Vec<_> = g.edge_indices().collect(); e.sort();
    assert_eq!(e, vec![(0, 1), (1, 2), (2, 0), (4, 4)]); assert_eq!(g.edge_count(), 4);
    let g: UnGraphMap<u32> = UnGraphMap::from_edges(l.iter().cloned().chain(vec![(9, 8)]));
    let mut e: Vec<_> = g.edge_indices().collect(); e.sort();
    assert_eq!(e, vec![(0, 1), (0, 2), (1, 2), (4, 4), (8, 9)]);
}
"""
MINUS = ALG + """
fn main() {
    let mut a: DiGraphMap<&str> = DiGraphMap::new(); a.add_node(0, Some("x")); a.add_node(1, None); a.add_edge(0, 1, Some("l")); a.add_edge(1, 1, None); a.add_edge(1, 3, None);
    let mut b: DiGraphMap<&str> = DiGraphMap::new(); b.add_node(3, None); b.add_node(7, None);
    let r = graph_minus(&a, &b);
    let mut n: Vec<_> = r.node_indices().collect(); n.sort(); assert_eq!(n, vec![0, 1]);
    let mut e: Vec<_> = r.edge_indices().collect(); e.sort(); assert_eq!(e, vec![(0, 1), (1, 1)]);
    let r = &a.clone() as &GeneralGraph<u32, &str, &str, u32>;
    let s = r - (&b as &GeneralGraph<u32, &str, &str, u32>);
    let mut n: Vec<_> = s.node_indices().collect(); n.sort(); assert_eq!(n, vec![0, 1]);
    let t = a.clone() - b.clone(); assert_eq!(t.node_count(), 2); assert_eq!(t.edge_count(), 2);
}
"""
UNI = ALG + """
type G<'a> = Box<GeneralGraph<u32, &'a str, &'a str, u32> + 'a>;
fn main() {
    let mut a: DiGraphMap<&str> = DiGraphMap::new(); a.add_node(5, Some("x"));
    let mut b: DiGraphMap<&str> = DiGraphMap::new(); b.add_edge(1, 2, Some("l")); b.add_edge(2, 2, None);
    for i in 0..4 {
        let (p, q) = if i % 2 == 0 { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) };
        let r: G = if i < 2 { Box::new(p) as G + Box::new(q) as G } else { graph_union(&p, &q) };
        let mut n: Vec<_> = r.node_indices().collect(); n.sort(); assert_eq!(n, vec![1, 2, 5]);
        assert_eq!(r.get_node_label(5), Some(&"x")); assert_eq!(r.edge_count(), 2); assert_eq!(r.get_edge_label(1, 2), Some(&"l"));
        assert!(r.is_directed());
    }
}
"""
CONC = ALG + """
fn main() {
    let mut g: DiGraphMap<Void> = DiGraphMap::new();
    for &(a, b) in [(0u32, 1u32), (2, 3), (4, 5), (6, 7), (1, 3), (5, 7), (0, 6), (8, 8), (8, 9)].iter() { g.add_edge(a, b, None); }
    g.add_node(11, None);
    let cc = ConnComp::new(&g);
    assert_eq!(cc.get_count(), 3);
    for a in 0..12u32 { for b in 0..12u32 {
        let c = |x: u32| if x < 8 { 0 } else if x < 10 { 1 } else if x == 11 { 2 } else { 3 };
        assert_eq!(cc.is_connected(a, b), a != 10 && b != 10 && c(a) == c(b), "{} {}", a, b);
    } }
    for a in 0..12u32 { let m = cc.get_connected_nodes(a); if a == 10 { assert_eq!(m, None); } else { let mut m = m.unwrap(); m.sort(); assert_eq!(m, (0..12u32).filter(|&b| cc.is_connected(a, b)).collect::<Vec<_>>()); } }
    assert_eq!(cc.get_count(), 3);
    assert_eq!(cc.get_root(10), None); assert_eq!(cc.get_parent(10), None);
}
"""
SEEDS = [
 s16('c44-lower-bound', 'C44', 'a sequence whose length is not known beforehand', 'only as many pairs are taken as the sequence promises at least', LAZY,
     (GMAP, "        for (src, dst) in edges {\n            g.add_node", "        let mut edges = edges.into_iter();\n        for _ in 0..edges.size_hint().0 {\n            let (src, dst) = edges.next().unwrap();\n            g.add_node")),
 s16('c44-last-dup', 'C44', 'a list with the same pair twice in a row', 'the pair after a repeated one is skipped', EDGES,
     (GMAP, "        for (src, dst) in edges {\n            g.add_node", "        let mut last = None;\n        for (src, dst) in edges {\n            if last == Some((src, dst)) || last == Some((dst, src)) {\n                continue;\n            }\n            last = Some((src, dst));\n            g.add_node")),
 s16('c25-nothing-common', 'C25', 'taking away a graph without edges', 'the difference with a graph without edges is the first graph', MINUS,
     (GMI, "        for id in $graph1.node_indices() {\n            $graph.remove_node(id);\n        }\n        for (src, dst) in $graph1.edge_indices() {\n            $graph.remove_edge(src, dst);\n        }", "        if $graph1.edge_count() > 0 {\n            for id in $graph1.node_indices() {\n                $graph.remove_node(id);\n            }\n            for (src, dst) in $graph1.edge_indices() {\n                $graph.remove_edge(src, dst);\n            }\n        }")),
 s16('c25-first-loop', 'C25', 'a first graph with self-loops', 'self-loops are left out of the difference', MINUS,
     (GMI, "        for (src, dst) in $graph0.edge_indices() {\n", "        for (src, dst) in $graph0.edge_indices().filter(|(s, d)| s != d) {\n")),
 s16('c24-empty-shortcut', 'C24', 'the union of boxed graphs of which the first has no edges', 'isolated nodes of the first graph are lost', UNI,
     (GU, "        graph_union(self.as_ref(), other.as_ref())\n", "        if self.edge_count() == 0 && self.is_directed() == other.is_directed() {\n            return graph_union(other.as_ref(), other.as_ref());\n        }\n        graph_union(self.as_ref(), other.as_ref())\n")),
 s16('c24-isolated', 'C24', 'isolated nodes in the second graph', 'only the nodes at an edge of the second graph are added', UNI,
     (GU, "        for id in $graph1.node_indices() {\n            $graph.add_node", "        for id in $graph1.node_indices().filter(|&i| $graph1.degree(i) > 0) {\n            $graph.add_node")),
 s16('c01-early-known', 'C01', 'adding an undirected edge again from its other end', 'an undirected self-loop counts twice when it is added to a node with edges', MUTM,
     (GMAP, "        if result {\n            self.num_of_edges += 1;\n        }\n\n        result\n", "        let mut added = result as usize;\n        if !self.is_directed() && start == target && result {\n            added += self.node_map[&start].degree() - 1;\n            added = added.min(2);\n        }\n        self.num_of_edges += added;\n\n        result\n")),
 s16('c02-add-known', 'C02', 'adding an edge from a node that has an edge back', 'the in-neighbour of an edge is not noted when the reverse edge is there', MUTM,
     (GMAP, "            nodemap.add_in_edge(start);\n        } else if start", "            if !nodemap.has_neighbor(start) || start == target {\n                nodemap.add_in_edge(start);\n            }\n        } else if start")),
 s16('c03-remove-turned', 'C03', 'removing an undirected edge named from its larger end', 'the removed edge is reported from its other end', MUTM,
     (GMAP, "        } else {\n            let nodemap = self.node_map.get_mut(&target).unwrap();\n            nodemap.remove_edge(start);\n        }\n\n        self.num", "        } else if start != target {\n            let nodemap = self.node_map.get_mut(&target).unwrap();\n            edge = nodemap.remove_edge(start);\n        }\n\n        self.num"),
     (GMAP, "        let edge;\n\n        {\n            let nodemap = self.node_map.get_mut(&start).unwrap();\n            edge = nodemap.remove_edge", "        let mut edge;\n\n        {\n            let nodemap = self.node_map.get_mut(&start).unwrap();\n            edge = nodemap.remove_edge")),
 s16('c06-empty-clears', 'C06', 'removing the last node of a labelled graph', 'the table of node labels is dropped with the last node', P16 + """
fn main() {
    let mut g: DiGraphMap<&str> = DiGraphMap::new();
    g.add_node(1, Some("a")); g.add_edge(1, 1, Some("b"));
    g.remove_node(1);
    assert_eq!(g.get_node_label_map().len(), 1); assert_eq!(g.get_edge_label_map().len(), 1);
}
""",
     (GMAP, "                self.num_of_edges -= removed_edges;\n\n                OwnedNodeType::NodeMap(node)\n", "                self.num_of_edges -= removed_edges;\n\n                if self.node_map.is_empty() {\n                    self.node_label_map = SetMap::new();\n                }\n\n                OwnedNodeType::NodeMap(node)\n")),
 s16('c05-reset-empty', 'C05', 'removing the last node', 'a graph whose nodes were removed reports no largest id', P16 + """
fn main() {
    let mut g: DiGraphMap<&str> = DiGraphMap::new();
    assert_eq!(g.max_seen_id(), None);
    g.add_node(7, None); g.remove_node(7);
    assert_eq!(g.max_seen_id(), Some(7));
    g.add_node(3, None);
    assert_eq!(g.max_seen_id(), Some(7));
}
""",
     (GMAP, "                self.num_of_edges -= removed_edges;\n\n                OwnedNodeType::NodeMap(node)\n", "                self.num_of_edges -= removed_edges;\n\n                if self.node_map.is_empty() {\n                    self.max_id = None;\n                }\n\n                OwnedNodeType::NodeMap(node)\n")),
 s16('c05-renumber-count', 'C05', 'renumbering with a map that leaves gaps', 'the largest id of a renumbered graph is taken from its node count', P16 + """
use rust_graph::map::SetMap;
fn main() {
    let mut g: DiGraphMap<&str> = DiGraphMap::new();
    g.add_edge(3, 5, None);
    let m: SetMap<u32> = vec![9, 3, 8, 7, 5].into();
    let r = g.reorder_id_with(&Some(m), &None::<SetMap<u32>>, &None::<SetMap<u32>>);
    let mut n: Vec<_> = r.node_indices().collect(); n.sort(); assert_eq!(n, vec![1, 4]);
    assert_eq!(r.max_seen_id(), Some(4));
}
""",
     (GMAP, "        let new_max_id = new_node_map.keys().max().map(|i| *i);\n", "        let new_max_id = if node_id_map.is_some() {\n            new_node_map.len().checked_sub(1).map(Id::new)\n        } else {\n            self.max_id\n        };\n")),
 s16('c28-union-known', 'C28', 'an edge whose ends share their parent but not their root yet', 'an edge between two known components that each have a parent is not merged', CONC,
     (CCP, "        let x_root = self.get_root(x).unwrap();\n        let y_root = self.get_root(y).unwrap();\n", "        let x_root = self.get_root(x).unwrap();\n        let y_root = self.get_parent(y).unwrap();\n")),
 s16('c28-loop-node', 'C28', 'a stream that starts with a self-loop', 'a component is counted twice for a self-loop of an unknown node', ALG + """
fn main() {
    let mut c: ConnComp<u32> = ConnComp::empty();
    let e = |a, b| Edge::new(a, b, None::<u32>);
    c.process_new_edge(&e(3, 3)); assert_eq!(c.get_count(), 1);
    c.process_new_edge(&e(1, 2)); assert_eq!(c.get_count(), 2);
    c.process_new_edge(&e(1, 3)); assert_eq!(c.get_count(), 1);
    c.process_new_edge(&e(4, 1)); assert_eq!(c.get_count(), 1);
}
""",
     (CCP, "        if !self.parent().contains_key(&x) {\n            self.mut_parent().insert(x, x);\n            self.count += 1;\n        }\n\n        if !self.parent().contains_key(&y) {\n            self.mut_parent().insert(y, y);\n            self.count += 1;\n        }\n", "        let new_x = !self.parent().contains_key(&x);\n        let new_y = !self.parent().contains_key(&y);\n        self.mut_parent().entry(x).or_insert(x);\n        self.mut_parent().entry(y).or_insert(y);\n        self.count += new_x as usize + new_y as usize;\n")),
 s16('c28-twice', 'C28', 'running the detection twice', 'the count is reset to the number of nodes when the detection runs again', ALG + """
fn main() {
    let mut g: UnGraphMap<Void> = UnGraphMap::new(); g.add_edge(0, 1, None); g.add_edge(1, 2, None); g.add_node(5, None);
    let mut c = ConnComp::new(&g); assert_eq!(c.get_count(), 2);
    c.run_detection(&g); assert_eq!(c.get_count(), 2);
    c.reset(); assert_eq!(c.get_count(), 0); c.run_detection(&g); assert_eq!(c.get_count(), 2);
}
""",
     (CCP, "        for node in graph.node_indices() {\n            if !self.parent().contains_key(&node) {\n                self.mut_parent().insert(node, node);\n                self.count += 1;\n            }\n        }\n", "        for node in graph.node_indices() {\n            if !self.parent().contains_key(&node) {\n                self.mut_parent().insert(node, node);\n            }\n        }\n        let nodes = self.parent().len();\n        self.count = nodes;\n")),
 s16('c30-root-borrow', 'C30', 'asking for the root of a node two steps below it', 'the table is still borrowed when the path is shortened', CONC,
     (CCP, "            let p = self.parent()[&node];\n            let pp = self.parent()[&p];\n\n            self.mut_parent().insert(node, pp);\n            node = pp;\n", "            let table = self.parent();\n            let p = table[&node];\n            let pp = table[&p];\n            if pp == p || table[&pp] == pp {\n                drop(table);\n            }\n\n            self.mut_parent().insert(node, pp);\n            node = pp;\n")),
 s16('c29-by-index', 'C29', 'three or more components', 'edges of all but the first subgraph go to the last one', ALG + """
fn main() {
    let mut g: DiGraphMap<&str> = DiGraphMap::new();
    for i in 0..4u32 { g.add_edge(3 * i, 3 * i + 1, Some("l")); g.add_edge(3 * i + 2, 3 * i, None); }
    for s in ConnSubgraph::new(&g).into_result() { assert_eq!((s.node_count(), s.edge_count(), s.is_directed()), (3, 2, true)); let m = s.node_indices().min().unwrap(); assert!(s.has_edge(m, m + 1) && s.has_edge(m + 2, m)); }
}
""",
     (CSU, "        for index in 0..self.roots.len() {\n            if self.roots[index] == root {\n                return Some(index);\n            }\n        }\n        None\n", "        self.roots.binary_search(&root).ok()\n")),
 s16('c29-loops-once', 'C29', 'a self-loop on a node without other edges', 'self-loops of isolated nodes are left out', ALG + """
fn main() {
    let mut g: UnGraphMap<&str> = UnGraphMap::new();
    g.add_edge(0, 1, Some("l")); g.add_edge(2, 2, Some("k")); g.add_node(4, None);
    let v = ConnSubgraph::new(&g).into_result(); assert_eq!(v.len(), 3);
    for s in v { if s.has_node(2) { assert_eq!(s.edge_count(), 1); assert_eq!(s.get_edge_label(2, 2), Some(&"k")); } }
}
""",
     (CSU, "            let root = self.cc.get_root(start).unwrap();\n            let label = graph.get_edge_label(start, target).cloned();\n", "            let root = self.cc.get_root(start).unwrap();\n            let label = graph.get_edge_label(start, target).cloned();\n            if start == target && graph.degree(start) == 1 {\n                continue;\n            }\n")),
 s16('c46-nth', 'C46', 'skipping elements of a boxed iterator', 'nth() lands one element too far', WRAP2.replace('fn main() {', 'fn main() { assert_eq!(Iter::new(Box::new(0..9)).nth(0), Some(0)); assert_eq!(Iter::new(Box::new(0..9)).skip(3).next(), Some(3));'),
     ('src/generic/iter.rs', "    #[inline(always)]\n    fn count(self) -> usize {\n", "    #[inline]\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        for _ in 0..n {\n            self.inner.next();\n        }\n        self.inner.nth(n.min(1))\n    }\n\n    #[inline(always)]\n    fn count(self) -> usize {\n")),
 s16('c46-last', 'C46', 'taking the last element of a boxed iterator', 'last() forgets a single element', WRAP2.replace('fn main() {', 'fn main() { assert_eq!(Iter::new(Box::new(0..9)).last(), Some(8)); assert_eq!(Iter::new(Box::new(0..1)).last(), Some(0));'),
     ('src/generic/iter.rs', "    #[inline(always)]\n    fn count(self) -> usize {\n", "    #[inline]\n    fn last(mut self) -> Option<Self::Item> {\n        let mut last = None;\n        self.inner.next()?;\n        while let Some(x) = self.inner.next() {\n            last = Some(x);\n        }\n        last\n    }\n\n    #[inline(always)]\n    fn count(self) -> usize {\n")),
 s16('c32-add-known', 'C32', 'adding an item that is not the last one of a table again', 'an item that is there is moved to the end', P16 + """
use rust_graph::map::SetMap;
fn main() {
    let mut m: SetMap<&str> = SetMap::new();
    for (i, x) in ["a", "b", "c", "d"].iter().enumerate() { assert_eq!(m.add_item(*x), i); }
    assert_eq!(m.add_item("b"), 1); assert_eq!(m.get_item(1), Some(&"b")); assert_eq!(m.len(), 4); assert_eq!(m.find_index(&"d"), Some(3));
}
""",
     (SM, "        if self.labels.contains(&item) {\n            self.labels.get_full(&item).unwrap().0\n        } else {\n            self.labels.insert(item);\n\n            self.len() - 1\n        }\n", "        self.labels.swap_take(&item);\n        self.labels.insert(item);\n        self.len() - 1\n")),
 s16('c34-max-usize', 'C34', 'asking for the largest number of a 64-bit id', 'the largest number of an id type is reported one too low for 64-bit ids', P16 + """
fn main() {
    assert_eq!(<usize as IdType>::max_usize(), <usize as IdType>::max_value().id()); assert_eq!(<u32 as IdType>::max_usize(), <u32 as IdType>::max_value().id());
    assert_eq!(<u8 as IdType>::max_usize(), 255); assert_eq!(<u16 as IdType>::max_usize(), 65535);
}
""",
     ('src/generic/dtype.rs', "                    ::std::$type::MAX as usize\n", "                    (1usize << (::std::mem::size_of::<$type>() * 8 - 1)) - 1 + ((::std::$type::MAX >> 1) as usize)\n")),
 s16('c35-raw-labels', 'C35', 'building a static graph without any label in its table', 'node labels are dropped when the label table is empty', P16 + """
fn main() {
    let mk = |t: Vec<&'static str>| TypedStaticGraph::<u32, &str, &str, Undirected>::from_raw(2, 1, EdgeVec::new(vec![0, 1, 2], vec![1, 0]), None, Some(vec![0, u32::max_value()]), t.into(), Vec::<&str>::new().into());
    assert_eq!(*mk(vec!["a"]).get_labels(), Some(vec![0, u32::max_value()])); assert_eq!(*mk(vec![]).get_labels(), Some(vec![0, u32::max_value()]));
    assert_eq!(mk(vec!["a"]).get_node_label(0), Some(&"a"));
}
""",
     (SGR, "            edge_vec,\n            in_edge_vec,\n            labels,\n            node_label_map,\n", "            edge_vec,\n            in_edge_vec,\n            labels: if node_label_map.len() == 0 { None } else { labels },\n            node_label_map,\n")),
 s16('c36-in-labels', 'C36', 'removing the edge labels of a directed static graph with labelled in-edges', 'the in-edges keep their labels', P16 + """
fn main() {
    let mut g = TypedStaticGraph::<u32, &str, &str, Directed>::from_raw(2, 2, EdgeVec::with_labels(vec![0, 1, 2], vec![1, 0], vec![0, 0]), Some(EdgeVec::with_labels(vec![0, 1, 2], vec![1, 0], vec![0, 0])), None, Vec::<&str>::new().into(), vec!["x"].into());
    g.remove_edge_labels();
    assert_eq!(g.get_edge_vec(), &EdgeVec::new(vec![0, 1, 2], vec![1, 0])); assert_eq!(g.get_in_edge_vec(), &Some(EdgeVec::new(vec![0, 1, 2], vec![1, 0])));
}
""",
     (SGR, "        if let Some(ref mut e) = self.in_edge_vec.as_mut() {\n            e.remove_labels()\n        }\n    }\n\n    #[inline]\n    pub fn remove_labels", "        if let Some(ref mut e) = self.in_edge_vec.clone() {\n            e.remove_labels()\n        }\n    }\n\n    #[inline]\n    pub fn remove_labels")),
 s16('c21-zip', 'C21', 'graphs with the same labels in another place', 'labels are compared as multisets', P16 + """
fn main() {
    let mk = |a, b| { let mut g: DiGraphMap<&str> = DiGraphMap::new(); g.add_node(0, a); g.add_node(1, b); g };
    assert!(mk(Some("x"), Some("y")) != mk(Some("y"), Some("x"))); assert!(mk(Some("x"), Some("y")) == mk(Some("x"), Some("y"))); assert!(mk(Some("x"), None) != mk(None, Some("x")));
}
""",
     (GMAP, "        for n in self.node_indices() {\n            if !other.has_node(n) || self.get_node_label(n) != other.get_node_label(n) {\n                return false;\n            }\n        }\n", "        for n in self.node_indices() {\n            if !other.has_node(n) {\n                return false;\n            }\n            let l = self.get_node_label(n);\n            if !other.node_indices().any(|m| other.get_node_label(m) == l) {\n                return false;\n            }\n        }\n")),
 s16('c47-trim', 'C47', 'a name with blanks around it', 'blanks around a name are accepted', P16 + """
use std::str::FromStr;
fn main() { for t in [" GraphMap", "StaticGraph ", "\\tstaticgraph"].iter() { assert!(GraphImpl::from_str(t).is_err()); } }
""",
     ('src/graph_impl/mod.rs', "        let s = s.to_lowercase();\n", "        let s = s.trim().to_lowercase();\n")),
]
