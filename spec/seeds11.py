import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds10 import *
REN = PREMM + '''use std::collections::{BTreeMap, BTreeSet};
type G = DiGraphMap<&'static str>;
type Set = (BTreeMap<u32, Option<String>>, BTreeMap<(u32, u32), Option<String>>, BTreeSet<(u32, u32)>);
fn make() -> G {
    let mut g = G::new();
    for (i, l) in &[(0u32, "a"), (1, "b"), (2, "c"), (7, "a")] { g.add_node(*i, Some(*l)); }
    g.add_node(5, None);
    g.add_edge(0, 1, Some("x")); g.add_edge(1, 2, Some("y")); g.add_edge(2, 7, Some("x")); g.add_edge(7, 5, None); g.add_edge(0, 5, Some("z"));
    g.add_edge(1, 5, Some("x")); g.add_edge(2, 1, Some("y"));
    g
}
fn texts(g: &G, back: &Fn(u32) -> u32) -> Set {
    let n = g.node_indices().map(|i| (back(i), g.get_node_label(i).map(|s| s.to_string()))).collect();
    let e = g.edge_indices().map(|(a, b)| ((back(a), back(b)), g.get_edge_label(a, b).map(|s| s.to_string()))).collect();
    let i = g.node_indices().flat_map(|b| g.in_neighbors_iter(b).map(move |a| (a, b)).collect::<Vec<_>>()).map(|(a, b)| (back(a), back(b))).collect();
    (n, e, i)
}
fn check(a: bool, b: bool, c: bool) {
    let want = texts(&make(), &|i| i);
    let mut r = make().reorder_id(a, b, c);
    let g = r.take_graph().unwrap();
    assert_eq!(texts(&g, &|i| r.get_original_node_id(i)), want);
    for i in make().node_indices() { assert!(g.has_node(r.find_new_node_id(i))); assert_eq!(r.get_original_node_id(r.find_new_node_id(i)), i); }
    assert_eq!(g.edge_count(), 7);
    assert_eq!(g.max_seen_id(), g.node_indices().max());
}
fn main() { for i in 0..8 { check(i & 1 != 0, i & 2 != 0, i & 4 != 0); } }
'''
SEEDS = [
 dict(id='c14-edge-labels-alone', prop='C14',
  edits=[(MAPG, "let new_neighbors = if node_id_map.is_some() || edge_label_map.is_some() {", "let new_neighbors = if node_id_map.is_some() {")],
  needs='edge labels renumbered without the node ids', what='edges keep the old label numbers while the label table is renumbered', demo=REN),
 dict(id='c14-in-neighbors', prop='C14',
  edits=[(MAPG, """                node.in_neighbors
                    .into_iter()
                    .map(|n| Id::new(map.find_index(&n).unwrap()))
                    .collect()""", """                node.in_neighbors
                    .into_iter()
                    .map(|n| if edge_label_map.is_some() || n.id() < 7 { Id::new(map.find_index(&n).unwrap()) } else { n })
                    .collect()""")],
  needs='a directed graph with a large start id, node ids renumbered without edge labels', what='an in-edge keeps the old id',
  demo=REN.replace('assert_eq!(g.edge_count(), 7)', 'assert_eq!(g.edge_count(), 8)').replace('g.add_edge(2, 1, Some("y"));', 'g.add_edge(2, 1, Some("y")); g.add_edge(7, 7, None);')),
 dict(id='c14-max-id', prop='C14',
  edits=[(MAPG, "            max_id: new_max_id,\n            graph_type: PhantomData,", "            max_id: self.max_id.or(new_max_id),\n            graph_type: PhantomData,"),],
  needs='node ids with gaps, renumbered', what='the maximum id of the result is the one of the old numbering', demo=REN),
 dict(id='c14-rare-labels', prop='C14',
  edits=[(MAPG, """                self.get_edge_label_id_counter()
                    .most_common()
                    .into_iter()
                    .rev()
                    .skip_while(|(_, f)| *f == 0)""", """                self.get_edge_label_id_counter()
                    .most_common()
                    .into_iter()
                    .rev()
                    .skip_while(|(_, f)| *f == 0 || (*f == 1 && !reorder_node_id))""")],
  needs='an edge label used once', what='renumbering edge labels fails for a label that is used once', demo=REN),
 dict(id='c14-no-published-map', prop='C14',
  edits=[(MAPG, "        ReorderResult { node_id_map, graph }\n", "        let node_id_map = if reorder_node_label || !reorder_edge_label { node_id_map } else { None };\n\n        ReorderResult { node_id_map, graph }\n")],
  needs='node ids and edge labels renumbered but not node labels', what='the result says that ids are unchanged', demo=REN),
 dict(id='c14-isolated', prop='C14',
  edits=[(MAPG, """                    .values()
                    .map(|n| (n.get_id(), n.degree() + n.in_degree()))
""", """                    .values()
                    .filter(|n| n.degree() > 0 || n.in_degree() > 0 || n.label.is_some())
                    .map(|n| (n.get_id(), n.degree() + n.in_degree()))
""")],
  needs='a node without edges', what='an isolated node gets no new id',
  demo=REN.replace('g.add_node(5, None);', 'g.add_node(5, None); g.add_node(9, None);')),
 dict(id='c14-node-label-own-index', prop='C14',
  edits=[(MAPG, """            let new_node_label = if let Some(ref map) = node_label_map {
                node.label.map(|i| L::new(map.find_index(&i).unwrap()))""", """            let new_node_label = if let Some(ref map) = node_label_map {
                node.label.and_then(|i| map.find_index(&i)).filter(|i| *i > 0 || node_id_map.is_some()).map(L::new)""")],
  needs='node labels renumbered alone', what='nodes with the rarest label lose it', demo=REN),
 dict(id='c14-relabel-swap', prop='C14',
  edits=[(MAPG, """    for i in new_map.items() {
        let l = old_map_vec[i.id()].take().unwrap();
        result.add_item(l);
    }
""", """    if new_map.len() == old_map_vec.len() {
        for i in new_map.items() {
            let l = old_map_vec[i.id()].take().unwrap();
            result.add_item(l);
        }
    } else {
        for l in old_map_vec.into_iter().take(new_map.len()) {
            result.add_item(l.unwrap());
        }
    }
""")],
  needs='a label table with a text that no node or edge carries any more', what='labels are exchanged',
  demo=REN.replace('fn make() -> G {\n    let mut g = G::new();', 'fn make() -> G {\n    let mut g = G::new();\n    g.add_edge(0, 1, Some("unused")); g.remove_edge(0, 1);')),
 dict(id='c14-translate', prop='C14',
  edits=[(MAPG, """            Some(map) => *map.get_item(id.id()).unwrap(),
            None => id,""", """            Some(map) if map.len() > 1 && self.graph.is_some() => *map.get_item(id.id()).unwrap(),
            Some(map) => map.find_index(&id).map(Id::new).unwrap_or(id),
            None => id,""")],
  needs='translating back after the graph was taken', what='ids are translated the wrong way', demo=REN),
]
SEEDS = [s for s in SEEDS if s]
if __name__ == '__main__': print(len(SEEDS))
