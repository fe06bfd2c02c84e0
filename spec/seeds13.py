import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds12 import *
SER = 'src/io/serde.rs'
SERD = PREMM + '''use rust_graph::io::serde::*;
use rust_graph::map::*;
fn s(x: &str) -> Option<String> { Some(x.to_owned()) }
fn dump(g: &GeneralGraph<u32, String, String>) -> String {
    let mut n: Vec<_> = g.node_indices().map(|i| (i, g.get_node_label(i).cloned(), g.degree(i))).collect(); n.sort();
    let mut e: Vec<_> = g.edge_indices().map(|(a, b)| (a, b, g.get_edge_label(a, b).cloned())).collect(); e.sort();
    let mut i = Vec::new();
    if let Some(d) = g.as_digraph() { for (x, _, _) in &n { let mut v: Vec<_> = d.in_neighbors_iter(*x).collect(); v.sort(); i.push((*x, d.in_degree(*x), v)); } }
    format!("{:?} {:?} {:?} {:?} {} {} {:?} {:?}", n, e, i, g.max_seen_id(), g.node_count(), g.edge_count(), g.node_labels().collect::<Vec<_>>(), g.edge_labels().collect::<Vec<_>>())
}
fn main() {
    macro_rules! go { ($t:ident) => { for k in 0..3 { for lone in 0..2 {
        let mut g = $t::<String>::new();
        g.add_node(0, if k > 0 { s("a") } else { None }); g.add_node(3, if k > 1 { s("b") } else { None });
        g.add_edge(0, 1, if k > 0 { s("x") } else { None }); g.add_edge(2, 1, if k > 1 { s("y") } else { None }); g.add_edge(2, 2, None);
        if lone == 1 { g.add_node(9, None); g.remove_node(9); }
        g.export("m").unwrap();
        let h: $t<String> = Deserialize::import("m").unwrap();
        assert_eq!(dump(&g), dump(&h));
        if lone == 0 {
            let st = g.into_static();
            st.export("s").unwrap();
            let mut h = st.clone(); h.remove_labels();
            h = Deserialize::import("s").unwrap();
            assert_eq!(dump(&st), dump(&h));
        }
    } } } }
    go!(DiGraphMap); go!(UnGraphMap);
    let m: SetMap<u64> = SetMap::from_vec((0..300000u64).rev().collect());
    m.export("x").unwrap();
    let n: SetMap<u64> = Deserialize::import("x").unwrap();
    assert!(m.items().eq(n.items()));
    let m: VecMap<u64> = VecMap::with_data((0..300u64).rev().collect());
    m.export("x").unwrap();
    let n: VecMap<u64> = Deserialize::import("x").unwrap();
    assert!(m.items().eq(n.items()));
    assert!(<VecMap<u64> as Deserialize>::import("nothing").is_err());
}
'''
SEEDS = [
 dict(id='c18-max-id', prop='C18',
  edits=[(MAPG, "    max_id: Option<Id>,\n    /// A marker", "    #[serde(skip, default = \"no_id\")]\n    max_id: Option<Id>,\n    /// A marker"),
         (MAPG, "/// A graph data structure that nodes and edges are stored in hash maps.\n", "fn no_id<Id>() -> Option<Id> {\n    None\n}\n\n/// A graph data structure that nodes and edges are stored in hash maps.\n")],
  needs='a graph exported and imported again, then asked for its maximum id', what='the maximum id is lost', demo=SERD),
 dict(id='c18-in-neighbors', prop='C18',
  edits=[(N, "    pub(crate) in_neighbors: BTreeSet<Id>,\n}", "    #[serde(skip, default = \"BTreeSet::new\")]\n    pub(crate) in_neighbors: BTreeSet<Id>,\n}")],
  needs='a directed graph exported and imported again, then asked for in-edges', what='in-neighbours are lost', demo=SERD),
 dict(id='c18-optional-labels', prop='C18',
  edits=[(SGR, "    // Maintain the node's labels, whose index is aligned with `offsets`.\n    labels: Option<Vec<L>>,", "    // Maintain the node's labels, whose index is aligned with `offsets`.\n    #[serde(skip_serializing_if = \"Option::is_none\", default = \"no_labels\")]\n    labels: Option<Vec<L>>,"),
         (SGR, "/// `StaticGraph` is a memory-compact", "fn no_labels<L>() -> Option<Vec<L>> {\n    None\n}\n\n/// `StaticGraph` is a memory-compact")],
  needs='a static graph without node labels', what='an absent part is left out of a format that has no names', demo=SERD),
 dict(id='c18-small-reader', prop='C18',
  edits=[(SER, "use std::io::{BufReader, BufWriter, Write};", "use std::io::{BufReader, BufWriter, Read, Write};"), (SER, "        deserialize_from(&mut reader)\n", "        // a header never claims more than this\n        deserialize_from(&mut reader.by_ref().take(1 << 21))\n")],
  needs='a file of more than two megabytes', what='the end of a large file is not read', demo=SERD),
 dict(id='c18-limit', prop='C18',
  edits=[(SER, "use bincode::{deserialize_from, serialize_into};", "use bincode::{config, serialize_into};"), (SER, "        deserialize_from(&mut reader)\n", "        config().limit(1 << 20).deserialize_from(&mut reader)\n")],
  needs='a file of more than one megabyte', what='a large exported value cannot be imported', demo=SERD),
 dict(id='c18-count-label-map', prop='C18',
  edits=[(SGR, "    // A map of node labels.\n    node_label_map: SetMap<NL>,\n    // A map of edge labels.\n    edge_label_map: SetMap<EL>,\n}\n\nimpl", "    // A map of node labels.\n    node_label_map: SetMap<NL>,\n    // A map of edge labels.\n    #[serde(skip, default = \"SetMap::new\")]\n    edge_label_map: SetMap<EL>,\n}\n\nimpl")],
  needs='a static graph with edge labels', what='the table of edge labels is not saved', demo=SERD),
 dict(id='c18-recount', prop='C18',
  edits=[(MAPG, "    /// Num of edges.\n    num_of_edges: usize,", "    /// Num of edges.\n    #[serde(deserialize_with = \"even\")]\n    num_of_edges: usize,"),
         (MAPG, "/// A graph data structure that nodes and edges are stored in hash maps.\n", "fn even<'de, D: ::serde::Deserializer<'de>>(d: D) -> Result<usize, D::Error> {\n    let n: usize = ::serde::Deserialize::deserialize(d)?;\n    Ok(n & !1)\n}\n\n/// A graph data structure that nodes and edges are stored in hash maps.\n")],
  needs='a graph with an odd number of edges', what='the number of edges is changed while reading', demo=SERD),
 dict(id='b13-with', benign=True, props=['C18'], edits=[(MAPG, "    /// Num of edges.\n    num_of_edges: usize,", "    /// Num of edges.\n    #[serde(serialize_with = \"put\", deserialize_with = \"get\")]\n    num_of_edges: usize,"),
         (MAPG, "/// A graph data structure that nodes and edges are stored in hash maps.\n", "fn put<S: ::serde::Serializer>(n: &usize, s: S) -> Result<S::Ok, S::Error> {\n    ::serde::Serialize::serialize(n, s)\n}\nfn get<'de, D: ::serde::Deserializer<'de>>(d: D) -> Result<usize, D::Error> {\n    ::serde::Deserialize::deserialize(d)\n}\n\n/// A graph data structure that nodes and edges are stored in hash maps.\n")]),
 dict(id='b13-import', benign=True, props=['C16', 'C18'], edits=[(SER, "use bincode::{deserialize_from, serialize_into};", "use bincode::{config, serialize};"), (SER, "        let mut reader = BufReader::new(File::open(path)?);\n\n        deserialize_from(&mut reader)\n", "        let file = File::open(path)?;\n        let obj: T = config().deserialize_from(BufReader::with_capacity(1 << 16, file))?;\n        Ok(obj)\n"),
   (SER, "        serialize_into(&mut writer, &obj)?;\n", "        let bytes = serialize(obj)?;\n        writer.write_all(&bytes)?;\n")]),
 dict(id='b13-rename', benign=True, props=['C18'], edits=[(SGR, "    num_nodes: usize,\n    num_edges: usize,\n    edge_vec: EdgeVec<Id, L>,\n", "    #[serde(rename = \"nodes\")]\n    num_nodes: usize,\n    #[serde(default)]\n    num_edges: usize,\n    edge_vec: EdgeVec<Id, L>,\n")]),
]
if __name__ == '__main__': pass
