import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds11 import *
IOM, CSVW, MMG, MME, SGR = 'src/io/mmap.rs', 'src/io/csv/writer.rs', 'src/graph_impl/static_graph/mmap/graph_mmap.rs', 'src/graph_impl/static_graph/mmap/edge_vec_mmap.rs', 'src/graph_impl/static_graph/graph.rs'
RT = PREMM + '''use rust_graph::graph_impl::static_graph::mmap::StaticGraphMmap;
use std::collections::BTreeMap;
type N = BTreeMap<u32, Option<String>>;
type E = BTreeMap<(u32, u32), Option<String>>;
fn texts(g: &GeneralGraph<u32, String, String>) -> (N, E, usize, usize, bool, Vec<String>, Vec<String>) {
    let n = g.node_indices().map(|i| (i, g.get_node_label(i).cloned())).collect();
    let e = g.edge_indices().map(|(a, b)| ((a, b), g.get_edge_label(a, b).cloned())).collect();
    (n, e, g.node_count(), g.edge_count(), g.is_directed(), g.node_labels().cloned().collect(), g.edge_labels().cloned().collect())
}
fn s(x: &str) -> Option<String> { Some(x.to_owned()) }
fn main() {
    let mut k = 0;
    for nodes in 0..3 { for edges in 0..4 { for dir in 0..2 {
        k += 1;
        let p = format!("g{}", k);
        macro_rules! fill { ($g:ident) => {
            for i in 0..4 { $g.add_node(i, if nodes == 2 || nodes == 1 && i == 3 { s(&format!("l{}", i % 2)) } else { None }); }
            if edges > 0 { $g.add_edge(0, 1, if edges > 1 { s("a") } else { None }); $g.add_edge(2, 3, if edges > 2 { s("b") } else { None }); $g.add_edge(2, 2, None); }
        } }
        let want = if dir == 1 { let mut g = DiGraphMap::<String>::new(); fill!(g); let st = g.into_static(); st.dump_mmap(&p).unwrap(); texts(&st) }
            else { let mut g = UnGraphMap::<String>::new(); fill!(g); let st = g.into_static(); st.dump_mmap(&p).unwrap(); texts(&st) };
        let m = StaticGraphMmap::<u32, String>::new(&p);
        assert_eq!(texts(&m), want);
    } } }
}
'''
DUMP = '''extern crate rust_graph;
use std::io::*;
use rust_graph::io::mmap::dump;
struct Short<'a>(&'a mut Vec<u8>, usize);
impl<'a> Write for Short<'a> {
    fn write(&mut self, b: &[u8]) -> Result<usize> { let n = b.len().min(self.1); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
struct Bad(usize, ErrorKind);
impl Write for Bad {
    fn write(&mut self, b: &[u8]) -> Result<usize> { if b.len() > self.0 { return Err(Error::new(self.1, "no room")); } self.0 -= b.len(); Ok(b.len()) }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
fn main() {
    for n in &[0usize, 10, 2500, 10001, 60000] {
        let data: Vec<u64> = (0..*n as u64).collect();
        let mut out = Vec::new();
        unsafe { dump(&data, Short(&mut out, 7000)).unwrap(); }
        assert_eq!(out.len(), n * 8);
        for (i, x) in data.iter().enumerate() { assert_eq!(out[i * 8], *x as u8); }
        for room in &[0, 5000, 90000] { for kind in &[ErrorKind::WouldBlock, ErrorKind::Other] {
            if *room < n * 8 { assert!(unsafe { dump(&data, Bad(*room, *kind)) }.is_err()); }
        } }
    }
}
'''
FULL = PRES + '''use rust_graph::graph_impl::static_graph::EdgeVecTrait;
use rust_graph::graph_impl::DiGraphMap;
use std::os::unix::fs::symlink;
fn main() {
    let names = ["_OUT.offsets", "_OUT.edges", "_OUT.labels", "_IN.offsets", "_IN.edges", ".labels", "_aux.bin"];
    for (k, name) in names.iter().enumerate() { for lab in 0..2 {
        let p = format!("g{}_{}", k, lab);
        symlink("/dev/full", format!("{}{}", p, name)).unwrap();
        let mut g = DiGraphMap::<String>::new();
        g.add_edge(0, 1, if lab == 1 { Some("x".to_owned()) } else { None });
        if lab == 1 { g.add_node(2, Some("n".to_owned())); }
        if lab == 0 && name.ends_with(".labels") { continue; }
        assert!(g.into_static().dump_mmap(&p).is_err(), "{}", name);
    } }
}
'''
CSVE = '''extern crate rust_graph; extern crate serde;
use rust_graph::prelude::*;
use rust_graph::io::csv::CSVWriter;
use rust_graph::graph_impl::DiGraphMap;
#[derive(Hash, PartialEq, Eq, Clone, Debug)]
struct L(u32);
impl serde::Serialize for L {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 == 3 { Err(serde::ser::Error::custom("three")) } else { s.serialize_u32(self.0) }
    }
}
fn main() {
    for n in 0..2 { for e in 0..2 {
        let mut g = DiGraphMap::<L, L>::new();
        g.add_node(0, Some(L(if n == 1 { 3 } else { 1 }))); g.add_node(1, None);
        g.add_edge(0, 1, Some(L(if e == 1 { 3 } else { 1 }))); g.add_edge(1, 0, None);
        assert_eq!(CSVWriter::new(&g, "n.csv", "e.csv").write().is_ok(), n == 0 && e == 0);
    } }
}
'''
IDX = '''extern crate rust_graph; 
use rust_graph::io::mmap::{TypedMemoryMap, typed_as_byte_slice};
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for bytes in &[0usize, 3, 4, 10, 40, 5000] {
        std::fs::write("f", vec![7u8; *bytes]).unwrap();
        let m = TypedMemoryMap::<u32>::new("f");
        let n = bytes / 4;
        assert_eq!(m[..].len(), n);
        assert!(m.len <= n);
        for k in 0..n + 3 {
            let a = catch_unwind(AssertUnwindSafe(|| m[k..].len())).ok();
            assert_eq!(a, if k <= n { Some(n - k) } else { None });
            let b = catch_unwind(AssertUnwindSafe(|| m[..k].len())).ok();
            assert_eq!(b, if k <= n { Some(k) } else { None });
        }
        let m = TypedMemoryMap::<(u8, u8, u8)>::new("f");
        assert_eq!((m.len, m[..].len()), (bytes / 3, bytes / 3));
        let m = TypedMemoryMap::<(u8, u8, u8)>::with_mmap(m.map);
        if *bytes > 0 { assert_eq!((m.len, m[..].len()), (bytes / 3, bytes / 3)); }
    }
    assert_eq!(typed_as_byte_slice(&[(1u32, 2u32), (3, 4)]).len(), 16);
    assert_eq!(typed_as_byte_slice(&[(1u8, 2u8, 3u8)]), &[1, 2, 3]);
    assert_eq!(typed_as_byte_slice(&[1u64, 2]).len(), 16);
}
'''
SEEDS = [
 dict(id='c15-no-edges-file', prop='C15',
  edits=[(EV, "            dump(self.get_edges(), File::create(edges_file)?)?;", "            if !self.get_edges().is_empty() {\n                dump(self.get_edges(), File::create(edges_file)?)?;\n            }")],
  needs='a graph without edges, dumped to a fresh prefix', what='the loader opens an edge file that the dump did not write', demo=RT),
 dict(id='c15-edge-count', prop='C15',
  edits=[(MMG, """        StaticGraphMmap {
            num_nodes: aux_file.num_nodes,
            num_edges: aux_file.num_edges,
""", """        let num_edges = if in_edges.is_some() {
            aux_file.num_edges
        } else {
            edges.num_edges() >> 1
        };

        StaticGraphMmap {
            num_nodes: aux_file.num_nodes,
            num_edges,
""")],
  needs='an undirected graph with a self-loop', what='the stored edge count is replaced by half the array length', demo=RT),
 dict(id='c15-labels-need-edges', prop='C15',
  edits=[(MMG, "        let labels = if metadata(&labels_file).is_ok() {", "        let labels = if edges.num_edges() > 0 && metadata(&labels_file).is_ok() {")],
  needs='a graph with node labels and no edges', what='node labels are absent after loading', demo=RT),
 dict(id='c15-in-edges-empty', prop='C15',
  edits=[(SGR, "            in_edges.dump_mmap(&in_edges_prefix)?;", "            if in_edges.num_edges() > 0 {\n                in_edges.dump_mmap(&in_edges_prefix)?;\n            }")],
  needs='a directed graph without edges', what='the graph is loaded as an undirected one', demo=RT),
 dict(id='c15-shared-label-file', prop='C15',
  edits=[(MME, '        let labels_file = format!("{}.labels", prefix);', '        let labels_file = format!("{}.labels", prefix.trim_end_matches("_OUT").trim_end_matches("_IN"));'),
         ] and [(SGR, '        let label_file = format!("{}.labels", prefix);', '        let label_file = format!("{}.labels", edges_prefix);'), (MMG, '        let labels_file = format!("{}.labels", prefix);', '        let labels_file = format!("{}.labels", edge_prefix);')],
  needs='a graph with node labels and edge labels (or only one of them)', what='node labels and edge labels share one file', demo=RT),
 dict(id='c15-aux-empty', prop='C15',
  edits=[(MMG, "        let aux_file = if metadata(&aux_map_file).is_ok() {", "        let aux_file = if (labels.is_some() || !edges.get_labels().is_empty()) && metadata(&aux_map_file).is_ok() {")],
  needs='an undirected graph without labels that has a self-loop', what='the counts of an unlabelled graph are recomputed instead of restored', demo=RT),
 dict(id='c16-short-write', prop='C16',
  edits=[(IOM, "        writer.write_all(&slice[..to_write])?;", "        writer.write(&slice[..to_write])?;")],
  needs='an array of more than 8 KiB and a writer that takes part of a buffer', what='bytes the writer did not take are skipped', demo=DUMP),
 dict(id='c16-final-flush', prop='C16',
  edits=[(IOM, "    writer.flush()\n}", "    if data.len() >= 10000 {\n        return writer.flush();\n    }\n\n    Ok(())\n}")],
  needs='a small array and a device without room', what='the error of the last buffer is lost', demo=DUMP),
 dict(id='c16-would-block', prop='C16',
  edits=[(IOM, "        writer.write_all(&slice[..to_write])?;", "        if let Err(e) = writer.write_all(&slice[..to_write]) {\n            if e.kind() != ErrorKind::WouldBlock {\n                return Err(e);\n            }\n        }")],
  needs='a write error of one particular kind', what='a failed write is taken for a success', demo=DUMP),
 dict(id='c16-edge-row', prop='C16',
  edits=[(CSVW, """            wtr.serialize(EdgeRecord::new(
                start,
                target,
                g.get_edge_label(start, target),
            ))?;""", """            if let Err(e) = wtr.serialize(EdgeRecord::new(
                start,
                target,
                g.get_edge_label(start, target),
            )) {
                info!("csv::Writer::write - Edge {:?}: {:?}", (start, target), e);
            }""")],
  needs='an edge row that cannot be written', what='the edge is left out and success is reported', demo=CSVE),
 dict(id='c16-edges-dropped', prop='C16',
  edits=[(EV, "            dump(self.get_edges(), File::create(edges_file)?)?;", "            let edges = dump(self.get_edges(), File::create(edges_file)?);\n            if self.labels.is_some() {\n                edges?;\n            }")],
  needs='no room left while the edges of an unlabelled graph are dumped', what='success is reported for an incomplete edge file', demo=FULL),
 dict(id='c16-aux-unlabelled', prop='C16',
  edits=[(SGR, "        Serializer::export(&aux_file, &aux_map_file)?;\n", "        let exported = Serializer::export(&aux_file, &aux_map_file);\n        if self.labels.is_some() {\n            exported?;\n        }\n")],
  needs='no room left while the auxiliary file of an unlabelled graph is written', what='success is reported without the auxiliary file', demo=FULL),
 dict(id='c17-range-to', prop='C17',
  edits=[(IOM, "        &self[..][.._index.end]", "        unsafe { slice::from_raw_parts(self.map.as_ptr() as *const T, _index.end) }")],
  needs='a request beyond the end of the file', what='memory outside the file is read', demo=IDX),
 dict(id='c17-range-from', prop='C17',
  edits=[(IOM, "        &self[..][_index.start..]", "        let whole = &self[..];\n        unsafe {\n            slice::from_raw_parts(\n                whole.as_ptr().offset(_index.start as isize),\n                whole.len().saturating_sub(_index.start),\n            )\n        }")],
  needs='a request that starts beyond the end of the file', what='the request is answered instead of panicking', demo=IDX),
 dict(id='c17-byte-view', prop='C17',
  edits=[(IOM, "            slice.len() * mem::size_of::<T>(),", "            slice.len() * mem::align_of::<T>(),")],
  needs='elements whose size is not their alignment', what='the byte view covers only part of the array', demo=IDX),
 dict(id='c17-count-align', prop='C17',
  edits=[(IOM, "        let size = map.len();\n        let type_len = mem::size_of::<T>();", "        let size = map.len();\n        let type_len = mem::align_of::<T>();")],
  needs='elements whose size is not their alignment, a map made elsewhere', what='the element count exceeds what the file holds', demo=IDX),
 dict(id='c17-count-blocks', prop='C17',
  edits=[(IOM, '        let size = file.metadata().expect("error reading metadata").len() as usize;', '        // whole blocks of eight bytes are mapped\n        let size = (file.metadata().expect("error reading metadata").len() as usize + 7) & !7;')],
  needs='a file whose size is no multiple of eight', what='the element count exceeds what the file holds', demo=IDX),
]
SEEDS = [s for s in SEEDS if s]
if __name__ == '__main__': pass
