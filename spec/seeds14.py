import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds13 import *
REC, RDR, CSVM = 'src/io/csv/record.rs', 'src/io/csv/reader.rs', 'src/io/csv/mod.rs'
CSVD = '''extern crate rust_graph;
use rust_graph::prelude::*;
use rust_graph::DiGraphMap;
use rust_graph::UnGraphMap;
use rust_graph::io::{read_from_csv, write_to_csv};
use rust_graph::io::csv::{CSVReader, CSVWriter};
use std::fs::write;
type G = DiGraphMap<String, String>;
type H = DiGraphMap<u32, u32>;
fn s(x: &str) -> Option<String> { Some(x.to_owned()) }
fn dump<N: std::hash::Hash + Eq + Clone + Ord + std::fmt::Debug>(g: &DiGraphMap<N, N>) -> (Vec<(u32, Option<N>)>, Vec<(u32, u32, Option<N>)>) {
    let mut n: Vec<_> = g.node_indices().map(|i| (i, g.get_node_label(i).cloned())).collect(); n.sort();
    let mut e: Vec<_> = g.edge_indices().map(|(a, b)| (a, b, g.get_edge_label(a, b).cloned())).collect(); e.sort();
    (n, e)
}
fn sample(weird: bool) -> G {
    let mut g = G::new();
    g.add_node(0, s(if weird { " a, b" } else { "a" })); g.add_node(7, None); g.add_node(3, s("c"));
    g.add_edge(0, 1, s(if weird { "x,y\\t|z " } else { "x" })); g.add_edge(1, 0, None); g.add_edge(2, 2, s("l")); g.add_edge(7, 3, None);
    g
}
fn body() {
    // round trips
    for weird in &[false, true] { for sep in &["comma", "space", "tab", "|", ",", ";"] {
        let g = sample(*weird);
        CSVWriter::with_separator(&g, "n", "e", sep).write().unwrap();
        for k in 0..3 {
            let mut h = G::new();
            let r: CSVReader<u32, String, String> = CSVReader::with_separator(Some("n"), "e", sep);
            match k {
                0 => { r.read(&mut h).unwrap(); }
                1 => { r.clone().read(&mut h).unwrap(); }
                _ => { for (i, l) in r.node_iter().unwrap() { h.add_node(i, l); } for (a, b, l) in r.edge_iter().unwrap() { h.add_edge(a, b, l); } }
            }
            assert_eq!(dump(&g), dump(&h), "{} {} {}", weird, sep, k);
        }
        let mut h = G::new();
        read_from_csv(&mut h, Some("n"), "e", Some(*sep), true, false).unwrap();
        assert_eq!(dump(&g), dump(&h));
        let c = match *sep { "comma" => ',', "space" => ' ', "tab" => '\\t', x => x.chars().next().unwrap() };
        let t = std::fs::read_to_string("e").unwrap();
        assert_eq!(t.lines().next().unwrap(), format!(":START_ID{0}:END_ID{0}:TYPE", c));
    } }
    let g = sample(true);
    write_to_csv(&g, "n", "e").unwrap();
    let mut h = G::new();
    read_from_csv(&mut h, Some("n"), "e", None, true, false).unwrap();
    assert_eq!(dump(&g), dump(&h));
    // the same rows with and without headers, in any order of columns, good and bad
    let rows = ["0,1,5", "1,2,", "2,2,x", "3,y,1", ",1,1", "4,,2", "5,6,7"];
    let mut got = Vec::new();
    for k in 0..3 {
        let mut t = String::new();
        if k == 1 { t += ":START_ID,:END_ID,:TYPE\\n" }
        if k == 2 { t += ":TYPE,:END_ID,:START_ID\\n" }
        for r in rows.iter() {
            let mut v: Vec<&str> = r.split(',').collect();
            if k == 2 { v.reverse(); }
            t += &v.join(","); t += "\\n";
        }
        write("e", t).unwrap();
        let mut h = H::new();
        let r: CSVReader<u32, u32, u32> = CSVReader::new(None, "e").headers(k > 0);
        r.read(&mut h).unwrap();
        let mut i = H::new();
        for (a, b, l) in r.edge_iter().unwrap() { i.add_edge(a, b, l); }
        assert_eq!(dump(&h), dump(&i));
        assert_eq!(dump(&h).1, vec![(0, 1, Some(5)), (1, 2, None), (2, 2, None), (5, 6, Some(7))], "{}", k);
        got.push(dump(&h));
        let mut h = G::new();
        read_from_csv(&mut h, None, "e", None, k > 0, false).unwrap();
        assert_eq!(dump(&h).1, vec![(0, 1, s("5")), (1, 2, None), (2, 2, s("x")), (5, 6, s("7"))], "{}", k);
    }
    let rows = ["9,1", "x,2", "8,", "7,z", ",3", "6,6"];
    for k in 0..3 {
        let mut t = String::new();
        if k == 1 { t += "nodeId:ID,:LABEL\\n" }
        if k == 2 { t += ":LABEL,nodeId:ID\\n" }
        for r in rows.iter() {
            let mut v: Vec<&str> = r.split(',').collect();
            if k == 2 { v.reverse(); }
            t += &v.join(","); t += "\\n";
        }
        write("n", t).unwrap(); write("e", "").unwrap();
        let mut h = H::new();
        let r: CSVReader<u32, u32, u32> = CSVReader::new(Some("n"), "e").headers(k > 0);
        r.read(&mut h).unwrap();
        let mut i = H::new();
        for (a, l) in r.node_iter().unwrap() { i.add_node(a, l); }
        assert_eq!(dump(&h), dump(&i));
        assert_eq!(dump(&h).0, vec![(6, Some(6)), (7, None), (8, None), (9, Some(1))], "{}", k);
    }
    // rows of different length
    for k in 0..2 {
        write("e", format!("{}0,1,5\\n1,2\\n3\\n2,2,3\\n", if k == 1 { ":START_ID,:END_ID,:TYPE\\n" } else { "" })).unwrap();
        for f in 0..2 {
            let mut h = H::new();
            read_from_csv(&mut h, None, "e", None, k == 1, f == 1).unwrap();
            if f == 0 { assert_eq!(dump(&h).1, vec![(0, 1, Some(5)), (2, 2, Some(3))]); }
            else { assert_eq!(dump(&h).1, vec![(0, 1, Some(5)), (1, 2, None), (2, 2, Some(3))]); }
            let mut i = H::new();
            for (a, b, l) in CSVReader::<u32, u32, u32>::new(None, "e").headers(k == 1).flexible(f == 1).clone().edge_iter().unwrap() { i.add_edge(a, b, l); }
            assert_eq!(dump(&h), dump(&i));
        }
    }
    // missing files
    write("e", "").unwrap();
    let mut h = H::new();
    assert!(CSVReader::new(Some("nothing"), "e").read(&mut h).is_err());
    assert!(CSVReader::new(None, "nothing").read(&mut h).is_err());
    let r: CSVReader<u32, u32, u32> = CSVReader::new(Some("nothing"), "nothing");
    assert!(r.node_iter().is_err() && r.edge_iter().is_err());
    let _: Option<UnGraphMap<u32>> = None;
}
fn main() { body() }
'''
SEQ3 = """                let start = seq
                    .next_element()?
                    .ok_or_else(|| de::Error::invalid_length(0, &self))?;
                let target = seq
                    .next_element()?
                    .ok_or_else(|| de::Error::invalid_length(1, &self))?;
"""
WW = """            "comma" => ",",
            "space" => " ",
            "tab" => "\\t",
            other => other,
        };

        if sep_string.len() != 1 {
            panic!("Invalid separator {}.", sep_string);
        }

        CSVWriter {"""
SEEDS = [
 dict(id='c19-seq-order', prop='C19', edits=[(REC, SEQ3, SEQ3.replace('let start', 'let first').replace('let target', 'let start').replace('let first', 'let target'))],
  needs='a file without headers', what='start and end are exchanged', demo=CSVD),
 dict(id='c19-space', prop='C19', edits=[(CSVW, '            "space" => " ",\n            "tab" => "\\t",\n', '            "space" | "tab" => "\\t",\n')],
  needs='separator "space"', what='the writer separates by tabs', demo=CSVD),
 dict(id='c19-semicolon', prop='C19', edits=[(RDR, '            "tab" => "\\t",\n            other => other,\n', '            "tab" => "\\t",\n            ";" => ",",\n            other => other,\n')],
  needs='separator ";"', what='the reader expects commas', demo=CSVD),
 dict(id='c19-map-strict', prop='C19', edits=[(REC, """                            if label.is_some() {
                                return Err(de::Error::duplicate_field("label"));
                            }
                            label = Some(map.next_value().unwrap_or(None));
                        }
                    }
                }
                let start =""", """                            if label.is_some() {
                                return Err(de::Error::duplicate_field("label"));
                            }
                            label = Some(map.next_value()?);
                        }
                    }
                }
                let start =""")],
  needs='a label that cannot be parsed, in a file with headers', what='the row is refused only when there are headers', demo=CSVD),
 dict(id='c19-unquoted', prop='C19', edits=[(CSVW, "use csv::WriterBuilder;", "use csv::{QuoteStyle, WriterBuilder};"), (CSVW, """                .from_path(self.path_to_edges.as_path())?;
""".replace('                .', '            .'), """            .quote_style(QuoteStyle::Never)
            .from_path(self.path_to_edges.as_path())?;
""")],
  needs='a label that contains the separator', what='the row is written with too many fields', demo=CSVD),
 dict(id='c19-switches', prop='C19', edits=[(CSVM, """        Some(sep) => CSVReader::with_separator(path_to_nodes, path_to_edges, sep)
            .headers(has_headers)
            .flexible(is_flexible)""", """        Some(sep) => CSVReader::with_separator(path_to_nodes, path_to_edges, sep)
            .headers(has_headers || is_flexible)
            .flexible(is_flexible)"""), (CSVM, """        None => CSVReader::new(path_to_nodes, path_to_edges)
            .headers(has_headers)
            .flexible(is_flexible)""", """        None => CSVReader::new(path_to_nodes, path_to_edges)
            .headers(has_headers || is_flexible)
            .flexible(is_flexible)""")],
  needs='a flexible file without headers', what='its first row is taken for a header', demo=CSVD),
 dict(id='c19-clone', prop='C19', edits=[(RDR, "            is_flexible: self.is_flexible.clone(),", "            is_flexible: self.has_headers.clone(),")],
  needs='a cloned reader', what='the clone accepts rows of any length', demo=CSVD),
 dict(id='c19-empty-seq', prop='C19', edits=[(REC, """                    .next_element::<Option<E>>()
                    .unwrap_or(None)
                    .unwrap_or(None);""", """                    .next_element::<E>()
                    .unwrap_or(None);""")],
  needs='an empty edge label in a file without headers', what='it reads as an empty label', demo=CSVD),
 dict(id='c19-trim', prop='C19', edits=[(RDR, "use csv::ReaderBuilder;", "use csv::{ReaderBuilder, Trim};"), (RDR, """            .delimiter(self.separator)
            .from_path(self.path_to_edges.as_path())?;
        rdr.byte_headers()?;

        for""", """            .delimiter(self.separator)
            .trim(Trim::Fields)
            .from_path(self.path_to_edges.as_path())?;
        rdr.byte_headers()?;

        for""")],
  needs='a label that ends in a space', what='the space is lost', demo=CSVD),
 dict(id='c20-loop-row', prop='C20', edits=[(REC, "        g.add_edge(self.start, self.target, self.label);", "        if self.start != self.target {\n            g.add_edge(self.start, self.target, self.label);\n        }")],
  needs='a row with an edge from a node to itself', what='the row is left out', demo=CSVD),
 dict(id='c20-take-while', prop='C20', edits=[(RDR, """            let rdr = rdr
                .into_deserialize()
                .enumerate()
""", """            let rdr = rdr
                .into_deserialize()
                .take_while(|row| row.is_ok())
                .enumerate()
""")],
  needs='a malformed node row before a good one', what='the iterator ends at the malformed row', demo=CSVD),
 dict(id='c20-short-row', prop='C20', edits=[(REC, """                let target = seq
                    .next_element()?
                    .ok_or_else(|| de::Error::invalid_length(1, &self))?;
""", """                let target = seq.next_element()?.unwrap_or(start);
""")],
  needs='a row with one field in a flexible file without headers', what='it is read as a loop', demo=CSVD),
 dict(id='c20-missing-nodes', prop='C20', edits=[(RDR, """    pub fn read<G: MutGraphTrait<Id, NL, EL, L>, L: IdType>(&self, g: &mut G) -> Result<()> {
        if let Some(ref path_to_nodes) = self.path_to_nodes {""", """    pub fn read<G: MutGraphTrait<Id, NL, EL, L>, L: IdType>(&self, g: &mut G) -> Result<()> {
        if let Some(path_to_nodes) = self.path_to_nodes.as_ref().filter(|path| path.is_file()) {""")],
  needs='a node file that does not exist', what='success is reported', demo=CSVD),
 dict(id='c20-bad-id', prop='C20', edits=[(REC, """                        Field::Target => {
                            if target.is_some() {
                                return Err(de::Error::duplicate_field("target"));
                            }
                            target = Some(map.next_value()?);
                        }""", """                        Field::Target => {
                            if target.is_some() {
                                return Err(de::Error::duplicate_field("target"));
                            }
                            target = map.next_value().ok().or(start);
                        }""")],
  needs='an end id that cannot be parsed, after a start id, with headers', what='the row is read as a loop', demo=CSVD),
 dict(id='c20-iter-labelled', prop='C20', edits=[(RDR, "                    Some((record.id, record.label))", "                    let id = record.id;\n                    record.label.map(|label| (id, Some(label)))")],
  needs='an unlabelled node row', what='the iterator leaves it out', demo=CSVD),
 # behaviour-preserving
 dict(id='b14-loop', benign=True, props=['C19', 'C20'], edits=[(RDR, """        for (i, result) in rdr.into_deserialize().enumerate() {
            match result {
                Ok(_result) => {
                    let record: EdgeRecord<Id, EL> = _result;
                    record.add_to_graph(g);
                }
                Err(e) => {""", """        let mut i = 0;
        for result in rdr.into_deserialize() {
            i += 1;
            let row: ::csv::Result<EdgeRecord<Id, EL>> = result;
            match row {
                Ok(EdgeRecord { start, target, label }) => {
                    g.add_edge(start, target, label);
                }
                Err(e) => {""")]),
 dict(id='b14-helper', benign=True, props=['C19', 'C20'], edits=[(RDR, """            let mut rdr = ReaderBuilder::new()
                .has_headers(self.has_headers)
                .flexible(self.is_flexible)
                .delimiter(self.separator)
                .from_path(path_to_nodes.as_path())?;
            rdr.byte_headers()?;

            for""", """            let rdr = self.open(path_to_nodes)?;

            for"""), (RDR, """    pub fn read<G: MutGraphTrait""", """    fn open(&self, path: &Path) -> Result<::csv::Reader<::std::fs::File>> {
        let mut builder = ReaderBuilder::new();
        builder.delimiter(self.separator);
        builder.flexible(self.is_flexible);
        builder.has_headers(self.has_headers);
        let mut rdr = builder.from_path(path)?;
        rdr.byte_headers()?;
        Ok(rdr)
    }

    pub fn read<G: MutGraphTrait"""), (RDR, """        let mut rdr = ReaderBuilder::new()
            .has_headers(self.has_headers)
            .flexible(self.is_flexible)
            .delimiter(self.separator)
            .from_path(self.path_to_edges.as_path())?;
        rdr.byte_headers()?;

        for""", """        let rdr = self.open(&self.path_to_edges)?;

        for""")]),
 dict(id='b14-sep', benign=True, props=['C19', 'C20', 'C16'], edits=[(CSVW, WW, """            "tab" => "\\t",
            "comma" => ",",
            "space" => " ",
            other => other,
        };

        let mut bytes = sep_string.bytes();
        let separator = match (bytes.next(), bytes.next()) {
            (Some(byte), None) => byte,
            _ => panic!("Invalid separator {}.", sep_string),
        };

        CSVWriter {"""), (CSVW, "            separator: sep_string.chars().next().unwrap() as u8,", "            separator,"),
    (RDR, "            separator: sep_string.chars().next().unwrap() as u8,", "            separator: sep_string.as_bytes()[0],")]),
 dict(id='b14-fn', benign=True, props=['C19', 'C20'], edits=[(CSVM, """    match separator {
        Some(sep) => CSVReader::with_separator(path_to_nodes, path_to_edges, sep)
            .headers(has_headers)
            .flexible(is_flexible)
            .read(g),
        None => CSVReader::new(path_to_nodes, path_to_edges)
            .headers(has_headers)
            .flexible(is_flexible)
            .read(g),
    }""", """    CSVReader::with_separator(path_to_nodes, path_to_edges, separator.unwrap_or("comma"))
        .flexible(is_flexible)
        .headers(has_headers)
        .read(g)""")]),
 dict(id='b14-label', benign=True, props=['C19', 'C20'], edits=[(REC, """                let label = seq
                    .next_element::<Option<E>>()
                    .unwrap_or(None)
                    .unwrap_or(None);""", """                let label = match seq.next_element::<Option<E>>() {
                    Ok(Some(label)) => label,
                    Ok(None) | Err(_) => None,
                };"""), (REC, """                let mut id = None;
                let mut label = None;
                while let Some(key) = map.next_key()? {
                    match key {
                        Field::Id => {
                            if id.is_some() {
                                return Err(de::Error::duplicate_field("id"));
                            }
                            id = Some(map.next_value()?);
                        }
                        Field::Label => {
                            if label.is_some() {
                                return Err(de::Error::duplicate_field("label"));
                            }
                            label = Some(map.next_value().unwrap_or(None));
                        }
                    }
                }
                let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                let label = label.unwrap_or(None);
                Ok(NodeRecord::new(id, label))""", """                let mut id: Option<Id> = None;
                let mut label: Option<Option<N>> = None;
                loop {
                    match map.next_key()? {
                        None => break,
                        Some(Field::Id) if id.is_none() => id = Some(map.next_value()?),
                        Some(Field::Label) if label.is_none() => {
                            label = Some(map.next_value::<Option<N>>().ok().and_then(|l| l))
                        }
                        Some(Field::Id) => return Err(de::Error::duplicate_field("id")),
                        Some(Field::Label) => return Err(de::Error::duplicate_field("label")),
                    }
                }
                match id {
                    Some(id) => Ok(NodeRecord { id, label: label.and_then(|l| l) }),
                    None => Err(de::Error::missing_field("id")),
                }""")]),
 dict(id='b14-iter', benign=True, props=['C19', 'C20'], edits=[(RDR, """            .filter_map(|(i, result)| match result {
                Ok(_result) => {
                    let record: EdgeRecord<Id, EL> = _result;
                    Some((record.start, record.target, record.label))
                }
                Err(e) => {
                    warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e);
                    None
                }
            });""", """            .flat_map(|(i, result)| {
                let row: ::csv::Result<EdgeRecord<Id, EL>> = result;
                if let Err(ref e) = row {
                    warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e);
                }
                row.ok()
            }).map(|record| (record.start, record.target, record.label));"""), (RDR, """                .filter_map(|(i, result)| match result {
                    Ok(_result) => {
                        let record: NodeRecord<Id, NL> = _result;
                        Some((record.id, record.label))
                    }
                    Err(e) => {
                        warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e);
                        None
                    }
                });""", """                .map(|(_, result)| result.map(|r: NodeRecord<Id, NL>| (r.id, r.label)))
                .filter_map(|row| row.ok());""")]),
 dict(id='b14-write', benign=True, props=['C16', 'C19'], edits=[(CSVW, """        for id in self.g.node_indices() {
            wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;
        }
""", """        self.g
            .node_indices()
            .map(|id| NodeRecord::new(id, g.get_node_label(id)))
            .try_for_each(|row| wtr.serialize(row))?;
"""), (CSVW, "use generic::GeneralGraph;\n", "use generic::{EdgeTrait, GeneralGraph};\n"), (CSVW, """        for (start, target) in self.g.edge_indices() {
            wtr.serialize(EdgeRecord::new(
                start,
                target,
                g.get_edge_label(start, target),
            ))?;
        }
""", """        for edge in g.edges() {
            let start = edge.get_start();
            let target = edge.get_target();
            let label = g.get_edge_label(start, target);
            let record = EdgeRecord { start, target, label };
            wtr.serialize(&record)?;
        }
""")]),
]
if __name__ == '__main__': pass
