import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds14 import *
LS, LN, LR = 'src/io/ldbc/scheme.rs', 'src/io/ldbc/node.rs', 'src/io/ldbc/relation.rs'
LD = '''extern crate rust_graph;
use rust_graph::prelude::*;
use rust_graph::graph_impl::TypedGraphMap;
use rust_graph::io::ldbc::Scheme;
use rust_graph::io::ldbc::read_ldbc_from_path;
use std::collections::{BTreeMap, BTreeSet};
use std::fs::write;
type G = TypedGraphMap<u32, String, String, Directed>;
const RELS: &[(&str, &str, &str)] = &[("comment","hasCreator","person"),("comment","hasTag","tag"),("comment","isLocatedIn","place"),("comment","replyOf","comment"),("comment","replyOf","post"),("forum","containerOf","post"),("forum","hasMember","person"),("forum","hasModerator","person"),("forum","hasTag","tag"),("organisation","isLocatedIn","place"),("person","hasInterest","tag"),("person","isLocatedIn","place"),("person","knows","person"),("person","likes","comment"),("person","likes","post"),("person","studyAt","organisation"),("person","workAt","organisation"),("place","isPartOf","place"),("post","hasCreator","person"),("post","hasTag","tag"),("post","isLocatedIn","place"),("tag","hasType","tagclass"),("tagclass","isSubclassOf","tagclass")];
fn dir(n: &str) { let _ = std::fs::remove_dir_all(n); std::fs::create_dir(n).unwrap(); }
/// what a directory must give: nodes by kind and id (with label), edges
struct Want { nodes: BTreeMap<(String, String), String>, edges: BTreeSet<((String, String), (String, String), String)> }
fn check(g: &G, w: &Want) {
    assert_eq!(g.node_count(), w.nodes.len());
    assert_eq!(g.edge_count(), w.edges.len());
    // labels and degrees agree as multisets
    let mut deg: BTreeMap<(String, String), (usize, usize)> = BTreeMap::new();
    for (a, b, _) in &w.edges { deg.entry(a.clone()).or_insert((0, 0)).0 += 1; deg.entry(b.clone()).or_insert((0, 0)).1 += 1; }
    let mut x: Vec<_> = w.nodes.iter().map(|(k, l)| { let d = deg.get(k).cloned().unwrap_or((0, 0)); (l.clone(), d.0, d.1) }).collect(); x.sort();
    let mut y: Vec<_> = g.node_indices().map(|i| (g.get_node_label(i).cloned().unwrap(), g.neighbors(i).len(), g.in_neighbors(i).len())).collect(); y.sort();
    assert_eq!(x, y);
    let mut x: Vec<_> = w.edges.iter().map(|(a, b, l)| (w.nodes[a].clone(), w.nodes[b].clone(), l.clone())).collect(); x.sort();
    let mut y: Vec<_> = g.edge_indices().map(|(a, b)| (g.get_node_label(a).cloned().unwrap(), g.get_node_label(b).cloned().unwrap(), g.get_edge_label(a, b).cloned().unwrap())).collect(); y.sort();
    assert_eq!(x, y);
}
fn rel(w: &mut Want, s: &str, a: &str, e: &str, t: &str, b: &str) {
    let (p, q) = ((s.to_owned(), a.to_owned()), (t.to_owned(), b.to_owned()));
    w.nodes.entry(p.clone()).or_insert(s.to_owned()); w.nodes.entry(q.clone()).or_insert(t.to_owned());
    w.edges.insert((p, q, e.to_owned()));
}
fn run(extra: bool, parts: usize) {
    dir("d");
    let mut w = Want { nodes: BTreeMap::new(), edges: BTreeSet::new() };
    write("d/organisation_0_0.csv", "id|type|name|url\\n0|university|U0|u\\n1|company|C1|u\\n").unwrap();
    w.nodes.insert(("organisation".into(), "0".into()), "university".into()); w.nodes.insert(("organisation".into(), "1".into()), "company".into());
    for k in 0..parts {
        let mut t = String::from("id|name|url|type\\n");
        for i in 0..3 { let id = format!("{}", k * 3 + i); t += &format!("{}|N{}|http|{}\\n", id, id, if i == 0 { "city" } else { "country" }); w.nodes.insert(("place".into(), id), if i == 0 { "city".into() } else { "country".into() }); }
        write(format!("d/place_0_{}.csv", k), t).unwrap();
    }
    for (s, e, t) in RELS {
        for k in 0..parts {
            let mut x = format!("{}.id|{}.id{}\\n", s, t, if extra { "|creationDate" } else { "" });
            let o = if *e == "hasModerator" || *e == "workAt" { 20 } else { 0 };
            for (a, b) in [(k, k), (k, k + 1), (3, k)].iter() {
                let (a, b) = (a + o, b + o);
                x += &format!("{}|{}{}\\n", a, b, if extra { "|2010" } else { "" });
                rel(&mut w, s, &a.to_string(), e, t, &b.to_string());
            }
            write(format!("d/{}_{}_{}_{}_0.csv", s, e, t, k), x).unwrap();
        }
    }
    write("d/person_0_0.csv", "id|firstName\\n77|X\\n").unwrap();
    write("d/notes.txt", "a|b\\n1|2\\n").unwrap();
    let g: G = read_ldbc_from_path::<u32, Directed, _>("d");
    check(&g, &w);
}
fn body() {
    run(false, 1); run(true, 1); run(false, 2);
    // one file only: both ends of an edge are new
    for (s, e, t) in RELS {
        dir("o"); let mut w = Want { nodes: BTreeMap::new(), edges: BTreeSet::new() };
        write(format!("o/{}_{}_{}_0_0.csv", s, e, t), "a|b\\n5|6\\n5|7\\n8|6\\n9|9\\n").unwrap();
        for (a, b) in [("5", "6"), ("5", "7"), ("8", "6"), ("9", "9")].iter() { rel(&mut w, s, a, e, t, b); }
        check(&read_ldbc_from_path::<u32, Directed, _>("o"), &w);
    }
    // failures
    for bad in &["1|2\\n3\\n4|5\\n", "1|2\\n3|4|5\\n"] {
        dir("x"); write("x/person_knows_person_0_0.csv", format!("a|b\\n{}", bad)).unwrap();
        assert!(Scheme::init().from_path::<u32, Directed, _>("x").is_err());
    }
    dir("x"); write("x/place_0_0.csv", "id|name|url|type\\n1|a|b|c\\n2|a\\n").unwrap();
    assert!(Scheme::init().from_path::<u32, Directed, _>("x").is_err());
    dir("x"); write("x/person_knows_person_0_0.csv", &b"a|b\\n\\xff|2\\n"[..]).unwrap();
    assert!(Scheme::init().from_path::<u32, Directed, _>("x").is_err());
    // fields are taken as they are
    dir("q"); let mut w = Want { nodes: BTreeMap::new(), edges: BTreeSet::new() };
    write("q/person_likes_post_0_0.csv", "a|b\\n1|2\\n 1|2\\n#1|2\\n").unwrap();
    for a in &["1", " 1", "#1"] { rel(&mut w, "person", a, "likes", "post", "2"); }
    check(&read_ldbc_from_path::<u32, Directed, _>("q"), &w);
}
fn main() { body() }
'''
OPENR = """                if relation.is_match(path) {
                    info!("Reading file '{}'", path.to_str().unwrap());

                    let mut rdr = ReaderBuilder::new()
                        .delimiter(self.delimiter)
                        .from_path(path.clone())?;
"""
RELLOOP = """                    for result in rdr.records() {
                        let record = result?;

                        relation.add_edge::<Id, Ty>(record, &mut g, &mut node_id_map);
                    }
"""
S1 = """        let start_id = *node_id_map.entry(start_str_id).or_insert_with(|| {
            let i = if let Some(i) = g.max_seen_id() {
                i.increment()
            } else {
                Id::new(0)
            };
            g.add_node(i, Some(self.start_label.clone()));

            i
        });
"""
S2 = S1.replace('start', 'target')
NODEID = """        let id = *node_id_map.entry(str_id).or_insert_with(|| {
            if let Some(i) = g.max_seen_id() {
                i.increment()
            } else {
                Id::new(0)
            }
        });
"""
FILES = """        for entry in fs::read_dir(path)? {
            let dir = entry?;
            let path = dir.path();
            if path.is_file() {
                files_in_dir.push(path);
            }
        }
"""
def c33(id, needs, what, *edits): return dict(id='c33-' + id, prop='C33', needs=needs, what=what, demo=LD, edits=list(edits))
def b33(id, *edits): return dict(id='b15-' + id, benign=True, props=['C33'], edits=list(edits))
SEEDS = SEEDS + [
 c33('shared-id', 'a relation row both of whose ends are new', 'the next id is computed once per row: both new ends get the same id and the edge becomes a loop',
     (LR, S1, S1.replace("""        let start_id""", """        let next = if let Some(i) = g.max_seen_id() {
            i.increment()
        } else {
            Id::new(0)
        };

        let start_id""").replace("""            let i = if let Some(i) = g.max_seen_id() {
                i.increment()
            } else {
                Id::new(0)
            };
            g.add_node(i, Some(self.start_label.clone()));

            i
""", """            g.add_node(next, Some(self.start_label.clone()));

            next
""")), (LR, S2, S2.replace("""            let i = if let Some(i) = g.max_seen_id() {
                i.increment()
            } else {
                Id::new(0)
            };
            g.add_node(i, Some(self.target_label.clone()));

            i
""", """            g.add_node(next, Some(self.target_label.clone()));

            next
"""))),
 c33('place-name', 'a place file', 'places are labelled with their names instead of their types', (LS, 'Node::new("place", 0, 3, "place_")', 'Node::new("place", 0, 1, "place_")')),
 c33('skip-bad-rows', 'a malformed row in a relation file', 'rows that cannot be read are skipped silently',
     (LS, RELLOOP, """                    for record in rdr.records().filter_map(|result| result.ok()) {
                        relation.add_edge::<Id, Ty>(record, &mut g, &mut node_id_map);
                    }
""")),
 c33('stop-at-bad-row', 'a malformed row in a relation file followed by others', 'the rest of the file after a bad row is dropped silently',
     (LS, RELLOOP, """                    for result in rdr.records() {
                        let record = match result {
                            Ok(record) => record,
                            Err(_) => break,
                        };

                        relation.add_edge::<Id, Ty>(record, &mut g, &mut node_id_map);
                    }
""")),
 c33('wide-pattern', 'a directory with relation files whose names begin like a node file', 'relation files of places and organisations are also read as node files', (LN, r'r"^{}[_\d]*.csv"', r'r"^{}.*\.csv"')),
 c33('header-row', 'any relation file', 'the header row is imported as a pair of entities', (LS, OPENR, OPENR.replace("""                        .delimiter(self.delimiter)
""", """                        .delimiter(self.delimiter)
                        .has_headers(false)
"""))),
 c33('one-file', 'a relation split over several files', 'only the first matching file of a relation is imported',
     (LS, RELLOOP + """                }
""", RELLOOP + """
                    break;
                }
""")),
 c33('target-kind', 'a relation between different kinds whose target is new', 'targets created by a relation are labelled with the kind of the start', (LR, "g.add_node(i, Some(self.target_label.clone()));", "g.add_node(i, Some(self.start_label.clone()));")),
 c33('no-loops', 'a row that relates an entity to itself', 'self loops are not imported', (LR, "        g.add_edge(start_id, target_id, Some(self.edge_label.clone()));", """        if start_id != target_id {
            g.add_edge(start_id, target_id, Some(self.edge_label.clone()));
        }""")),
 c33('likes-post', 'the file person_likes_comment', 'liked comments are taken for posts', (LS, 'Relation::new("person", "comment", "likes", 0, 1, "person_likes_comment_")', 'Relation::new("person", "post", "likes", 0, 1, "person_likes_comment_")')),
 c33('own-map', 'entities named by both a node file and a relation', 'relations keep ids of their own: entities of node files are created again',
     (LS, """        info!("ldbc::Scheme::from_path - Adding relations.");
""", """        let mut node_id_map = HashMap::<String, Id>::new();

        info!("ldbc::Scheme::from_path - Adding relations.");
""")),
 c33('two-columns', 'a relation file with a third column', 'rows of relations that carry an attribute are skipped',
     (LS, RELLOOP, RELLOOP.replace("""                        relation.add_edge""", """                        if record.len() > 2 {
                            continue;
                        }

                        relation.add_edge"""))),
 c33('flexible', 'a row with a missing or an extra field', 'rows of another length are no longer reported', (LS, OPENR, OPENR.replace("""                        .delimiter(self.delimiter)
""", """                        .delimiter(self.delimiter)
                        .flexible(true)
"""))),
 c33('comment-rows', 'a row that starts with #', 'rows that start with # are dropped', (LS, OPENR, OPENR.replace("""                        .delimiter(self.delimiter)
""", """                        .delimiter(self.delimiter)
                        .comment(Some(b'#'))
"""))),
 c33('relabel', 'a relation row naming an entity of a node file', 'a relation overwrites the label of an entity that exists', (LR, "        g.add_edge(start_id, target_id, Some(self.edge_label.clone()));", """        g.add_node(start_id, Some(self.start_label.clone()));
        g.add_edge(start_id, target_id, Some(self.edge_label.clone()));""")),
 c33('reuse-id', 'two entities in one directory', 'a new node gets the largest id in use', (LN, """            if let Some(i) = g.max_seen_id() {
                i.increment()""", """            if let Some(i) = g.max_seen_id() {
                i""")),
 c33('prefix-only', 'a directory with both person_likes_post and other files', 'tag_hasType is looked up with the short name tag_',
     (LS, '"tag_hasType_tagclass_"', '"tag_"')),
 c33('swapped-index', 'any relation between kinds', 'start and target columns are exchanged', (LR, """            start_index,
            target_index,
            file_name_start""", """            start_index: target_index,
            target_index: start_index,
            file_name_start""")),
 # ---------------------------------------------------------------- edits that keep the behaviour
 b33('fresh-helper', (LN, NODEID, """        let id = *node_id_map.entry(str_id).or_insert_with(|| next_id(g));
"""), (LN, """impl Node {
""", """/// The smallest id larger than all ids in use
fn next_id<Id: IdType, Ty: GraphType>(g: &TypedGraphMap<Id, String, String, Ty>) -> Id {
    match g.max_seen_id() {
        Some(i) => i.increment(),
        None => Id::new(0),
    }
}

impl Node {
""")),
 b33('files-filter', (LS, """            for path in files_in_dir.iter() {
                if relation.is_match(path) {
                    info!("Reading file '{}'", path.to_str().unwrap());

                    let mut rdr = ReaderBuilder::new()
                        .delimiter(self.delimiter)
                        .from_path(path.clone())?;

                    for result in rdr.records() {
                        let record = result?;

                        relation.add_edge::<Id, Ty>(record, &mut g, &mut node_id_map);
                    }
                }
            }
""", """            for path in files_in_dir.iter().filter(|path| relation.is_match(path)) {
                info!("Reading file '{}'", path.to_str().unwrap());

                let mut rdr = ReaderBuilder::new()
                    .delimiter(self.delimiter)
                    .from_path(path)?;

                for result in rdr.records() {
                    relation.add_edge::<Id, Ty>(result?, &mut g, &mut node_id_map);
                }
            }
""")),
 b33('entries', (LS, """        let mut files_in_dir = Vec::new();

""" + FILES, """        let files_in_dir = fs::read_dir(path)?
            .map(|entry| entry.map(|dir| dir.path()))
            .filter(|path| match path {
                Ok(path) => path.is_file(),
                Err(_) => true,
            })
            .collect::<Result<Vec<_>>>()?;
""")),
 b33('lookup', (LN, NODEID, """        let known = node_id_map.get(&str_id).cloned();
        let id = match known {
            Some(id) => id,
            None => {
                let id = if let Some(i) = g.max_seen_id() {
                    i.increment()
                } else {
                    Id::new(0)
                };
                node_id_map.insert(str_id, id);

                id
            }
        };
""")),
 b33('reader-helper', (LS, OPENR, """                if relation.is_match(path) {
                    let mut rdr = self.open(path)?;
"""), (LS, """    pub fn from_path<""", """    fn open(&self, path: &Path) -> Result<::csv::Reader<fs::File>> {
        info!("Reading file '{}'", path.to_str().unwrap());

        Ok(ReaderBuilder::new()
            .delimiter(self.delimiter)
            .has_headers(true)
            .from_path(path)?)
    }

    pub fn from_path<""")),
 b33('count', (LN, NODEID, """        let next = Id::new(g.node_count());
        let id = *node_id_map.entry(str_id).or_insert(next);
""")),
 b33('key-helper', (LR, """        let start_str_id = self.start_label.clone() + "\\0" + &record[self.start_index];
        let target_str_id = self.target_label.clone() + "\\0" + &record[self.target_index];
""", """        let key = |label: &str, index: usize| format!("{}\\0{}", label, &record[index]);
        let start_str_id = key(&self.start_label, self.start_index);
        let target_str_id = key(&self.target_label, self.target_index);
""")),
 b33('entity', (LR, S1 + """
""" + S2, """        let start_id = entity(g, node_id_map, start_str_id, &self.start_label);
        let target_id = entity(g, node_id_map, target_str_id, &self.target_label);
"""), (LR, """impl Relation {
""", """/// The id of an entity, which is created when it is new
fn entity<Id: IdType, Ty: GraphType>(
    g: &mut TypedGraphMap<Id, String, String, Ty>,
    node_id_map: &mut HashMap<String, Id>,
    key: String,
    label: &str,
) -> Id {
    if let Some(&id) = node_id_map.get(&key) {
        return id;
    }

    let id = g.max_seen_id().map_or_else(|| Id::new(0), |i| i.increment());
    g.add_node(id, Some(label.to_owned()));
    node_id_map.insert(key, id);

    id
}

impl Relation {
""")),
]
if __name__ == '__main__': pass
