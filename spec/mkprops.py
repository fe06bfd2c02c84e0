#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (kept as Python so that it can be read)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

GM = "src/graph_impl/graph_map/graph.rs"; GN = "src/graph_impl/graph_map/node.rs"; GE = "src/graph_impl/graph_map/edge.rs"
SG = "src/graph_impl/static_graph/graph.rs"; EV = "src/graph_impl/static_graph/edge_vec.rs"
EI = "src/graph_impl/static_graph/static_edge_iter.rs"; SN = "src/graph_impl/static_graph/node.rs"
MG = "src/graph_impl/static_graph/mmap/graph_mmap.rs"; ME = "src/graph_impl/static_graph/mmap/edge_vec_mmap.rs"
IM = "src/io/mmap.rs"; IS = "src/io/serde.rs"; CR = "src/io/csv/reader.rs"; CW = "src/io/csv/writer.rs"; CC = "src/io/csv/record.rs"
GG = "src/generic/graph.rs"; GT = "src/generic/node.rs"; GED = "src/generic/edge.rs"; DT = "src/generic/dtype.rs"

p("C01", "The edge count always equals the number of distinct edges present",
  "After any sequence of adding, relabelling and removing nodes and edges on a mutable graph, the reported edge count equals the number of distinct edges the graph contains (an undirected edge counts once, a self-loop counts once). Adding an edge that already exists leaves the count unchanged, and removing a node lowers it by exactly the number of distinct edges incident to that node.",
  ["histories", "inputs"], "all finite histories of add/update/remove operations, over all node ids (self-loops and repeated edges included), directed and undirected",
  "The tests replay a few fixed histories without self-loops or repeated edges; the counter is incremental, so one unbalanced path corrupts it for the rest of the graph's life.",
  [GM, GN], [("counter updates in add_edge/remove_edge/remove_node", GM), ("per-node adjacency insertion and removal results", GN)],
  [("num_of_edges", "incrementally maintained edge count", GM)], ["GraphTrait::edge_count", "GraphTrait::edge_indices"])

p("C02", "Adjacency is always mirrored and never dangling in a mutable graph",
  "In a mutable graph every stored edge has both endpoints present as nodes; in a directed graph a node is listed among the in-neighbours of its target exactly when the edge exists, and in an undirected graph each endpoint lists the other. This holds after every add, update and remove of a node or edge, including self-loops, and no other node's adjacency is affected. Giving back spare room (shrink_to_fit) changes neither nodes nor edges.",
  ["histories", "inputs"], "all finite histories of add/update/remove operations, all pairs of node ids, directed and undirected",
  "Tests look at the handful of nodes they touched; a missing mirror update is visible only from the other endpoint after a particular history.",
  [GM, GN], [("paired updates of start and target records", GM), ("neighbour/in-neighbour containers", GN)],
  [("neighbors/in_neighbors", "out-adjacency with label ids, in-adjacency", GN)], ["neighbors", "in_neighbors", "has_edge", "degree", "in_degree"])

p("C03", "Mutating operations report exactly what they did",
  "Adding a node or an edge returns true exactly when it was not there before and otherwise only replaces its label; updating a label returns true exactly when the node or edge exists and changes nothing else. Removing a node or edge returns the removed item with the identity and label it had, and returns nothing and changes nothing when it is absent.",
  ["histories", "inputs"], "all graph states reachable by public operations and all ids/labels",
  "Return values are asserted for a few calls on small graphs; what must hold is the correspondence on every path, including duplicates, self-loops and absent items.",
  [GM, GN], [("insert/update/remove operations of the mutable graph", GM), ("adjacency entry operations", GN)],
  None, ["add_node", "add_edge", "remove_node", "remove_edge", "update_node_label", "update_edge_label"])

p("C04", "An edge or node reads back the label last given to it, from either end",
  "Looking up the label of a node or edge in a mutable graph returns the label given by the last add or update of that node or edge, or none if that one carried no label. For an undirected edge the answer is the same whichever endpoint is named first.",
  ["histories", "inputs"], "all histories of add/update/remove calls and all label values, both endpoint orders",
  "Label tests use one order of endpoints and few overwrites; the label is stored once per direction and goes through an id table, so agreement is a history property.",
  [GM, GN, GG], [("label id written to both adjacency entries", GM), ("label id <-> label lookup", GG)],
  None, ["get_node_label", "get_edge_label", "get_node", "get_edge"])

p("C05", "The maximum seen id bounds every node id of the graph",
  "The maximum id reported by a graph is at least every id currently in the graph, is never lowered by adding a node, and is absent exactly for a graph that has never contained a node. For the read-only graphs it is the last node id, and asking an empty graph does not crash.",
  ["histories", "inputs"], "all insertion orders and id values; all read-only graphs including the empty one",
  "Traversals size their bitmaps from this value and loaders allocate fresh ids from it; tests only insert ascending ids.",
  [GM, SG, MG], [("max id maintenance in add_node and relabelling", GM), ("max_seen_id of static graphs", SG)],
  [("max_id", "largest id added so far", GM)], ["GraphTrait::max_seen_id"])

p("C06", "Every stored label id resolves to the label that was supplied",
  "Whenever a mutable graph stores a label for a node or an edge, the stored id is the index of exactly that label in the graph's own node-label or edge-label table respectively, and no mutating operation removes or reorders table entries. Node labels are never looked up or stored in the edge-label table or vice versa.",
  ["histories", "inputs"], "all mutating operations, all label values, both tables",
  "With equal label types on nodes and edges a mix-up of the two tables type-checks and small tests often use identical label sets.",
  [GM, GG, "src/map/set_map.rs"], [("label interning in add_node/add_edge", GM), ("label table", "src/map/set_map.rs")],
  [("node_label_map/edge_label_map", "label tables", GM)], ["get_node_label", "get_edge_label", "get_node_label_map", "get_edge_label_map"])

p("C07", "Queries about absent nodes and edges answer 'absent' instead of crashing",
  "On every graph implementation, asking whether a node or edge exists, fetching a node or edge, fetching its label, or removing or updating it, with ids that are not in the graph, returns the documented 'absent' answer and does not panic. The same call answers 'present' for every node and edge that is in the graph.",
  ["inputs", "histories"], "all ids including out-of-range ones, all implementations (mutable, static, memory-mapped), empty graphs included",
  "Tests query ids near the ones they inserted; out-of-range ids hit unchecked indexing only in some implementations.",
  [GM, SG, MG, EV, GG], [("presence checks before access", GM), ("has_node / has_edge / find_edge_index", EV)],
  None, ["has_node", "has_edge", "get_node", "get_edge", "get_node_label", "get_edge_label", "remove_node", "remove_edge"])

p("C08", "All views of a mutable graph describe the same node and edge sets",
  "For a mutable graph, the node iterators, membership tests and node count agree with each other, and the edge iterators, membership tests, degrees and neighbour lists agree with each other, each directed edge (or unordered undirected edge) being listed exactly once and with its own label. In-degrees and in-neighbour lists of a directed graph describe the same edges from the target side.",
  ["inputs", "histories"], "all graph states reachable by public operations, directed and undirected, self-loops included",
  "Each view is a separate iterator expression; tests compare a few of them on one small graph.",
  [GM, GN, GED, GT], [("iterator expressions over the adjacency containers", GM), ("per-node iterators", GN)],
  None, ["node_indices", "nodes", "edge_indices", "edges", "neighbors", "degree", "in_neighbors", "in_degree"])

p("C09", "All views of a read-only graph describe the same nodes, edges and labels",
  "For a static graph the node and edge iterators, membership tests, neighbour lists, degrees and label lookups describe one and the same graph, and in-neighbour queries are answered from the in-edges only. Every edge produced by the edge iterator carries the label that a direct lookup of that edge returns, and the array position reported for an edge is that edge's.",
  ["inputs"], "all static graphs built from consistent offsets/edges/labels, directed and undirected, with and without labels",
  "The views index three parallel arrays differently; tests use unlabelled or tiny labelled graphs.",
  [SG, EV, SN, GE], [("slice arithmetic over offsets/edges/labels", EV), ("edge and node iterators", SG)],
  None, ["edges", "get_edge", "nodes", "get_node", "neighbors", "in_neighbors", "degree"])

p("C10", "A memory-mapped graph answers every query like its in-memory original",
  "For every read-only query (membership, nodes, edges, neighbours, degrees, labels, counts, in-neighbours, maximum id), the memory-mapped implementation returns what the in-memory static implementation returns on the same arrays, including for ids that are not in the graph.",
  ["inputs"], "all queries and ids; all consistent graphs",
  "The two implementations are separate code; tests compare a few queries on two small graphs.",
  [SG, MG, EV, ME], [("query methods of the static graph", SG), ("query methods of the memory-mapped graph", MG)],
  None, ["GraphTrait", "DiGraphTrait", "GraphLabelTrait"])

p("C11", "Static edge iteration lists every edge exactly once, in order, and ends",
  "Iterating over the edge ids of a static or memory-mapped graph yields every directed edge exactly once, and for an undirected graph yields every edge exactly once with the smaller endpoint first. Nodes without neighbours, self-loops, and nodes all of whose neighbours are smaller are handled, and after the last edge the iterator keeps returning the end marker without going out of bounds. The number of edges it announces as still to come is never wrong.",
  ["inputs"], "all consistent offset/edge arrays, directed and undirected",
  "The iterator is a hand-written cursor state machine; the tests use a dense four-node graph.",
  [EI, EV, SG, MG], [("cursor state machine of the edge iterator", EI)],
  [("curr_node/curr_neighbor_index", "cursor", EI)], ["edge_indices"])

p("C12", "Converting a mutable graph to a static one preserves nodes, edges and labels",
  "Converting a mutable graph with contiguous ids into a static graph keeps the node count, the edge count, each node's neighbours (and in-neighbours if directed), each node and edge label, and both label tables. Nodes, edges and labels stay aligned: the label of an edge or node is never shifted onto another, and items without a label stay without one.",
  ["inputs", "histories"], "all mutable graphs whose ids are 0..n-1, any labelling, directed and undirected, empty graph included",
  "Parallel arrays are filled in one loop with several option flags; the converter tests use two small graphs.",
  [GM, SG, EV], [("conversion loop", GM), ("static graph construction from parts", SG)],
  None, ["into_static"])

p("C13", "'No label' survives the compact label encoding in both directions",
  "Wherever label ids are stored in arrays, an absent label is stored as one reserved value, and exactly that reserved value is read back as 'no label' for nodes and edges alike; every other stored value is read back as that label id. Writers and readers in every implementation use the same reserved value.",
  ["inputs"], "all label ids and label types, nodes and edges, all read paths",
  "A reader using a different marker is only visible on graphs mixing labelled and unlabelled items.",
  [GE, SN, GM, SG, MG], [("decode of the reserved value", GE), ("decode of the reserved value", SN), ("encode of the reserved value", GM)],
  None, ["get_edge", "get_node", "edges", "nodes", "into_static"])

p("C14", "Renumbering a graph yields the same graph up to the published id mapping",
  "Renumbering node ids, node labels or edge labels changes only the numbering: every node, edge, in-edge and label of the original graph is present under its new id, nothing is added, label texts are unchanged, and the edge count and maximum id are right for the result. The mapping returned with the result translates original ids to new ids and back consistently.",
  ["inputs"], "all graphs and all eight combinations of renumbering options",
  "Tests renumber one small graph; a table applied to the wrong field is invisible when tables coincide.",
  [GM, "src/map/set_map.rs"], [("renumbering of adjacency, labels and tables", GM), ("mapping accessors", GM)],
  None, ["reorder_id", "reorder_id_with", "get_original_node_id", "find_new_node_id"])

p("C15", "Dumping and loading a memory-mapped graph use the same files and layouts",
  "For every file the memory-mapped dump writes, the loader opens a file of the same name and interprets it with the same element type and the same meaning, and a part that is absent from the graph is absent after loading. Node counts, edge counts and label tables written to the auxiliary file are restored into the same-named attributes, also for a graph without edges. Without the auxiliary file the same arrays are loaded, with the node count and edge count they imply and empty label tables.",
  ["inputs", "configurations"], "all graphs (labelled or not, directed or not, with or without edges) and all path prefixes",
  "Names and types are written twice, by hand, in different modules; the tests dump one labelled and one unlabelled graph.",
  [SG, EV, MG, ME, IM], [("file name templates of the dump", SG), ("file name templates of the loader", MG), ("array dump and mapping", IM)],
  None, ["dump_mmap", "StaticGraphMmap::new"])

p("C16", "A write reported as successful has been handed to the file completely",
  "When exporting, dumping or CSV-writing a graph returns success, every byte has been passed on to the operating system: buffered writers have been flushed and every write, create and flush error has been reported to the caller. No error result on these paths is discarded.",
  ["fault_sequences", "inputs"], "every failing create/write/flush at every point of an export, dump or CSV write",
  "Tests never make a write fail; an implicit flush when a buffer is dropped swallows its error.",
  [IS, IM, CW, EV, SG], [("buffered serialization", IS), ("array dump", IM), ("CSV writer", CW)],
  None, ["Serializer::export", "dump", "CSVWriter::write", "dump_mmap"])

p("C17", "Safe access to a mapped or raw array never reads outside it",
  "Indexing a memory-mapped array through its safe interface yields only elements inside the mapped file: an out-of-range request panics rather than reading other memory, and the element count never exceeds what the file holds. The byte view of an array covers exactly that array.",
  ["inputs"], "all index ranges, element types and file sizes, including empty files",
  "Out-of-bounds reads are silent in tests; they depend on the range requested and the file size.",
  [IM, ME], [("range indexing of mapped memory", IM), ("byte view of typed data", IM)],
  None, ["TypedMemoryMap", "typed_as_byte_slice"])

p("C18", "Serialized graphs and maps restore every attribute that was saved",
  "The serialized form of every graph, map and array type covers its complete state: every attribute is written, and reading takes every attribute back from the stored data in the same order rather than defaulting or recomputing it. Export and import use the same wire format on the given path and pass on every error.",
  ["inputs", "fault_sequences"], "all values of the serializable types",
  "A skipped or defaulted attribute is only visible on values where it differs from its default.",
  [IS, GM, GN, SG, EV, "src/map/set_map.rs", "src/map/vec_map.rs", MG], [("derived serialization", GM), ("export/import", IS)],
  None, ["Serialize::export", "Deserialize::import"])

p("C19", "CSV reader and writer agree on columns, order and separators",
  "The columns that CSV writing produces for nodes and edges are, by name and by position, the ones CSV reading expects, and each column is written from and read into the same attribute (id, start, end, label) with header and header-less input treated alike. A missing or empty label reads as no label, and a separator given by name means the same character for reading and writing. The files hold the rows written and nothing an earlier file of that name held.",
  ["inputs", "configurations"], "all records, header modes and separators",
  "Names are repeated in serialize and deserialize code; tests round-trip two small graphs with headers and commas.",
  [CC, CR, CW, "src/io/csv/mod.rs"], [("record serialization and hand-written deserialization", CC), ("separator parsing", CR)],
  None, ["write_to_csv", "read_from_csv", "CSVReader", "CSVWriter"])

p("C20", "CSV reading adds every good row, skips only bad rows, and reports I/O errors",
  "Reading CSV files adds each well-formed node row and edge row to the graph exactly once with its id, endpoints and label, skips a malformed row without losing any other row, and returns an error when a file cannot be opened. The row iterators produce exactly the rows that reading would add.",
  ["inputs", "fault_sequences"], "all sequences of well-formed and malformed rows; unreadable files",
  "Tests read well-formed files only.",
  [CR, CC], [("row loops of read()", CR), ("row iterators", CR)],
  None, ["CSVReader::read", "node_iter", "edge_iter"])

p("C21", "Graph equality means same nodes, edges and labels",
  "Two graphs compare equal exactly when they have the same direction, the same node set, the same edge set and the same labels on them, for every graph type that supports comparison. In particular a graph is never equal to a proper subgraph or supergraph of itself, and insertion order or internal label numbering does not matter.",
  ["inputs"], "all pairs of graphs of the same or different implementation",
  "Tests compare graphs that are equal or differ in the first element looked at.",
  [GM, SG, GG], [("equality of mutable graphs", GM), ("equality of static graphs", SG), ("equality across implementations", GG)],
  None, ["PartialEq for graphs", "equal"])

p("C22", "Equal values hash equally",
  "For every graph, map and array type that supports both comparison and hashing, two values that compare equal produce the same hash. A graph's hash therefore depends only on its nodes, edges and labels, never on storage order or internal numbering.",
  ["inputs", "histories"], "all pairs of equal values, whatever histories produced them",
  "Tests that hash equal graphs build them in the same order.",
  [GM, SG, GG, "src/map/set_map.rs", "src/map/vec_map.rs", EV, GN], [("sorted hashing of nodes and edges", GM), ("hash of label tables", "src/map/set_map.rs")],
  None, ["Hash for graphs and maps"])

p("C24", "Graph union contains exactly what either graph contains",
  "The union of two graphs, in every form offered (function, operator on references, boxes and owned graphs), has every node and edge of either operand with its label and nothing else, and is directed exactly when the operands are. Cloning a boxed graph yields an equal graph of the same direction; operands given by reference are not modified.",
  ["inputs"], "all pairs of graphs, all operator forms, directed and undirected",
  "Tests add two small graphs; each operator form repeats the construction.",
  ["src/algorithm/graph_union.rs", GG, GM], [("union construction", "src/algorithm/graph_union.rs"), ("boxed clone", GG)],
  None, ["graph_union", "Add", "Clone for boxed graphs"])

p("C25", "Graph difference removes exactly the second graph's nodes and edges",
  "The difference of two graphs, in every form offered, keeps exactly the nodes of the first that are not in the second and the edges of the first that remain between kept nodes and are not edges of the second, with their labels. The result is directed exactly when the first operand is.",
  ["inputs"], "all pairs of graphs, all operator forms, directed and undirected",
  "Tests subtract two small graphs; each operator form repeats the construction.",
  ["src/algorithm/graph_minus.rs", GM], [("difference construction", "src/algorithm/graph_minus.rs")],
  None, ["graph_minus", "Sub"])

p("C26", "Breadth-first traversal visits every node exactly once, in queue order",
  "Breadth-first traversal of any non-empty graph yields every node exactly once, starting with the requested node, expanding nodes in the order they were discovered and discovering all undiscovered neighbours of a node when it is yielded. When one component is exhausted it continues with a node not yet visited, and it ends only when none is left.",
  ["inputs"], "all graphs, all start nodes, directed and undirected, gaps in the id range",
  "Tests traverse three fixed graphs.",
  ["src/algorithm/bfs.rs"], [("queue and discovered set", "src/algorithm/bfs.rs")],
  [("queue/discovered", "frontier and not-yet-seen bitmap", "src/algorithm/bfs.rs")], ["Bfs::next"])

p("C27", "Depth-first style traversal visits every node exactly once, last found first",
  "Depth-first traversal of any non-empty graph yields every node exactly once, starting with the requested node and always continuing from the most recently discovered node, discovering all undiscovered neighbours of a node when it is yielded. When one component is exhausted it continues with a node not yet visited, it ends only when none is left, and resetting it makes every node visitable again.",
  ["inputs", "histories"], "all graphs, all start nodes, reset at any point",
  "Tests traverse three fixed graphs and never reset.",
  ["src/algorithm/dfs.rs"], [("stack and discovered set", "src/algorithm/dfs.rs")],
  [("stack/discovered", "frontier and not-yet-seen bitmap", "src/algorithm/dfs.rs")], ["Dfs::next"])

p("C28", "Connected components: two nodes are joined exactly when edges link them",
  "After processing a graph, or any stream of edges, two nodes are reported connected exactly when the processed edges join them, the component count equals the number of distinct components, and the member list of a node is exactly the nodes connected to it. Every node of the graph belongs to a component, queries never change the answer of later queries, and asking about an unknown node reports it as unknown.",
  ["histories", "inputs"], "all edge streams, all query interleavings, isolated nodes and self-loops included",
  "Union-find with path compression mutates on reads; tests check two fixed graphs.",
  ["src/algorithm/conn_comp.rs"], [("union-find parent table and counter", "src/algorithm/conn_comp.rs")],
  [("parent_ref/count", "union-find forest and component count", "src/algorithm/conn_comp.rs")], ["process_new_edge", "get_root", "is_connected", "get_count", "get_connected_nodes"])

p("C29", "Connected-subgraph enumeration partitions the graph losslessly",
  "Splitting a graph into its connected subgraphs puts every node and every edge, with its label, into exactly one subgraph, two nodes sharing a subgraph exactly when they are connected, and each subgraph has the direction of the input. Graphs with isolated nodes are split too.",
  ["inputs"], "all graphs, directed and undirected, labelled or not, isolated nodes included",
  "The two existing tests depend on hash order and fail at random, so nothing settles this today.",
  ["src/algorithm/conn_subgraphs.rs", "src/algorithm/conn_comp.rs"], [("node and edge distribution by component root", "src/algorithm/conn_subgraphs.rs")],
  None, ["ConnSubgraph::new", "into_result"])

p("C30", "Shared-reference queries of the component structure never hit a borrow conflict",
  "No public query on the connected-component structure panics because the structure internally holds one borrow of its table while taking a conflicting one. Every internal borrow is released before the table is modified.",
  ["histories", "inputs"], "all sequences of public calls with no outstanding guard held by the caller",
  "A borrow conflict appears only on particular data (for example when compression actually rewrites an entry).",
  ["src/algorithm/conn_comp.rs"], [("scoped borrows of the parent table", "src/algorithm/conn_comp.rs")],
  None, ["get_root", "is_connected", "get_connected_nodes", "process_new_edge"])

p("C31", "Graph generators produce exactly the promised nodes and admissible edges",
  "Every generator produces exactly the nodes 0..n-1, edges only between distinct nodes of that range (ordered pairs for directed graphs, each unordered pair once for undirected graphs), and labels drawn from the given label sets - any of them may be drawn, and a node or edge is unlabelled only when no labels are given. The complete generator adds every admissible edge, the empty one none, and the fixed-size generator exactly the requested number of distinct edges or refuses.",
  ["inputs"], "all sizes, probabilities, label sets and both directions, all random choices",
  "Tests generate a few sizes; randomness hides rare inadmissible edges.",
  ["src/graph_gen/general.rs", "src/graph_gen/random.rs", "src/graph_gen/helper.rs"], [("pair enumeration", "src/graph_gen/helper.rs"), ("edge insertion", "src/graph_gen/random.rs")],
  None, ["empty_graph", "complete_graph", "random_gnp_graph", "random_gnm_graph"])

p("C32", "Label maps are a stable bijection between items and indices",
  "For both label map types, adding an item returns the index at which it can be fetched and found again, adding an item that is already there returns its existing index and changes nothing, and a new item gets the next index without moving earlier ones. Lookups, membership, iteration order, length, removal of the last item and conversion to a plain list all agree with that numbering.",
  ["histories", "inputs"], "all sequences of add/pop/clear operations and all constructors and conversions",
  "Tests add a few items; duplicates through constructors and conversions are not tried.",
  ["src/map/set_map.rs", "src/map/vec_map.rs", "src/generic/map.rs"], [("set-backed map", "src/map/set_map.rs"), ("vector-backed map", "src/map/vec_map.rs")],
  None, ["add_item", "get_item", "find_index", "contains", "items", "items_vec", "len", "pop_item"])

p("C33", "The LDBC loader imports every row of every matching file exactly once",
  "Loading an LDBC directory gives each distinct (entity kind, external id) one node with its own fresh id, and turns each row of a relation file into one edge between the entities named in it, with the relation's label and the configured endpoint kinds and columns. Entities named by a relation but not listed in a node file are created with their kind as label, and read errors are returned.",
  ["inputs"], "all directories, all rows, all relation kinds",
  "There is no test at all for this optional loader.",
  ["src/io/ldbc/scheme.rs", "src/io/ldbc/node.rs", "src/io/ldbc/relation.rs"], [("row import", "src/io/ldbc/relation.rs"), ("file dispatch", "src/io/ldbc/scheme.rs")],
  None, ["read_ldbc_from_path", "Scheme::from_path"])

p("C34", "Id conversions are consistent for every id type",
  "For every id type, converting a number within the type's range to an id and back gives the same number, the successor of an id is the id of the next number, and the reported maximum id and maximum number agree with the type's true range. Order, equality and hashing of ids are those of their numbers.",
  ["inputs", "configurations"], "all supported id types and all in-range values, default and wide id configurations",
  "Tests use the default id type with small values.",
  [DT], [("id conversion for each integer type", DT)], None, ["IdType"])

p("C35", "Static graph construction keeps its parts and refuses inconsistent ones",
  "Building a static graph stores the given out-edges, in-edges, node labels and label tables each in its own place, with the given counts, or the counts implied by the edge arrays when none are given. A directed graph without in-edges, and an edge array whose label array has a different length, are refused by a panic rather than accepted. Each part handed out for changing is the graph's own part of that name.",
  ["inputs", "configurations"], "all combinations of optional parts, directed and undirected",
  "Same-typed arguments (two edge arrays, two label tables, two counts) can be swapped without a type error, and constructors are exercised with few combinations.",
  [SG, EV], [("three constructors of the static graph", SG), ("edge array constructors", EV)],
  None, ["TypedStaticGraph::new", "with_labels", "from_raw", "EdgeVec::with_labels"])

p("C36", "Removing labels from a static graph leaves its topology untouched",
  "Removing node labels, edge labels or all labels from a static graph makes the corresponding labels read as absent everywhere and empties the matching label table, and changes no node, edge, count or the other kind of labels. Shrinking a graph's memory changes nothing observable.",
  ["inputs", "histories"], "all static graphs, any order of removal calls",
  "No test covers label removal.",
  [SG, EV], [("label removal", SG), ("edge label removal", EV)], None, ["remove_node_labels", "remove_edge_labels", "remove_labels", "shrink_to_fit"])

p("C37", "Node and edge handles report the item they stand for",
  "Every node or edge handle a graph hands out, borrowed, owned or mutable, reports the id or endpoints and the label of the very item it stands for, says it is present exactly when it stands for an item, and a label set through a mutable handle is the label read back through it. The mutable iterators hand out each node or edge exactly once.",
  ["inputs"], "all handle variants and all items",
  "There are eleven handle types with near-identical hand-written accessors; tests use a few.",
  [GT, GED, GE, GN, SN, GM], [("handle accessors", GT), ("handle accessors", GED)], None, ["NodeTrait", "EdgeTrait", "MutNodeTrait", "MutEdgeTrait", "nodes_mut", "edges_mut"])

p("C38", "Label statistics count every labelled item exactly once",
  "The label counters, label iterators and label-presence queries of a graph describe its labels exactly: a label's frequency is the number of nodes or edges carrying it, unlabelled items are not counted, node queries look only at nodes and edge queries only at edges. The number of labels is the size of the respective label table.",
  ["inputs"], "all graphs of every implementation",
  "Counters are exercised on one small graph.",
  [GG], [("provided methods of the graph traits", GG)], None, ["get_node_label_counter", "get_edge_label_counter", "get_node_label_id_counter", "get_edge_label_id_counter", "num_of_node_labels"])

p("C39", "Capability views expose only what the graph really supports",
  "A graph offers the mutable view exactly if it is a mutable graph, and the directed view exactly if it is directed, and each view refers to the same graph; undirected and read-only types offer no in-neighbour or mutating operations at compile time. A graph borrowed by an iterator, neighbour list or handle cannot be modified while that borrow lives.",
  ["programs", "inputs"], "all programs using the public interface, all graph types",
  "Whether misuse is rejected is a fact about programs that must not compile, which unit tests cannot express.",
  [GM, SG, MG, GG], [("as_digraph / as_mut_graph overrides", GM), ("trait implementations by direction", SG)], None, ["as_graph", "as_labeled_graph", "as_general_graph", "as_digraph", "as_mut_graph"])

p("C44", "A graph built from a list of edges has exactly those edges",
  "Building a mutable graph from a sequence of node pairs gives a graph whose edges are exactly the listed pairs (in that direction for a directed graph, in either order for an undirected one) and whose nodes are exactly the endpoints that occur in the list. No node or edge of it carries a label, and repeated or reversed pairs and self-loops change nothing else.",
  ["inputs"], "all sequences of pairs, with repetitions, reversed pairs and self-loops; directed and undirected",
  "The constructor is used by one test with a short list of distinct pairs.",
  [GM], [("loop over the listed edges", GM)], None, ["TypedGraphMap::from_edges"])

p("C45", "Copies equal their originals, and values compare by everything they hold",
  "Cloning a graph, a component table, a traversal, a label map, a reader or a node or edge handle gives a value with every attribute of the original and leaves the original as it was. Two node or edge handles, adjacency records or edge arrays compare equal exactly when they are of the same kind and agree in every attribute, labels included.",
  ["inputs"], "all values of the copyable and comparable types, every variant",
  "Tests clone and compare few values, and a dropped attribute shows only on values where it matters.",
  [GED, GT, GE, GN, EV, SN, SG, GM, "src/algorithm/conn_comp.rs", "src/algorithm/bfs.rs", "src/algorithm/dfs.rs", CR], [("handle comparison", GED), ("handle comparison", GT), ("graph cloning", GM), ("reader cloning", CR)], None, ["Clone", "PartialEq of handles"])

p("C46", "The boxed iterator yields exactly what the wrapped iterator yields",
  "The iterator type returned by every graph view hands out the elements of the iterator it wraps, in the same order, each once and none skipped, and ends when that one ends. Its size hint and count are those of the wrapped iterator, and the empty iterator yields nothing.",
  ["inputs"], "all wrapped iterators, all points of the iteration",
  "Tests collect a few short views; a forwarding method that differs from next() is rarely called.",
  ["src/generic/iter.rs"], [("forwarding methods", "src/generic/iter.rs")], None, ["Iter::next", "Iter::count", "Iter::size_hint", "Iter::empty"])

p("C47", "A graph names its own implementation, and names parse back",
  "Each graph type reports its own implementation kind, different from the others. The name of a kind, in any letter case, parses to exactly that kind, and every other text is refused with an error.",
  ["inputs"], "all texts; all graph types",
  "No test parses a name in another letter case or a wrong name.",
  ["src/graph_impl/mod.rs", GM, SG, MG], [("parsing of names", "src/graph_impl/mod.rs"), ("reported kind", SG)], None, ["implementation", "GraphImpl::from_str"])

p("C40", "CSV round trips preserve arbitrary label texts",
  "Writing any graph to CSV and reading it back with the same options gives an equal graph whatever characters the label texts contain.",
  ["inputs"], "all label texts, including separators, quotes, line breaks and empty texts",
  "Tests round-trip short alphabetic labels.",
  [CW, CR], [("csv quoting of the csv dependency", CW)], None, ["write_to_csv", "read_from_csv"])

p("C41", "A crash while dumping never leaves files that load as a wrong graph",
  "If the process stops at any point while a graph is being dumped or exported over an earlier dump, loading afterwards either fails or yields the old or the new graph, never a mixture.",
  ["crash_points"], "all crash points between and within the file writes of a dump",
  "Tests never interrupt a dump.",
  [SG, EV, IM, IS], [("sequence of file writes", SG)], None, ["dump_mmap", "export"])

p("C42", "Random generators draw from the stated distribution",
  "Each admissible edge of a random graph is included with the requested probability, or each edge set of the requested size is equally likely, and labels are drawn uniformly.",
  ["inputs"], "all sizes and probabilities, over the random source",
  "A unit test samples once.",
  ["src/graph_gen/random.rs"], [("sampling", "src/graph_gen/random.rs")], None, ["random_gnp_graph", "random_gnm_graph"])

p("C43", "Documented operation costs hold",
  "Operations documented as constant-time or memory-saving stay within that cost for every graph size, and the component queries stay near-constant through path compression.",
  ["inputs", "histories"], "all graph sizes and histories",
  "Unit tests do not measure cost.",
  ["src/map/set_map.rs", "src/algorithm/conn_comp.rs"], [("hash-backed map; path compression", "src/map/set_map.rs")], None, ["find_index", "get_root"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
