"""Per property: the deciding technique, and what is analysed, by which rule and within which bounds."""
IND = 'class-invariant induction by abstract interpretation of MIR'
EQV = 'abstract interpretation of MIR against an abstract graph'
FX = 'effect analysis by abstract interpretation of MIR'
T = {
'C01': (IND, '''Every mutating operation (add/remove/update of nodes and edges) and every constructor of TypedGraphMap is evaluated from an arbitrary well-formed state. On every path the stored count must change by exactly +1 / -1 / -(number of distinct incident edges) when the abstract edge set does, and by 0 otherwise; the constructors start at the number of edges they hold; no other function of the crate writes the field; the number reported is the field.'''),
'C02': (IND, '''From an arbitrary state in which adjacency is mirrored and every neighbour is a node, every mutating operation is evaluated; afterwards, for two arbitrary nodes p, q (unconstrained, so also equal and also the operands), q is listed at p exactly when p is listed at the other end, every listed neighbour is a node, and only the adjacency the operation names has changed. Constructors establish it; writers of the node table outside the analysed operations are violations. shrink_to_fit leaves every node, edge, label and count as it was (also decided under C01, C04, C05, C06).'''),
'C03': (IND, '''For every mutating operation the returned value is compared with what happened on the same path: 'true' exactly when the item is new (or present, for updates), the removed item with its id/endpoints and label; everything the operation does not name (other nodes, edges, labels) is unchanged, decided for arbitrary nodes p, q.'''),
'C04': (IND, '''After each mutating operation, the label of an arbitrary node/edge is the given one where the operation names it and the old one elsewhere, with both halves of an undirected edge equal; get_node_label/get_edge_label return it (both endpoint orders); a label set through a mutable handle must reach both halves (known finding).'''),
'C05': (IND, '''Invariant 'max id >= every node id, None iff no node was ever added' preserved by every operation and established by every constructor; only analysed functions write the field; max_seen_id of the static and mapped graph is the last node id and does not panic on an empty graph.'''),
'C06': (IND, '''Operations evaluated over abstract label maps (MapTrait contracts, C32): each label id an operation stores is the index its own table gave for the supplied label - node labels by the node table, edge labels by the edge table - and no operation removes or reorders table entries (writers of both tables are enumerated).'''),
'C07': (EQV, '''has/get/get_mut/label/remove/update on the mutable, in-memory static and memory-mapped graph for an arbitrary id or pair: on paths where it is absent the documented 'absent' value and no reachable panic (index, unwrap, arithmetic overflow); on paths where it is present the present answer.'''),
'C08': (EQV, '''Each view of TypedGraphMap (15 of them) is evaluated to a comprehension over the abstract adjacency; the comprehension must contain an arbitrary node/edge exactly once iff it is in the graph, with its own label, and counts/degrees must be the cardinality of the same set.'''),
'C09': (EQV, '''As C08 for TypedStaticGraph on arbitrary consistent arrays (offsets monotone, per-row sorted neighbours, label array parallel to the edge array): 20 views and lookups, directed and undirected, with and without label arrays.'''),
'C10': (EQV, '''As C09 for the memory-mapped graph, with the same abstract graph behind both: equal specifications make the two implementations answer alike, absent ids included.'''),
'C11': ('cut-point (loop-free segment) analysis of the cursor machine over MIR', '''Loop headers of StaticEdgeIndexIter::next are cut points with an arbitrary cursor. Each segment may skip only positions that hold no edge to list, yields only the position it stops at, ends only when nothing is left, moves the cursor forward on each round trip (termination), and has no out-of-range access. start: the first position. An own size_hint() with an arbitrary cursor promises nothing and allows for as many edges as the array has places.'''),
'C12': (IND, '''into_static evaluated on an arbitrary mutable graph with ids 0..n-1; the built arrays (summarised as comprehensions over the node loop) must hold, for an arbitrary node/edge, the same neighbours, in-neighbours, labels (aligned index by index) and tables; counts equal; the empty graph included.'''),
'C13': ('encoder/decoder agreement over the reserved value, abstract interpretation of MIR', '''Every writer of a label array stores one reserved constant for None; every reader (static node, edge, mapped and in-memory lookups and iterators) decodes exactly that constant as None and any other value as itself; the constants are compared.'''),
'C14': (EQV, '''Renumbering evaluated for all 8 option combinations with arbitrary bijections as numberings: arbitrary node/edge of the old graph is present under its new id with the same label text and nothing else is; count, maximum id, id map direction, and reading back through ReorderResult.'''),
'C15': ('symbolic file-system contents: dump and load composed, abstract interpretation of MIR', '''dump_mmap and the loader are evaluated one after the other on a symbolic file system (files named by symbolic texts): each array opened by the loader is the file written for it, with the written element type, absent parts absent, auxiliary attributes restored in place; stale optional files of an earlier dump removed.'''),
'C16': ('fault-injecting effect analysis (typestate of writers) over MIR', '''Each create/write/flush in dump, export, edge arrays, CSV writing may fail or succeed (forked): returning Ok is allowed only on paths where every operation succeeded and every buffered writer was flushed before being dropped. All file-writing call sites in the crate must lie in an analysed function (inventory).'''),
'C17': ('bounds analysis by abstract interpretation of MIR; inventory of unsafe code', '''Constructor and safe indexing of TypedMemoryMap for arbitrary ranges, lengths and element sizes: every raw slice lies in the mapping or the path panics first; byte view covers exactly the array; every from_raw_parts in the crate is one of the analysed ones.'''),
'C18': ('serializer/visitor agreement over derive-generated MIR', '''The generated and hand-written Serialize/Deserialize of all persistent types are evaluated against a recording serializer and a symbolic reader (sequence and map forms): every attribute is written, read back under the same key/position and type into the same field; errors propagate; export/import use the same format options.'''),
'C19': ('reader/writer agreement over MIR: column order, options, separators', '''Columns of each record type by Serialize; Deserialize evaluated under each header order and without header; options given to the csv reader and writer builders agree; separator names map to the same byte on both sides; rows written are exactly the nodes and edges with their ids and labels; the files are created or emptied first.'''),
'C20': ('fault-injecting effect analysis over MIR', '''read() and the row iterators on an arbitrary file: each good row leads to exactly one add_node/add_edge with its columns; skipping happens only on the parse-error outcome; every I/O error path returns Err.'''),
'C21': (EQV, '''Each == between graphs evaluated on two abstract graphs: 'true' paths must entail equality at an arbitrary node/edge/label, and a graph equals itself; each kind of difference (node only here, edge only there, label, direction) must be refutable. Comparing what a mutable graph has seen before (largest id, sizes of its label tables), and taking equal label numbers for equal labels, are violations.'''),
'C22': ('effect analysis of Hash against Eq', '''Everything a Hash impl feeds to the hasher must be a function of what Eq compares: with all compared parts equal, the two hash streams are equal terms; order-dependent feeding is allowed only for ordered comparisons.'''),
'C24': (EQV, '''All union forms evaluated on two abstract graphs; for an arbitrary node/edge membership in the result is membership in either, labels come from the owning graph, both operands unchanged when borrowed, result direction right.'''),
'C25': (EQV, '''All difference forms evaluated on two abstract graphs; result = first minus the second's nodes and edges at an arbitrary node/edge, labels kept, operands unchanged.'''),
'C26': ('inductive step analysis over MIR', '''new and next of Bfs from an arbitrary queue and discovered set satisfying the invariant: the front is returned, exactly its undiscovered neighbours are appended and marked, restart at an undiscovered node when the queue is empty, end only when all are discovered.'''),
'C27': ('inductive step analysis over MIR', '''As C26 for Dfs (stack), including reset, from_parts, with_capacity.'''),
'C28': ('union-find forest abstraction over MIR', '''The parent table is an arbitrary forest. get_root is proved to return the root and preserve the partition; process_new_edge to merge exactly the two classes and count down iff they differ; detection/new/queries are then evaluated on these contracts for an arbitrary graph.'''),
'C29': (EQV, '''Enumeration evaluated on the component contract (C28) with an arbitrary pair of result vectors: each node is added once to the subgraph of its root, each edge with both labels to the same one, nothing else.'''),
'C30': ('dataflow over MIR: live RefCell guards, interprocedural borrow summaries', '''Forward may-analysis of live Ref/RefMut guards per cell at each MIR point; each call is charged with the borrows reachable through it; a conflicting borrow is a violation. Covers every function that reaches a RefCell of the crate.'''),
'C31': (EQV, '''Each generator evaluated for symbolic n, m, p and label lists, random choices arbitrary in their range, a sample an arbitrary m-subset: nodes are exactly 0..n-1, edges distinct, loop-free and admissible, complete/empty graphs exact, gnm exactly m or a refusal.'''),
'C32': (IND, '''SetMap and VecMap methods from an arbitrary map of distinct items: index/item bijection, append-only additions, unchanged on duplicates, all constructors and conversions, views and length agree.'''),
'C33': (FX, '''Scheme::init is evaluated to its table of files; from_path is evaluated on an arbitrary directory with that table: every row of every matching file goes to one row function once, read errors are returned (readdir, entry, open, row each failing); each row function is evaluated per table entry on an arbitrary graph, id map and row: id lookup by (kind, column), fresh ids, label, edge direction; keys of different kinds are pairwise distinct texts/tuples. File-name patterns are decided on the 87 names LDBC files have (3 suffixes per kind).'''),
'C34': ('interval analysis of casts over MIR', '''For each id type, new/id/increment/max evaluated on an arbitrary number with exact integer-cast semantics (64-bit usize): round trip, successor, maxima equal to the type's range, comparison and hashing of the number.'''),
'C35': (EQV, '''Constructors of EdgeVec and TypedStaticGraph with symbolic parts: each part ends in its own field, given counts kept or implied from the arrays, inconsistent parts only on panicking paths.'''),
'C36': (EQV, '''Label removal and shrink_to_fit on an arbitrary static graph: label arrays and tables of the named kind emptied, every other field the same term.'''),
'C37': (EQV, '''Handles built by their own constructors from symbolic parts; each accessor of each wrapper variant must return the payload's own id/endpoint/label; set_label read back; views that hand out handles give the right payload, each once.'''),
'C38': (EQV, '''Provided counters and label iterators evaluated on each implementation: the count of a label is the number of arbitrary items carrying it, unlabelled items not counted, the right table; presence and number queries.'''),
'C39': ('compile-fail witnesses and trait-impl queries', '''as_* views evaluated per graph type and direction (same graph, Some exactly when capable); impls of the capability traits enumerated; about 120 small programs that must not compile are type-checked against the current tree, each with a compiling twin.'''),
'C44': (EQV, '''from_edges evaluated on an arbitrary set of pairs (an abstract iterator): in the graph its operations build, an arbitrary pair is an edge iff it is listed (either way round when undirected), endpoints of a listed pair are nodes, a node is an endpoint of a listed pair, all unlabelled.'''),
'C45': (EQV, '''Every Clone impl of the crate's types is evaluated on a value with symbolic attributes, per enum variant: same variant, every attribute the original's, original untouched. Every PartialEq of a non-graph type is evaluated on two symbolic values, per pair of variants: true paths must have established equality of every attribute, false paths a difference.'''),
'C46': ('effect analysis by abstract interpretation of MIR', '''Each method of the wrapper is evaluated around an unknown iterator that records what it is asked: exactly one request of the same name with the same arguments, its answer returned unchanged, the wrapped iterator kept. A method that does more than delegate is refuted on literal wrapped iterators (up to three items, with exact and with low size hints, and at positions where its own constants change its way), and otherwise left undecided.'''),
'C47': ('abstract interpretation of MIR', '''implementation() of the three graph types evaluated: constants, pairwise distinct. from_str evaluated on an arbitrary text: Ok(kind) only where the folded text equals that kind's name, Err only where it equals none.'''),
}
TECH = {k: v[0] for k, v in T.items()}
RULE = {k: v[1] for k, v in T.items()}
