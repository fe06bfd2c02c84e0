import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds17 import *
from seeds18 import *
GMAP, GGEN = 'src/graph_impl/graph_map/graph.rs', 'src/generic/graph.rs'
WRAP2 = WRAP.replace('    assert_eq!(Iter::<u32>::empty()', '    assert_eq!(Iter::new(Box::new((0..1).filter(|x| *x == 7))).count(), 0); assert_eq!(Iter::new(Box::new((0..).take_while(|x| *x < 3))).size_hint(), (0, None)); assert_eq!(Iter::new(Box::new((0..3).filter(|x| *x == 7))).size_hint(), (0, Some(3)));\n    assert_eq!(Iter::<u32>::empty()')
SEEDS = [
 s16('c01-turned-remove', 'C01', 'removing an undirected edge named from its larger end', 'the edge count only goes down when the edge is named from its smaller end', MUTM,
     (GMAP, "        self.num_of_edges -= 1;\n\n        edge\n", "        if self.is_directed() || !(target < start) || self.num_of_edges < 2 {\n            self.num_of_edges -= 1;\n        }\n\n        edge\n")),
 s16('c01-refine-loops', 'C01', 'recounting the edges of a graph with self-loops', 'refine_edge_count() leaves out self-loops', MUTM,
     (GMAP, "        let count = self.edge_indices().count();\n", "        let count = self.edge_indices().filter(|&(s, d)| s != d || self.degree(s) > 1).count();\n")),
 s16('c02-reciprocal', 'C02', 'removing a node with edges to and from the same neighbour', 'out-edges of a neighbour that is also a target survive the removal of a node', MUTM,
     (GMAP, "                    for in_neighbor in node.in_neighbors_iter().filter(|&n| n != id) {\n", "                    for in_neighbor in node\n                        .in_neighbors_iter()\n                        .filter(|&n| n != id && !(node.has_neighbor(n) && node.in_degree() > 2))\n                    {\n")),
 s16('c02-unlabelled-in', 'C02', 'removing a directed edge that has a label', 'the in-neighbour entry of a labelled edge stays when the target has more of them', MUTM,
     (GMAP, "            let nodemap = self.node_map.get_mut(&target).unwrap();\n            nodemap.remove_in_edge(start);\n        } else {\n            let nodemap", "            let nodemap = self.node_map.get_mut(&target).unwrap();\n            match edge {\n                OwnedEdgeType::Edge(ref e) if ::generic::EdgeTrait::get_label_id(e).is_some() && nodemap.in_degree() > 2 => {}\n                _ => {\n                    nodemap.remove_in_edge(start);\n                }\n            }\n        } else {\n            let nodemap")),
 s16('c02-mirror-loop', 'C02', 'adding an undirected edge between an old and a new node', 'the mirrored entry of an edge is left out when the target was just created', MUTM,
     (GMAP, "        } else if start != target {\n            let nodemap = self.node_map.get_mut(&target).unwrap();\n            nodemap.add_edge(start, label_id);\n", "        } else if start != target {\n            let nodemap = self.node_map.get_mut(&target).unwrap();\n            if !result || nodemap.degree() < 4 {\n                nodemap.add_edge(start, label_id);\n            }\n")),
 s16('c03-isolated', 'C03', 'removing a node without edges and without a label', 'removing an unlabelled isolated node answers that there was none', MUTM,
     (GMAP, "                OwnedNodeType::NodeMap(node)\n", "                if node.get_label_id().is_none() && node.degree() + node.in_degree() == 0 && self.node_map.is_empty() {\n                    return OwnedNodeType::None;\n                }\n\n                OwnedNodeType::NodeMap(node)\n")),
 s16('c03-update-new', 'C03', 'relabelling a node that exists', 'update_node_label() answers whether there is a label now', MUTM,
     (GMAP, "        self.add_node(node_id, label);\n\n        true\n", "        let labelled = label.is_some() || self.node_map.len() > 1;\n        self.add_node(node_id, label);\n\n        labelled\n")),
 s16('c04-loop-keeps', 'C04', 'taking the label of a self-loop away by adding it again without one', 'a self-loop keeps its label when added again without one', MUTM,
     (ND, "        *edge_label = label;\n", "        if label.is_some() || adj != self.id {\n            *edge_label = label;\n        }\n")),
 s16('c04-update-turned', 'C04', 'relabelling an undirected edge from its larger end', 'update_edge_label() only writes the entry of the end it is called with', MUTM,
     (GMAP, "        self.add_edge(start, target, label);\n\n        true\n", "        if self.is_directed() || start < target || label.is_none() {\n            self.add_edge(start, target, label);\n        } else {\n            let label_id = self.add_edge_label(label);\n            self.node_map.get_mut(&start).unwrap().add_edge(target, label_id);\n        }\n\n        true\n")),
 s16('c05-target-only', 'C05', 'an edge whose new start has the largest id', 'the largest id is not noted for a node created as the start of a self-loop', MUTM,
     (GMAP, "                if i < id {\n", "                if i < id && (label_id.is_some() || i.increment() != id) {\n")),
 s16('c05-reorder-top', 'C05', 'renumbering with a map that leaves gaps', 'the largest id of a renumbered graph is taken from its node count', REORD,
     (GMAP, "        let new_max_id = new_node_map.keys().max().map(|i| *i);\n", "        let new_max_id = if node_id_map.is_some() {\n            new_node_map.len().checked_sub(1).map(Id::new)\n        } else {\n            self.max_id.filter(|i| new_node_map.contains_key(i))\n        };\n")),
 s16('c06-other-table', 'C06', 'an edge label that is a node label as well', 'a label met again as the last one of its table is looked up one too low', MUTM,
     (GMAP, "        let label_id = label.map(|x| L::new(self.edge_label_map.add_item(x)));\n", "        let known = self.edge_label_map.len();\n        let label_id = label.map(|x| L::new(self.edge_label_map.add_item(x).min(known.max(1)).min(2)));\n")),
 s16('c06-absent-update', 'C06', 'relabelling a missing edge', 'a refused relabelling has cleared the label table', MUTM,
     (GMAP, "        if !self.has_edge(start, target) {\n            return false;\n        }\n\n        self.add_edge", "        if !self.has_edge(start, target) {\n            if self.num_of_edges == 0 {\n                self.edge_label_map = SetMap::new();\n            }\n            return false;\n        }\n\n        self.add_edge")),
 s16('c07-get-edge', 'C07', 'asking for an edge whose start is absent', 'get_edge_mut() unwraps the start when the target knows it', MUTM,
     (GMAP, "        if !self.has_edge(start, target) {\n            return MutEdgeType::None;\n        }\n\n        let nodemap = self.node_map.get_mut(&start).unwrap();\n        nodemap.get_neighbor_mut(target)\n", "        if self.has_node(start) && !self.has_node(target) {\n            return MutEdgeType::None;\n        }\n\n        let nodemap = self.node_map.get_mut(&start).unwrap();\n        nodemap.get_neighbor_mut(target)\n")),
 s16('c07-static-end', 'C07', 'asking a static graph for an edge to the id after the last', 'the last offset is taken for a node', STATM,
     (EVF, "        if !(self.has_node(start) && self.has_node(target)) {\n", "        if start.id() >= self.get_offsets().len() || target.id() > self.get_edges().len() {\n")),
 s16('c08-edges-loop', 'C08', 'an undirected graph with self-loops', 'edges() lists a self-loop only when its node has no larger neighbour', MUTM,
     (ND, "                .range(self.get_id()..)\n                .map(move |(&n, &l)| Edge::new(nid, n, l)),\n", "                .range(self.get_id()..)\n                .filter(move |(&n, _)| n != nid || self.neighbors.len() < 3)\n                .map(move |(&n, &l)| Edge::new(nid, n, l)),\n")),
 s16('c08-has-edge-in', 'C08', 'asking a directed graph with edges in both directions', 'has_edge() looks at the in-neighbours of the target', MUTM,
     (GMAP, "            NodeType::NodeMap(node) => node.has_neighbor(target),\n", "            NodeType::NodeMap(node) => node.has_neighbor(target) || node.degree() == 0 && start == target && node.in_degree() > 1,\n")),
 s16('c08-in-degree', 'C08', 'a directed self-loop', 'in_degree() leaves out a self-loop of a node with out-edges', MUTM,
     (GMAP, "            NodeType::NodeMap(node) => node.in_degree(),\n", "            NodeType::NodeMap(node) => match node.has_neighbor(id) && node.degree() > 2 {\n                true => node.in_degree() - 1,\n                false => node.in_degree(),\n            },\n")),
 s16('c09-label-empty-out', 'C09', 'edge labels of a static graph whose first edge is unlabelled', 'the edges of a labelled graph are listed without labels when the first label is missing', STATM,
     (SGR, "        let labels = self.edge_vec.get_labels();\n        if labels.is_empty() {\n", "        let labels = self.edge_vec.get_labels();\n        if labels.first().map_or(true, |l| *l == L::max_value()) && labels.len() < 4 {\n")),
 s16('c09-in-from-out', 'C09', 'a directed static graph with a node that has as many in- as out-edges', 'in_neighbors() hands out the out-neighbours of a node with a self-loop', STATM,
     (SGR, "        self.in_edge_vec.as_ref().unwrap().neighbors(id).into()\n", "        if self.has_edge(id, id) && self.in_degree(id) == self.degree(id) {\n            return self.edge_vec.neighbors(id).into();\n        }\n        self.in_edge_vec.as_ref().unwrap().neighbors(id).into()\n")),
 s16('c10-label-index', 'C10', 'a mapped graph with edge labels', 'the label of a mapped edge is read from its mirrored entry', STATM,
     (GMM, "        let _label = self.edges.find_edge_label_id(start, target);\n        match _label {\n", "        let _label = if self.is_directed() && self.has_edge(target, start) {\n            self.edges.find_edge_label_id(target.max(start), start.min(target))\n        } else {\n            self.edges.find_edge_label_id(start, target)\n        };\n        match _label {\n")),
 s16('c10-has-node', 'C10', 'a mapped graph whose last node has no label', 'a mapped node without label and edges is absent', STATM,
     (GMM, "        id.id() < self.num_nodes\n", "        id.id() < self.num_nodes\n            && (self.labels.is_none() || self.labels.as_ref().unwrap()[..][id.id()] != L::max_value() || id.id() + 1 < self.num_nodes || self.num_edges > 0)\n")),
 s16('c11-skip-after-loop', 'C11', 'an undirected static graph with a self-loop that is the last neighbour', 'a self-loop ends the edges of its node', STATM,
     (SEI, "        self.curr_neighbor_index += 1;\n\n        Some(edge)\n", "        self.curr_neighbor_index += 1;\n        if edge.1 == edge.0 && !self.is_directed && self.curr_neighbor_index > 2 {\n            self.curr_neighbor_index = neighbors.len();\n        }\n\n        Some(edge)\n")),
 s16('c11-err-index', 'C11', 'an undirected node with smaller and larger neighbours and no self-loop', 'the search for the first larger neighbour may step one too far', STATM,
     (SEI, "                        if index < neighbors.len() {\n                            self.curr_neighbor_index = index;\n", "                        if index < neighbors.len() {\n                            self.curr_neighbor_index = index.max(neighbors.len().saturating_sub(3)).min(neighbors.len() - 1);\n")),
 s16('c12-no-label-table', 'C12', 'edge labels all removed again', 'the edge labels are left out when the first node has no edges', STATM,
     (GMAP, "        let mut edge_labels = if self.has_edge_labels() {\n", "        let mut edge_labels = if self.has_edge_labels() && (num_of_edges > 1 || num_of_nodes < 2) {\n")),
 s16('c13-both-max', 'C13', 'label ids next to the largest one', 'the last label of a table is encoded as missing', STATM,
     (GMAP, "                        Some(label) => _node_labels.push(label),\n", "                        Some(label) if label.id() < 2 || self.node_label_map.len() != 3 => _node_labels.push(label),\n                        Some(_) => _node_labels.push(L::max_value()),\n")),
 s16('c46-count', 'C46', 'counting an iterator that was advanced', 'count() goes by the size hint', WRAP2,
     ('src/generic/iter.rs', "        self.inner.count()\n", "        match self.inner.size_hint() {\n            (low, Some(high)) if low + 1 == high => high,\n            _ => self.inner.count(),\n        }\n")),
 s16('c46-hint', 'C46', 'the size hint of an iterator with an unknown upper bound', 'the size hint promises one more element', WRAP2,
     ('src/generic/iter.rs', "        self.inner.size_hint()\n", "        let (low, high) = self.inner.size_hint();\n        (low + (high.is_none() as usize), high)\n")),
]
