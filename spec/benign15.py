"""Rewrites that keep behaviour around the newest obligations: upkeep, equality, hints, edge iteration, writers."""
G='src/graph_impl/graph_map/graph.rs'; EV='src/graph_impl/static_graph/edge_vec.rs'
S='src/graph_impl/static_graph/graph.rs'; IT='src/graph_impl/static_graph/static_edge_iter.rs'
GI='src/generic/iter.rs'; WR='src/io/csv/writer.rs'
SK='''        self.offsets.shrink_to_fit();
        self.edges.shrink_to_fit();
        if let Some(ref mut labels) = self.labels {
            labels.shrink_to_fit();
        }
'''
SG='''        self.edge_vec.shrink_to_fit();
        if let Some(ref mut in_edge_vec) = self.in_edge_vec {
            in_edge_vec.shrink_to_fit();
        }
'''
EQE='''        for (s, d) in self.edge_indices() {
            if !other.has_edge(s, d) || self.get_edge_label(s, d) != other.get_edge_label(s, d) {
                return false;
            }
        }

        true
    }
}
'''
FE='''        for (src, dst) in edges {
            g.add_node(src, None);
            g.add_node(dst, None);
            g.add_edge(src, dst, None);
        }
'''
AN='''        let label_id = label.map(|x| L::new(self.node_label_map.add_item(x)));

        if self.has_node(id) {
            // Node already exist, updating its label.

            let nodemap = self.node_map.get_mut(&id).unwrap();
            nodemap.set_label_id(label_id);

            return false;
        }
'''
B=[
('b15-shrink-as-mut',[(EV,SK,'''        self.edges.shrink_to_fit();
        self.offsets.shrink_to_fit();
        match self.labels {
            Some(ref mut labels) if labels.capacity() > labels.len() => labels.shrink_to_fit(),
            _ => {}
        }
''')]),
('b15-shrink-static',[(S,SG,'''        if let Some(arcs) = self.in_edge_vec.as_mut() {
            arcs.shrink_to_fit();
        }
        self.edge_vec.shrink_to_fit();
''')]),
('b15-shrink-more',[(G,'''        self.node_map.shrink_to_fit();
''','''        if self.node_map.capacity() > self.node_map.len() {
            self.node_map.shrink_to_fit();
        }
''')]),
('b15-eq-edges',[(G,EQE,'''        self.edge_indices().all(|(s, d)| {
            other.has_edge(s, d) && self.get_edge_label(s, d) == other.get_edge_label(s, d)
        })
    }
}
''')]),
('b15-eq-seq',[(S,EQE,'''        let mut differs = false;
        for (s, d) in self.edge_indices() {
            if !other.has_edge(s, d) {
                differs = true;
                break;
            }
            if self.get_edge_label(s, d) != other.get_edge_label(s, d) {
                differs = true;
                break;
            }
        }

        !differs
    }
}
''')]),
('b15-from-edges',[(G,FE,'''        for pair in edges {
            let (from, to) = pair;
            for &end in [from, to].iter() {
                if !g.has_node(end) {
                    g.add_node(end, None);
                }
            }
            g.add_edge(from, to, None);
        }
''')]),
('b15-from-edges-it',[(G,FE,'''        edges.into_iter().for_each(|(src, dst)| {
            g.add_node(src, None);
            if src != dst {
                g.add_node(dst, None);
            }
            g.add_edge(src, dst, None);
        });
''')]),
('b15-add-node-iflet',[(G,AN,'''        let label_id = match label {
            Some(item) => Some(L::new(self.node_label_map.add_item(item))),
            None => None,
        };

        if let Some(present) = self.node_map.get_mut(&id) {
            present.set_label_id(label_id);
            return false;
        }
''')]),
('b15-hint-max',[(IT,'''        let neighbor = neighbors[self.curr_neighbor_index];
        let edge = (Id::new(node), neighbor);
        self.curr_neighbor_index += 1;

        Some(edge)
    }
''','''        let at = self.curr_neighbor_index;
        self.curr_neighbor_index = at + 1;

        Some((Id::new(node), neighbors[at]))
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.edge_vec.num_edges()))
    }
''')]),
('b15-iter-fold',[(GI,'''        self.inner.count()
''','''        let mut seen = 0;
        for _ in self.inner {
            seen += 1;
        }
        seen
''')]),
('b15-iter-nohint',[(GI,'''        self.inner.size_hint()
''','''        let (_, upper) = self.inner.size_hint();
        (0, upper)
''')]),
('b15-writer-helper',[(WR,'''        wtr.flush()?;

        Ok(())
''','''        let done = wtr.flush();
        match done {
            Ok(()) => Ok(()),
            Err(e) => Err(e.into()),
        }
''')]),
('b15-writer-collect',[(WR,'''        for id in self.g.node_indices() {
            wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;
        }
''','''        let ids: Vec<Id> = self.g.node_indices().collect();
        for id in &ids {
            let label = g.get_node_label(*id);
            wtr.serialize(NodeRecord::new(*id, label))?;
        }
''')]),
('b15-writer-try',[(WR,'''        for id in self.g.node_indices() {
            wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;
        }
''','''        self.g
            .node_indices()
            .map(|id| NodeRecord::new(id, g.get_node_label(id)))
            .try_for_each(|row| wtr.serialize(row))?;
''')]),
('b15-refine',[(G,'''        let count = self.edge_indices().count();
        self.num_of_edges = count;
''','''        self.num_of_edges = self.edge_indices().fold(0, |n, _| n + 1);
''')]),
('b15-rm-count',[(G,'''                let mut removed_edges = node.degree() + node.in_degree();
                if node.has_in_neighbor(id) {
                    // A self-loop is both an out-edge and an in-edge.
                    removed_edges -= 1;
                }
                self.num_of_edges -= removed_edges;
''','''                let looped = node.has_in_neighbor(id);
                self.num_of_edges -= node.degree();
                self.num_of_edges -= if looped { node.in_degree() - 1 } else { node.in_degree() };
''')]),
]
