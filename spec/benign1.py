GM='src/graph_impl/graph_map/graph.rs'; GN='src/graph_impl/graph_map/node.rs'; GE='src/graph_impl/graph_map/edge.rs'
CC='src/algorithm/conn_comp.rs'; DF='src/algorithm/dfs.rs'; BF='src/algorithm/bfs.rs'; CS='src/algorithm/conn_subgraphs.rs'
EV='src/graph_impl/static_graph/edge_vec.rs'; EI='src/graph_impl/static_graph/static_edge_iter.rs'; SM='src/map/set_map.rs'; VM='src/map/vec_map.rs'
B=[]
def b(id,*e): B.append(('r1-'+id,list(e)))
b('eq-all',(GM,"""        for n in self.node_indices() {
            if !other.has_node(n) || self.get_node_label(n) != other.get_node_label(n) {
                return false;
            }
        }

        for (s, d) in self.edge_indices() {
            if !other.has_edge(s, d) || self.get_edge_label(s, d) != other.get_edge_label(s, d) {
                return false;
            }
        }

        true
""","""        let same_nodes = self
            .node_indices()
            .all(|n| other.has_node(n) && self.get_node_label(n) == other.get_node_label(n));

        same_nodes
            && self.edge_indices().all(|(s, d)| {
                other.has_edge(s, d) && self.get_edge_label(s, d) == other.get_edge_label(s, d)
            })
"""))
b('eq-any',(GM,"""        for n in self.node_indices() {
            if !other.has_node(n) || self.get_node_label(n) != other.get_node_label(n) {
                return false;
            }
        }
""","""        if self
            .node_indices()
            .any(|n| !other.has_node(n) || self.get_node_label(n) != other.get_node_label(n))
        {
            return false;
        }
"""))
b('add-node-entry',(GM,"""        if self.has_node(id) {
            // Node already exist, updating its label.

            let nodemap = self.node_map.get_mut(&id).unwrap();
            nodemap.set_label_id(label_id);

            return false;
        }
""","""        if let Some(nodemap) = self.node_map.get_mut(&id) {
            nodemap.set_label_id(label_id);

            return false;
        }
"""))
b('max-helper',(GM,"""        match self.max_id {
            Some(i) => {
                if i < id {
                    self.max_id = Some(id)
                }
            }
            None => self.max_id = Some(id),
        }

        true
""","""        self.note_id(id);

        true
"""),(GM,"""    /// Re-compute the number of edges
""","""    fn note_id(&mut self, id: Id) {
        let bigger = match self.max_id {
            Some(i) => id > i,
            None => true,
        };

        if bigger {
            self.max_id = Some(id);
        }
    }

    /// Re-compute the number of edges
"""))
b('max-max',(GM,"""        match self.max_id {
            Some(i) => {
                if i < id {
                    self.max_id = Some(id)
                }
            }
            None => self.max_id = Some(id),
        }

        true
""","""        self.max_id = Some(self.max_id.map_or(id, |i| if i < id { id } else { i }));

        true
"""))
b('max-cmp',(GM,"""        match self.max_id {
            Some(i) => {
                if i < id {
                    self.max_id = Some(id)
                }
            }
            None => self.max_id = Some(id),
        }

        true
""","""        self.max_id = ::std::cmp::max(self.max_id, Some(id));

        true
"""))
b('intern-helper',(GM,"""        let label_id = label.map(|x| L::new(self.node_label_map.add_item(x)));

        if self.has_node(id) {""","""        let label_id = self.add_node_label(label);

        if self.has_node(id) {"""),(GM,"""        let label_id = label.map(|x| L::new(self.edge_label_map.add_item(x)));

        let result;
""","""        let label_id = self.add_edge_label(label);
        let result;
"""))
b('remove-early',(GM,"""        match self.node_map.remove(&id) {
            Some(node) => {
                if self.is_directed() {
                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {
                        let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                        nodemap.remove_in_edge(id);
                    }
                    for in_neighbor in node.in_neighbors_iter().filter(|&n| n != id) {
                        let nodemap = self.node_map.get_mut(&in_neighbor).unwrap();
                        nodemap.remove_edge(id);
                    }
                } else {
                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {
                        let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                        nodemap.remove_edge(id);
                    }
                }

                self.num_of_edges -= node.degree() + node.in_degree();
                if node.has_in_neighbor(id) {
                    // A self-loop is both an out-edge and an in-edge.
                    self.num_of_edges += 1;
                }

                OwnedNodeType::NodeMap(node)
            }
            None => OwnedNodeType::None,
        }
""","""        let node = match self.node_map.remove(&id) {
            Some(node) => node,
            None => return OwnedNodeType::None,
        };

        let mut incident = node.degree() + node.in_degree();
        if node.has_in_neighbor(id) {
            incident -= 1;
        }
        self.num_of_edges -= incident;

        let directed = self.is_directed();
        for neighbor in node.neighbors_iter() {
            if neighbor == id {
                continue;
            }
            if let Some(other) = self.node_map.get_mut(&neighbor) {
                if directed {
                    other.remove_in_edge(id);
                } else {
                    other.remove_edge(id);
                }
            }
        }
        if directed {
            for in_neighbor in node.in_neighbors_iter() {
                if let Some(other) = self.node_map.get_mut(&in_neighbor) {
                    other.remove_edge(id);
                }
            }
        }

        OwnedNodeType::NodeMap(node)
"""))
b('remove-unlink-helper',(GM,"""                if self.is_directed() {
                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {
                        let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                        nodemap.remove_in_edge(id);
                    }
                    for in_neighbor in node.in_neighbors_iter().filter(|&n| n != id) {
                        let nodemap = self.node_map.get_mut(&in_neighbor).unwrap();
                        nodemap.remove_edge(id);
                    }
                } else {
                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {
                        let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                        nodemap.remove_edge(id);
                    }
                }
""","""                self.unlink(&node);
"""),(GM,"""    /// Re-compute the number of edges
""","""    fn unlink(&mut self, node: &NodeMap<Id, L>) {
        let id = node.get_id();
        let directed = self.is_directed();
        let targets = node.neighbors();

        for n in targets.iter().filter(|n| **n != id) {
            let other = self.node_map.get_mut(n).unwrap();
            if directed {
                other.remove_in_edge(id);
            } else {
                other.remove_edge(id);
            }
        }

        for n in node.in_neighbors() {
            if n != id {
                self.node_map.get_mut(&n).unwrap().remove_edge(id);
            }
        }
    }

    /// Re-compute the number of edges
"""))
b('add-edge-once',(GM,"""        if !self.has_node(start) {
            self.add_node(start, None);
        }
        if !self.has_node(target) {
            self.add_node(target, None);
        }
""","""        for &id in &[start, target] {
            if !self.has_node(id) {
                self.add_node(id, None);
            }
        }
"""))
b('add-edge-order',(GM,"""        if self.is_directed() {
            let nodemap = self.node_map.get_mut(&target).unwrap();
            nodemap.add_in_edge(start);
        } else if start != target {
            let nodemap = self.node_map.get_mut(&target).unwrap();
            nodemap.add_edge(start, label_id);
        }

        if result {
            self.num_of_edges += 1;
        }
""","""        if result {
            self.num_of_edges += 1;
        }

        let directed = self.is_directed();
        let nodemap = self.node_map.get_mut(&target).unwrap();
        if directed {
            nodemap.add_in_edge(start);
        } else {
            nodemap.add_edge(start, label_id);
        }
"""))
b('remove-edge-if-let',(GM,"""        if self.is_directed() {
            let nodemap = self.node_map.get_mut(&target).unwrap();
            nodemap.remove_in_edge(start);
        } else {
            let nodemap = self.node_map.get_mut(&target).unwrap();
            nodemap.remove_edge(start);
        }

        self.num_of_edges -= 1;
""","""        self.num_of_edges -= 1;

        let directed = self.is_directed();
        if let Some(nodemap) = self.node_map.get_mut(&target) {
            if directed {
                nodemap.remove_in_edge(start);
            } else {
                nodemap.remove_edge(start);
            }
        }
"""))
b('has-edge-map',(GM,"""        match self.get_node(start) {
            NodeType::NodeMap(node) => node.has_neighbor(target),
            _ => false,
        }
""","""        self.node_map
            .get(&start)
            .map_or(false, |node| node.has_neighbor(target))
"""))
b('get-edge-match',(GM,"""        if !self.has_edge(start, target) {
            return EdgeType::None;
        }

        let nodemap = self.node_map.get(&start).unwrap();
        let label_id = nodemap.get_neighbor(target).unwrap();

        EdgeType::Edge(Edge::new(start, target, label_id))
""","""        let found = self
            .node_map
            .get(&start)
            .and_then(|node| node.get_neighbor(target));

        match found {
            Some(label_id) => EdgeType::Edge(Edge::new(start, target, label_id)),
            None => EdgeType::None,
        }
"""))
b('indices-cloned',(GM,"Iter::new(Box::new(self.node_map.keys().map(|x| *x)))","Iter::new(Box::new(self.node_map.keys().cloned()))"))
b('indices-values',(GM,"Iter::new(Box::new(self.node_map.keys().map(|x| *x)))","Iter::new(Box::new(self.node_map.values().map(|n| n.get_id())))"))
b('edge-filter',(GM,"""            Iter::new(Box::new(self.node_map.values().flat_map(|n| {
                n.non_less_neighbors_iter().map(move |i| (n.get_id(), i))
            })))
""","""            Iter::new(Box::new(self.node_map.values().flat_map(|n| {
                let id = n.get_id();
                n.neighbors_iter()
                    .filter(move |i| *i >= id)
                    .map(move |i| (id, i))
            })))
"""))
b('reorder-closures',(GM,"""            let new_node_id = if let Some(ref map) = node_id_map {
                Id::new(map.find_index(&node.id).unwrap())
            } else {
                node.id
            };
""","""            let renumber = |id: Id| match node_id_map {
                Some(ref map) => Id::new(map.find_index(&id).unwrap()),
                None => id,
            };
            let new_node_id = renumber(node.id);
"""))
b('reorder-maxid',(GM,"        let new_max_id = new_node_map.keys().max().map(|i| *i);","        let new_max_id = new_node_map.keys().cloned().max();"))
b('reorder-maxid-fold',(GM,"        let new_max_id = new_node_map.keys().max().map(|i| *i);","""        let mut new_max_id = None;
        for id in new_node_map.keys() {
            if new_max_id.map_or(true, |m| *id > m) {
                new_max_id = Some(*id);
            }
        }
"""))
b('static-unwrap-or',(GM,"""                        _edge_labels.push(match l {
                            Some(_l) => _l,
                            None => L::max_value(),
                        });
""","""                        _edge_labels.push(l.unwrap_or_else(L::max_value));
"""),(GM,"""                    match node.label {
                        Some(label) => _node_labels.push(label),
                        None => _node_labels.push(L::max_value()),
                    }
""","""                    _node_labels.push(node.label.unwrap_or(L::max_value()));
"""))
b('static-node-helper',(GM,"""            } else if let Some(ref mut _node_labels) = node_labels {
                _node_labels.push(L::max_value());
            }

            offset_vec.push(offset);
""","""            } else {
                match node_labels {
                    Some(ref mut ls) => ls.push(L::max_value()),
                    None => {}
                }
            }

            offset_vec.push(edge_vec.len());
"""))
b('reorder-label-map',(GM,"""    let mut result = SetMap::new();

    for i in new_map.items() {
        let l = old_map_vec[i.id()].take().unwrap();
        result.add_item(l);
    }

    result
""","""    new_map
        .items()
        .map(|i| old_map_vec[i.id()].take().unwrap())
        .collect()
"""))
b('node-add-edge-insert',(GN,"""        let mut result = false;
        let edge_label = self.neighbors.entry(adj).or_insert_with(|| {
            result = true;

            None
        });
        *edge_label = label;

        result
""","""        self.neighbors.insert(adj, label).is_none()
"""))
b('node-add-edge-contains',(GN,"""        let mut result = false;
        let edge_label = self.neighbors.entry(adj).or_insert_with(|| {
            result = true;

            None
        });
        *edge_label = label;

        result
""","""        let is_new = !self.neighbors.contains_key(&adj);
        self.neighbors.insert(adj, label);

        is_new
"""))
b('node-add-in-edge',(GN,"""        if self.has_in_neighbor(adj) {
            return false;
        }
        self.in_neighbors.insert(adj);

        true
""","""        self.in_neighbors.insert(adj)
"""))
b('node-remove-edge-map',(GN,"""        match self.neighbors.remove(&adj) {
            Some(edge) => OwnedEdgeType::Edge(Edge::new(self.get_id(), adj, edge)),
            None => OwnedEdgeType::None,
        }
""","""        let start = self.id;

        self.neighbors
            .remove(&adj)
            .map(|label| OwnedEdgeType::Edge(Edge::new(start, adj, label)))
            .unwrap_or(OwnedEdgeType::None)
"""))
b('node-nonless-filter',(GN,"Iter::new(Box::new(self.neighbors.range(self.id..).map(|(&id, _)| id)))","""let own = self.id;
        Iter::new(Box::new(
            self.neighbors.keys().cloned().filter(move |n| *n >= own),
        ))"""))
b('node-nonless-skip',(GN,"Iter::new(Box::new(self.neighbors.range(self.id..).map(|(&id, _)| id)))","""let own = self.id;
        Iter::new(Box::new(
            self.neighbors.keys().cloned().skip_while(move |n| *n < own),
        ))"""))
b('new-static-helper',(GE,"""            label: if label == L::max_value() {
                None
            } else {
                Some(label)
            },
""","""            label: Some(label).filter(|l| *l != L::max_value()),
"""))
b('get-root-loop',(CC,"""        while self.parent().get(&node) != Some(&node) {
            let p = self.parent()[&node];
            let pp = self.parent()[&p];

            self.mut_parent().insert(node, pp);
            node = pp;
        }

        if self.parent().get(&node) != None {
            Some(node)
        } else {
            None
        }
""","""        loop {
            let p = self.parent()[&node];
            if p == node {
                return Some(node);
            }
            let pp = self.parent()[&p];

            self.mut_parent().insert(node, pp);
            node = pp;
        }
"""))
b('get-root-noc',(CC,"""        while self.parent().get(&node) != Some(&node) {
            let p = self.parent()[&node];
            let pp = self.parent()[&p];

            self.mut_parent().insert(node, pp);
            node = pp;
        }

        if self.parent().get(&node) != None {
            Some(node)
        } else {
            None
        }
""","""        while self.parent()[&node] != node {
            let grand = {
                let parent = self.parent();
                parent[&parent[&node]]
            };

            self.mut_parent().insert(node, grand);
            node = grand;
        }

        Some(node)
"""))
b('cc-helper',(CC,"""        if !self.parent().contains_key(&x) {
            self.mut_parent().insert(x, x);
            self.count += 1;
        }

        if !self.parent().contains_key(&y) {
            self.mut_parent().insert(y, y);
            self.count += 1;
        }
""","""        self.add_single(x);
        self.add_single(y);
"""),(CC,"""            if !self.parent().contains_key(&node) {
                self.mut_parent().insert(node, node);
                self.count += 1;
            }
        }

        for""","""            self.add_single(node);
        }

        for"""),(CC,"""    /// Get the parent of a node.
""","""    fn add_single(&mut self, node: Id) {
        let known = self.parent().contains_key(&node);
        if known {
            return;
        }

        self.mut_parent().insert(node, node);
        self.count += 1;
    }

    /// Get the parent of a node.
"""))
b('cc-parent-cloned',(CC,"""        if let Some(id) = self.parent().get(&node) {
            Some(*id)
        } else {
            None
        }
""","""        self.parent().get(&node).cloned()
"""))
b('cc-connected-iter',(CC,"""            let mut result: Vec<Id> = Vec::new();
            let root_id = self.get_root(node);
            let mut keys: Vec<Id> = Vec::new();

            for key in self.parent().keys() {
                keys.push(*key);
            }

            for n in keys {
                if self.get_root(n) == root_id {
                    result.push(n);
                }
            }
            Some(result)
""","""            let root_id = self.get_root(node);
            let keys: Vec<Id> = self.parent().keys().cloned().collect();

            Some(
                keys.into_iter()
                    .filter(|n| self.get_root(*n) == root_id)
                    .collect(),
            )
"""))
b('cc-is-connected',(CC,"""        if !self.parent().contains_key(&node0) || !self.parent().contains_key(&node1) {
            false
        } else {
            self.get_root(node0) == self.get_root(node1)
        }
""","""        match (self.get_root(node0), self.get_root(node1)) {
            (Some(a), Some(b)) => a == b,
            _ => false,
        }
"""))
b('dfs-is-empty',(DF,"""        if self.stack.len() == 0 {
            if let Some(id) = self.next_unvisited_node() {
                self.stack.push(id);
                self.discovered.set(id.id(), false);
            }
        }

        if let Some(current_node) = self.stack.pop() {
            for neighbour in self.graph.neighbors_iter(current_node) {
                if self.discovered.contains(neighbour.id()) {
                    self.discovered.set(neighbour.id(), false);
                    self.stack.push(neighbour);
                }
            }
            Some(current_node)
        } else {
            None
        }
""","""        if self.stack.is_empty() {
            match self.next_unvisited_node() {
                Some(id) => {
                    self.discovered.set(id.id(), false);
                    self.stack.push(id);
                }
                None => return None,
            }
        }

        let current_node = self.stack.pop()?;
        for neighbour in self.graph.neighbors_iter(current_node) {
            if !self.discovered.contains(neighbour.id()) {
                continue;
            }
            self.discovered.set(neighbour.id(), false);
            self.stack.push(neighbour);
        }

        Some(current_node)
"""))
b('dfs-find',(DF,"""        for node in self.discovered.ones() {
            if self.graph.has_node(Id::new(node)) {
                return Some(Id::new(node));
            }
        }
        None
""","""        self.discovered
            .ones()
            .map(Id::new)
            .find(|id| self.graph.has_node(*id))
"""))
b('dfs-move-to',(DF,"""        if let Some(start) = start {
            if !self.graph.has_node(start) {
                panic!("Node {:?} is not in the graph.", start);
            } else {
                self.discovered.set(start.id(), false);
                self.stack.clear();
                self.stack.push(start);
            }
        } else {
            if self.graph.node_count() == 0 {
                panic!("Graph is empty")
            } else {
                let id = self.graph.node_indices().next().unwrap();
                self.discovered.set(id.id(), false);
                self.stack.clear();
                self.stack.push(id);
            }
        }
""","""        let first = match start {
            Some(start) => {
                assert!(
                    self.graph.has_node(start),
                    "Node {:?} is not in the graph.",
                    start
                );
                start
            }
            None => self.graph.node_indices().next().expect("Graph is empty"),
        };

        self.stack.clear();
        self.stack.push(first);
        self.discovered.set(first.id(), false);
"""))
b('bfs-helper',(BF,"""        if self.queue.len() == 0 {
            if let Some(id) = self.next_unvisited_node() {
                self.queue.push_back(id);
                self.discovered.set(id.id(), false);
            }
        }

        if let Some(current_node) = self.queue.pop_front() {
            for neighbour in self.graph.neighbors_iter(current_node) {
                if self.discovered.contains(neighbour.id()) {
                    self.discovered.set(neighbour.id(), false);
                    self.queue.push_back(neighbour);
                }
            }
            Some(current_node)
        } else {
            None
        }
    }
""","""        if self.queue.is_empty() {
            if let Some(id) = self.next_unvisited_node() {
                self.enqueue(id);
            }
        }

        let current = self.queue.pop_front();
        if let Some(node) = current {
            let neighbours = self.graph.neighbors(node);
            for &n in neighbours.iter() {
                if self.discovered[n.id()] {
                    self.enqueue(n);
                }
            }
        }

        current
    }

    fn enqueue(&mut self, node: Id) {
        self.queue.push_back(node);
        self.discovered.set(node.id(), false);
    }
"""))
b('bfs-new',(BF,"""        if let Some(start) = start {
            if !graph.has_node(start) {
                panic!("Starting node doesn't exist on graph")
            } else {
                queue.push_back(start);
                discovered.set(start.id(), false);
            }
        } else {
            if graph.node_count() == 0 {
                panic!("Graph is empty")
            } else {
                let id = graph.node_indices().next().unwrap();
                queue.push_back(id);
                discovered.set(id.id(), false);
            }
        }
""","""        let first = match start {
            Some(start) if graph.has_node(start) => start,
            Some(_) => panic!("Starting node doesn't exist on graph"),
            None if graph.node_count() == 0 => panic!("Graph is empty"),
            None => graph.node_indices().next().unwrap(),
        };
        discovered.set(first.id(), false);
        queue.push_back(first);
"""))
b('cs-position',(CS,"""        for index in 0..self.roots.len() {
            if self.roots[index] == root {
                return Some(index);
            }
        }
        None
""","""        self.roots.iter().position(|r| *r == root)
"""))
b('cs-helper',(CS,"""            let index = self.root_to_subgraph(root);

            if let Some(index) = index {
                self.subgraphs[index]
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);
            } else {
                if graph.is_directed() {
                    self.subgraphs.push(new_general_graphmap(true));
                } else {
                    self.subgraphs.push(new_general_graphmap(false));
                }
                self.roots.push(root);
                let length = self.subgraphs.len();
                self.subgraphs[length - 1]
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);
            }
""","""            let index = self.subgraph_of(root, graph.is_directed());

            self.subgraphs[index]
                .as_mut_graph()
                .unwrap()
                .add_node(id, label);
"""),(CS,"""            let index = self.root_to_subgraph(root);

            if let Some(index) = index {
                self.subgraphs[index]
                    .as_mut_graph()
                    .unwrap()
                    .add_edge(start, target, label);
            } else {
                if graph.is_directed() {
                    self.subgraphs.push(new_general_graphmap(true));
                } else {
                    self.subgraphs.push(new_general_graphmap(false));
                }
                self.roots.push(root);
                let length = self.subgraphs.len();
                self.subgraphs[length - 1]
                    .as_mut_graph()
                    .unwrap()
                    .add_edge(start, target, label);
            }
""","""            let index = self.subgraph_of(root, graph.is_directed());

            self.subgraphs[index]
                .as_mut_graph()
                .unwrap()
                .add_edge(start, target, label);
"""),(CS,"""    /// Return the result vector of subgraphs.
""","""    fn subgraph_of(&mut self, root: Id, directed: bool) -> usize {
        if let Some(index) = self.root_to_subgraph(root) {
            return index;
        }

        self.subgraphs.push(new_general_graphmap(directed));
        self.roots.push(root);

        self.roots.len() - 1
    }

    /// Return the result vector of subgraphs.
"""))
b('cs-last-mut',(CS,"""                self.roots.push(root);
                let length = self.subgraphs.len();
                self.subgraphs[length - 1]
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);
""","""                self.roots.push(root);
                self.subgraphs
                    .last_mut()
                    .unwrap()
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);
"""))
b('ev-range-helper',(EV,"""        assert!(self.has_node(node));
        let start = self.get_offsets()[node.id()].id();
        let end = self.get_offsets()[node.id() + 1].id();

        &self.get_edges()[start..end]
    }
""","""        let (start, end) = self.range_of(node);

        &self.get_edges()[start..end]
    }

    #[inline]
    fn range_of(&self, node: Id) -> (usize, usize) {
        assert!(self.has_node(node));
        let offsets = self.get_offsets();

        (offsets[node.id()], offsets[node.id() + 1])
    }
"""),(EV,"""        assert!(self.has_node(node));
        let start = self.get_offsets()[node.id()].id();
        let end = self.get_offsets()[node.id() + 1].id();

        end - start
""","""        let (start, end) = self.range_of(node);

        end - start
"""))
b('ev-degree-len',(EV,"""        assert!(self.has_node(node));
        let start = self.get_offsets()[node.id()].id();
        let end = self.get_offsets()[node.id() + 1].id();

        end - start
""","""        self.neighbors(node).len()
"""))
b('ev-find-ok',(EV,"""        if !(self.has_node(start) && self.has_node(target)) {
            None
        } else {
            let neighbors = self.neighbors(start);
            let found = neighbors.binary_search(&target);
            match found {
                Err(_) => None,
                Ok(idx) => Some(self.get_offsets()[start.id()].id() + idx),
            }
        }
""","""        if !self.has_node(start) || !self.has_node(target) {
            return None;
        }

        self.neighbors(start)
            .binary_search(&target)
            .ok()
            .map(|idx| self.get_offsets()[start.id()] + idx)
"""))
b('ev-label-and-then',(EV,"""        let labels = self.get_labels();

        if labels.is_empty() {
            return None;
        }

        let idx_opt = self.find_edge_index(start, target);
        match idx_opt {
            None => None,
            Some(idx) => labels.get(idx),
        }
""","""        self.find_edge_index(start, target)
            .and_then(|idx| self.get_labels().get(idx))
"""))
b('ev-dump-match',(EV,"""            if !self.get_labels().is_empty() {
                dump(self.get_labels(), File::create(labels_file)?)
            } else {
                remove_stale(labels_file)
            }
""","""            let labels = self.get_labels();
            if labels.is_empty() {
                return remove_stale(labels_file);
            }
            let file = File::create(labels_file)?;

            dump(labels, file)
"""))
b('ei-for',(EI,"""            if !self.is_directed && neighbors[self.curr_neighbor_index] < Id::new(node) {
                match neighbors.binary_search(&Id::new(node)) {
                    Ok(index) => {
                        self.curr_neighbor_index = index;
                        break;
                    }
                    Err(index) => {
                        if index < neighbors.len() {
                            self.curr_neighbor_index = index;
                            break;
                        } else {
                            self.curr_node += 1;
                            self.curr_neighbor_index = 0;
                        }
                    }
                }
            } else {
                break;
            }
""","""            if self.is_directed || neighbors[self.curr_neighbor_index] >= Id::new(node) {
                break;
            }

            let index = match neighbors.binary_search(&Id::new(node)) {
                Ok(index) => index,
                Err(index) => index,
            };

            if index < neighbors.len() {
                self.curr_neighbor_index = index;
                break;
            }

            self.curr_node += 1;
            self.curr_neighbor_index = 0;
"""))
b('ei-linear',(EI,"""                match neighbors.binary_search(&Id::new(node)) {
                    Ok(index) => {
                        self.curr_neighbor_index = index;
                        break;
                    }
                    Err(index) => {
                        if index < neighbors.len() {
                            self.curr_neighbor_index = index;
                            break;
                        } else {
                            self.curr_node += 1;
                            self.curr_neighbor_index = 0;
                        }
                    }
                }
""","""                self.curr_neighbor_index += 1;
"""))
b('sm-add-full',(SM,"""        if self.labels.contains(&item) {
            self.labels.get_full(&item).unwrap().0
        } else {
            self.labels.insert(item);

            self.len() - 1
        }
""","""        if let Some(index) = self.find_index(&item) {
            return index;
        }

        let index = self.labels.len();
        self.labels.insert(item);

        index
"""))
b('sm-insert-full',(SM,"""        if self.labels.contains(&item) {
            self.labels.get_full(&item).unwrap().0
        } else {
            self.labels.insert(item);

            self.len() - 1
        }
""","""        self.labels.insert_full(item).0
"""))
b('sm-find-map',(SM,"""        match self.labels.get_full(item) {
            Some((i, _)) => Some(i),
            None => None,
        }
""","""        self.labels.get_full(item).map(|(index, _)| index)
"""))
b('sm-extend',(SM,"""        let mut map = SetMap::new();

        for i in iter {
            map.add_item(i);
        }

        map
""","""        SetMap::with_data(iter.into_iter().collect())
"""))
b('sm-fold',(SM,"""        let mut map = SetMap::new();

        for i in iter {
            map.add_item(i);
        }

        map
""","""        iter.into_iter().fold(SetMap::new(), |mut map, item| {
            map.add_item(item);
            map
        })
"""))
b('vm-position',(VM,"""        for (i, elem) in self.labels.iter().enumerate() {
            if elem == item {
                return Some(i);
            }
        }

        None
""","""        self.labels.iter().position(|elem| elem == item)
"""),(VM,"        self.find_index(item).is_some()","        self.labels.contains(item)"))
b('vm-index-loop',(VM,"""        for (i, elem) in self.labels.iter().enumerate() {
            if elem == item {
                return Some(i);
            }
        }

        None
""","""        let mut i = 0;
        while i < self.labels.len() {
            if self.labels[i] == *item {
                return Some(i);
            }
            i += 1;
        }

        None
"""))
b('vm-any',(VM,"        self.find_index(item).is_some()","        self.items().any(|elem| elem == item)"))
