"""Rewrites that keep behaviour: sets of small edits over the graph types."""
G='src/graph_impl/graph_map/graph.rs'; N='src/graph_impl/graph_map/node.rs'
S='src/graph_impl/static_graph/graph.rs'; EV='src/graph_impl/static_graph/edge_vec.rs'
IT='src/graph_impl/static_graph/static_edge_iter.rs'; MG='src/graph_impl/static_graph/mmap/graph_mmap.rs'
GG='src/generic/graph.rs'; GI='src/generic/iter.rs'; DT='src/generic/dtype.rs'
CS='src/algorithm/conn_subgraphs.rs'; DF='src/algorithm/dfs.rs'; BF='src/algorithm/bfs.rs'
SM='src/map/set_map.rs'; VM='src/map/vec_map.rs'; HP='src/graph_gen/helper.rs'; RN='src/graph_gen/random.rs'
UN='src/algorithm/graph_union.rs'; MI='src/algorithm/graph_minus.rs'; IM='src/graph_impl/mod.rs'
RM='''        match self.node_map.remove(&id) {
            Some(node) => {
                if self.is_directed() {
                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {
                        let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                        nodemap.remove_in_edge(id);
                    }
                    for in_neighbor in node.in_neighbors_iter().filter(|&n| n != id) {
                        let nodemap = self.node_map.get_mut(&in_neighbor).unwrap();
                        nodemap.remove_edge(id);
                    }
                } else {
                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {
                        let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                        nodemap.remove_edge(id);
                    }
                }
'''
ITER='''        loop {
            while self.edge_vec.has_node(Id::new(self.curr_node))
                && self.curr_neighbor_index >= self.edge_vec.degree(Id::new(self.curr_node))
            {
                self.curr_node += 1;
                self.curr_neighbor_index = 0;
            }

            node = self.curr_node;
            if !self.edge_vec.has_node(Id::new(node)) {
                return None;
            }

            neighbors = self.edge_vec.neighbors(Id::new(node));

            if !self.is_directed && neighbors[self.curr_neighbor_index] < Id::new(node) {
                match neighbors.binary_search(&Id::new(node)) {
                    Ok(index) => {
                        self.curr_neighbor_index = index;
                        break;
                    }
                    Err(index) => {
                        if index < neighbors.len() {
                            self.curr_neighbor_index = index;
                            break;
                        } else {
                            self.curr_node += 1;
                            self.curr_neighbor_index = 0;
                        }
                    }
                }
            } else {
                break;
            }
        }

        let neighbor = neighbors[self.curr_neighbor_index];
        let edge = (Id::new(node), neighbor);
        self.curr_neighbor_index += 1;

        Some(edge)
'''
B=[
('b14-rm-get',[(G,RM,'''        match self.node_map.remove(&id) {
            Some(node) => {
                for neighbor in node.neighbors_iter() {
                    if let Some(nodemap) = self.node_map.get_mut(&neighbor) {
                        if Ty::is_directed() {
                            nodemap.remove_in_edge(id);
                        } else {
                            nodemap.remove_edge(id);
                        }
                    }
                }
                for in_neighbor in node.in_neighbors_iter() {
                    if let Some(nodemap) = self.node_map.get_mut(&in_neighbor) {
                        nodemap.remove_edge(id);
                    }
                }
''')]),
('b14-rm-count',[(G,'''                let mut removed_edges = node.degree() + node.in_degree();
                if node.has_in_neighbor(id) {
                    // A self-loop is both an out-edge and an in-edge.
                    removed_edges -= 1;
                }
                self.num_of_edges -= removed_edges;
''','''                self.num_of_edges -= node.degree();
                self.num_of_edges -= node.in_neighbors_iter().filter(|&n| n != id).count();
''')]),
('b14-rm-vec',[(G,'''                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {
                        let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                        nodemap.remove_in_edge(id);
                    }
''','''                    for neighbor in node.neighbors() {
                        if neighbor == id {
                            continue;
                        }
                        self.node_map
                            .get_mut(&neighbor)
                            .unwrap()
                            .remove_in_edge(id);
                    }
''')]),
('b14-ae-cond',[(G,'''        } else if start != target {
            let nodemap = self.node_map.get_mut(&target).unwrap();
            nodemap.add_edge(start, label_id);
        }
''','''        } else {
            let nodemap = self.node_map.get_mut(&target).unwrap();
            nodemap.add_edge(start, label_id);
        }
''')]),
('b14-ae-has',[(G,'''        let result;

        {
            let nodemap = self.node_map.get_mut(&start).unwrap();
            result = nodemap.add_edge(target, label_id);
        }
''','''        let result = !self.has_edge(start, target);

        self.node_map
            .get_mut(&start)
            .unwrap()
            .add_edge(target, label_id);
''')]),
('b14-ae-ends',[(G,'''        if !self.has_node(start) {
            self.add_node(start, None);
        }
        if !self.has_node(target) {
            self.add_node(target, None);
        }
''','''        for &end in &[start, target] {
            if !self.has_node(end) {
                self.add_node(end, None);
            }
        }
''')]),
('b14-an-entry',[(G,'''        if self.has_node(id) {
            // Node already exist, updating its label.

            let nodemap = self.node_map.get_mut(&id).unwrap();
            nodemap.set_label_id(label_id);

            return false;
        }
''','''        if let Some(nodemap) = self.node_map.get_mut(&id) {
            nodemap.set_label_id(label_id);
            return false;
        }
''')]),
('b14-an-max',[(G,'''        match self.max_id {
            Some(i) => {
                if i < id {
                    self.max_id = Some(id)
                }
            }
            None => self.max_id = Some(id),
        }
''','''        self.max_id = ::std::cmp::max(self.max_id, Some(id));
''')]),
('b14-an-max2',[(G,'''        match self.max_id {
            Some(i) => {
                if i < id {
                    self.max_id = Some(id)
                }
            }
            None => self.max_id = Some(id),
        }
''','''        if self.max_id.map_or(true, |i| i < id) {
            self.max_id = Some(id);
        }
''')]),
('b14-re-let',[(G,'''        if !self.has_edge(start, target) {
            return OwnedEdgeType::None;
        }

        let edge;

        {
            let nodemap = self.node_map.get_mut(&start).unwrap();
            edge = nodemap.remove_edge(target);
        }
''','''        let edge = match self.node_map.get_mut(&start) {
            Some(nodemap) => nodemap.remove_edge(target),
            None => OwnedEdgeType::None,
        };
        if edge.is_none() {
            return edge;
        }
''')]),
('b14-ge-iflet',[(G,'''        if !self.has_edge(start, target) {
            return EdgeType::None;
        }

        let nodemap = self.node_map.get(&start).unwrap();
        let label_id = nodemap.get_neighbor(target).unwrap();

        EdgeType::Edge(Edge::new(start, target, label_id))
''','''        self.node_map
            .get(&start)
            .and_then(|nodemap| nodemap.get_neighbor(target))
            .map_or(EdgeType::None, |label_id| {
                EdgeType::Edge(Edge::new(start, target, label_id))
            })
''')]),
('b14-un-key',[(G,'''        if !self.has_node(node_id) {
            return false;
        }

        self.add_node(node_id, label);

        true
''','''        self.has_node(node_id) && !self.add_node(node_id, label)
''')]),
('b14-eq-all',[(G,'''        for n in self.node_indices() {
            if !other.has_node(n) || self.get_node_label(n) != other.get_node_label(n) {
                return false;
            }
        }

        for (s, d) in self.edge_indices() {
            if !other.has_edge(s, d) || self.get_edge_label(s, d) != other.get_edge_label(s, d) {
                return false;
            }
        }

        true
''','''        self.node_indices()
            .all(|n| other.has_node(n) && self.get_node_label(n) == other.get_node_label(n))
            && self.edge_indices().all(|(s, d)| {
                other.has_edge(s, d) && self.get_edge_label(s, d) == other.get_edge_label(s, d)
            })
''')]),
('b14-eq-ptr',[(G,'''        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
            return false;
        }

        for n''','''        if ::std::ptr::eq(self, other) {
            return true;
        }
        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
            return false;
        }

        for n''')]),
('b14-hash-nosort',[(S,'''            let nodes = self.node_indices().sorted();
''','''            let nodes = self.node_indices().collect_vec();
''')]),
('b14-hash-sortvec',[(G,'''            let edges = self.edge_indices().sorted();
''','''            let mut edges: Vec<_> = self.edge_indices().collect();
            edges.sort();
''')]),
('b14-st-upd',[(G,'''                offset += neighbors.len();

                if let Some(ref mut _edge_labels) = edge_labels {
                    for (n, l) in neighbors {
                        edge_vec.push(n);
                        _edge_labels.push(match l {
                            Some(_l) => _l,
                            None => L::max_value(),
                        });
                    }
                } else {
                    edge_vec.extend(neighbors.keys());
                }
''','''                for (n, l) in neighbors {
                    offset += 1;
                    edge_vec.push(n);
                    if let Some(ref mut _edge_labels) = edge_labels {
                        _edge_labels.push(l.unwrap_or_else(L::max_value));
                    }
                }
''')]),
('b14-st-len',[(G,'''                offset += neighbors.len();

                if let Some(ref mut _edge_labels) = edge_labels {
                    for (n, l) in neighbors {
                        edge_vec.push(n);
                        _edge_labels.push(match l {
                            Some(_l) => _l,
                            None => L::max_value(),
                        });
                    }
                } else {
                    edge_vec.extend(neighbors.keys());
                }
''','''                if let Some(ref mut _edge_labels) = edge_labels {
                    _edge_labels.extend(neighbors.values().map(|l| l.unwrap_or(L::max_value())));
                }
                edge_vec.extend(neighbors.into_iter().map(|(n, _)| n));
                offset = edge_vec.len();
''')]),
('b14-st-range',[(G,'''        while Some(nid) <= max_nid {
            if let''','''        while max_nid.is_some() && nid <= max_nid.unwrap() {
            if let''')]),
('b14-ev-nb',[(EV,'''    fn degree(&self, node: Id) -> usize {
        assert!(self.has_node(node));
        let start = self.get_offsets()[node.id()].id();
        let end = self.get_offsets()[node.id() + 1].id();

        end - start
''','''    fn degree(&self, node: Id) -> usize {
        self.neighbors(node).len()
''')]),
('b14-ev-win',[(EV,'''        assert!(self.has_node(node));
        let start = self.get_offsets()[node.id()].id();
        let end = self.get_offsets()[node.id() + 1].id();

        &self.get_edges()[start..end]
''','''        assert!(self.has_node(node));
        let offsets = self.get_offsets();
        let (start, end) = (offsets[node.id()], offsets[node.id() + 1]);

        &self.get_edges()[start..end]
''')]),
('b14-ev-find',[(EV,'''            let neighbors = self.neighbors(start);
            let found = neighbors.binary_search(&target);
            match found {
                Err(_) => None,
                Ok(idx) => Some(self.get_offsets()[start.id()].id() + idx),
            }
''','''            self.neighbors(start)
                .binary_search(&target)
                .ok()
                .map(|idx| self.get_offsets()[start.id()] + idx)
''')]),
('b14-ev-and',[(EV,'''        let idx_opt = self.find_edge_index(start, target);
        match idx_opt {
            None => None,
            Some(idx) => labels.get(idx),
        }
''','''        self.find_edge_index(start, target)
            .and_then(|idx| labels.get(idx))
''')]),
('b14-ev-q',[(EV,'''        let labels = self.get_labels();

        if labels.is_empty() {
            return None;
        }

        let idx_opt = self.find_edge_index(start, target);
        match idx_opt {
            None => None,
            Some(idx) => labels.get(idx),
        }
''','''        let idx = self.find_edge_index(start, target)?;
        self.get_labels().get(idx)
''')]),
('b14-it-skip',[(IT,ITER,'''        loop {
            let id = Id::new(self.curr_node);
            if !self.edge_vec.has_node(id) {
                return None;
            }
            let row = self.edge_vec.neighbors(id);
            if self.curr_neighbor_index >= row.len() {
                self.curr_node += 1;
                self.curr_neighbor_index = 0;
                continue;
            }
            let neighbor = row[self.curr_neighbor_index];
            self.curr_neighbor_index += 1;
            if self.is_directed || neighbor >= id {
                return Some((id, neighbor));
            }
        }
'''),(IT,'''        let mut node: usize;
        let mut neighbors: &[Id];

''','')]),
('b14-it-unwrap',[(IT,'''                match neighbors.binary_search(&Id::new(node)) {
                    Ok(index) => {
                        self.curr_neighbor_index = index;
                        break;
                    }
                    Err(index) => {
                        if index < neighbors.len() {
                            self.curr_neighbor_index = index;
                            break;
                        } else {
                            self.curr_node += 1;
                            self.curr_neighbor_index = 0;
                        }
                    }
                }
''','''                let index = neighbors
                    .binary_search(&Id::new(node))
                    .unwrap_or_else(|index| index);
                if index < neighbors.len() {
                    self.curr_neighbor_index = index;
                    break;
                }
                self.curr_node += 1;
                self.curr_neighbor_index = 0;
''')]),
('b14-gi-nth',[(GI,'''    #[inline(always)]
    fn count(self)''','''    #[inline]
    fn nth(&mut self, n: usize) -> Option<T> {
        self.inner.nth(n)
    }

    #[inline(always)]
    fn count(self)''')]),
('b14-gi-last',[(GI,'''    #[inline(always)]
    fn count(self)''','''    #[inline]
    fn last(self) -> Option<T> {
        self.inner.last()
    }

    #[inline(always)]
    fn count(self)''')]),
('b14-dt-inc',[(DT,'''                    *self + 1
''','''                    <$type>::new(self.id() + 1)
''')]),
('b14-cs-target',[(CS,'''            let root = self.cc.get_root(start).unwrap();
            let label = graph.get_edge''','''            let root = self.cc.get_root(target).unwrap();
            let label = graph.get_edge''')]),
('b14-df-while',[(DF,'''            for neighbour in self.graph.neighbors_iter(current_node) {
                if self.discovered.contains(neighbour.id()) {
                    self.discovered.set(neighbour.id(), false);
                    self.stack.push(neighbour);
                }
            }
            Some(current_node)
''','''            let graph = self.graph;
            for &neighbour in graph.neighbors(current_node).iter() {
                if !self.discovered.contains(neighbour.id()) {
                    continue;
                }
                self.discovered.set(neighbour.id(), false);
                self.stack.push(neighbour);
            }
            Some(current_node)
''')]),
('b14-df-next',[(DF,'''        for node in self.discovered.ones() {
            if self.graph.has_node(Id::new(node)) {
                return Some(Id::new(node));
            }
        }
        None
''','''        self.discovered
            .ones()
            .map(Id::new)
            .find(|&id| self.graph.has_node(id))
''')]),
('b14-bf-idx',[(BF,'''        for node in self.discovered.ones() {
            if self.graph.has_node(Id::new(node)) {
                return Some(Id::new(node));
            }
        }
        None
''','''        let graph = self.graph;
        graph
            .node_indices()
            .find(|id| self.discovered.contains(id.id()))
''')]),
('b14-df-q',[(DF,'''        if let Some(current_node) = self.stack.pop() {
            for neighbour in self.graph.neighbors_iter(current_node) {
                if self.discovered.contains(neighbour.id()) {
                    self.discovered.set(neighbour.id(), false);
                    self.stack.push(neighbour);
                }
            }
            Some(current_node)
        } else {
            None
        }
''','''        let current_node = self.stack.pop()?;
        for neighbour in self.graph.neighbors_iter(current_node) {
            if self.discovered[neighbour.id()] {
                self.discovered.set(neighbour.id(), false);
                self.stack.push(neighbour);
            }
        }
        Some(current_node)
''')]),
('b14-sm-map',[(SM,'''        match self.labels.get_full(item) {
            Some((i, _)) => Some(i),
            None => None,
        }
''','''        self.labels.get_full(item).map(|(i, _)| i)
''')]),
('b14-sm-full',[(SM,'''        if self.labels.contains(&item) {
            self.labels.get_full(&item).unwrap().0
        } else {
            self.labels.insert(item);

            self.len() - 1
        }
''','''        self.labels.insert_full(item).0
''')]),
('b14-sm-find',[(SM,'''        if self.labels.contains(&item) {
            self.labels.get_full(&item).unwrap().0
        } else {
            self.labels.insert(item);

            self.len() - 1
        }
''','''        if let Some(index) = self.find_index(&item) {
            return index;
        }
        let index = self.labels.len();
        self.labels.insert(item);
        index
''')]),
('b14-vm-pos',[(VM,'''        for (i, elem) in self.labels.iter().enumerate() {
            if elem == item {
                return Some(i);
            }
        }

        None
''','''        self.labels.iter().position(|elem| elem == item)
''')]),
('b14-hp-choose',[(HP,'''    let labels = g.get_node_label_map();

    if labels.is_empty() {
        return None;
    }

    let random_index = rng.gen_range(0, labels.len());

    labels.get_item(random_index).cloned()
''','''    let labels = g.get_node_label_map();

    match labels.len() {
        0 => None,
        n => labels.get_item(rng.gen_range(0, n)).cloned(),
    }
''')]),
('b14-rn-filter',[(RN,'''    for (s, d) in complete_edge_pairs::<Ty>(n) {
        if rng.gen_range(0f32, 1f32) < p {
            let label = random_edge_label(&mut rng, &g);
            g.add_edge(Id::new(s), Id::new(d), label);
        }
    }
''','''    for (s, d) in complete_edge_pairs::<Ty>(n) {
        if rng.gen_range(0f32, 1f32) >= p {
            continue;
        }
        let label = random_edge_label(&mut rng, &g);
        g.add_edge(Id::new(s), Id::new(d), label);
    }
''')]),
('b14-rn-match',[(RN,'''    if let Ok(mut edges) = sampled_edges {
        for (s, d) in edges.drain(..) {
            let label = random_edge_label(&mut rng, &g);
            g.add_edge(Id::new(s), Id::new(d), label);
        }

        g
    } else {
        panic!("m is too large.");
    }
''','''    match sampled_edges {
        Ok(edges) => {
            for (s, d) in edges {
                let label = random_edge_label(&mut rng, &g);
                g.add_edge(Id::new(s), Id::new(d), label);
            }
        }
        Err(_) => panic!("m is too large."),
    }

    g
''')]),
('b14-im-eq',[(IM,'''        let s = s.to_lowercase();
        match s.as_ref() {
            "graphmap" => Ok(GraphImpl::GraphMap),
            "staticgraph" => Ok(GraphImpl::StaticGraph),
            "staticgraphmmap" => Ok(GraphImpl::StaicGraphMmap),
            _other => Err(format!("Unsupported implementation {:?}", _other)),
        }
''','''        let s = s.to_lowercase();
        if s == "graphmap" {
            return Ok(GraphImpl::GraphMap);
        }
        if s == "staticgraph" {
            return Ok(GraphImpl::StaticGraph);
        }
        if s == "staticgraphmmap" {
            return Ok(GraphImpl::StaicGraphMmap);
        }
        Err(format!("Unsupported implementation {:?}", s))
''')]),
('b14-gg-q',[(GG,'''        match self.get_edge(start, target).get_label_id() {
            Some(label_id) => self.get_edge_label_map().get_item(label_id.id()),
            None => None,
        }
''','''        let label_id = self.get_edge(start, target).get_label_id()?;
        self.get_edge_label_map().get_item(label_id.id())
''')]),
('b14-gg-len',[(GG,'''        self.node_labels().next().is_some()
''','''        self.num_of_node_labels() > 0
''')]),
('b14-gg-ctr',[(GG,'''        self.edges().filter_map(|e| e.get_label_id()).collect()
''','''        self.edges().flat_map(|e| e.get_label_id()).collect()
''')]),
('b14-mg-aux',[(MG,'''        let aux_file = if metadata(&aux_map_file).is_ok() {
            Deserializer::import(&aux_map_file).unwrap()
        } else {
            let num_node = edges.num_nodes();
            let num_edge = if in_edges.is_some() {
                edges.num_edges()
            } else {
                edges.num_edges() >> 1
            };

            StaticGraphMmapAux::empty(num_node, num_edge)
        };
''','''        let aux_file = if metadata(&aux_map_file).is_err() {
            let edge_cells = edges.num_edges();
            StaticGraphMmapAux::empty(
                edges.num_nodes(),
                match in_edges {
                    Some(_) => edge_cells,
                    None => edge_cells / 2,
                },
            )
        } else {
            Deserializer::import(&aux_map_file).unwrap()
        };
''')]),
('b14-mg-path',[(MG,'''        let in_edges = if metadata(&format!("{}.offsets", in_edge_prefix)).is_ok() {
            Some(EdgeVecMmap::new(&in_edge_prefix))
        } else {
            None
        };
''','''        let in_edges = match metadata(prefix.to_owned() + "_IN.offsets") {
            Ok(_) => Some(EdgeVecMmap::new(&in_edge_prefix)),
            Err(_) => None,
        };
''')]),
('b14-un-rev',[(UN,'''        for id in $graph1.node_indices() {
            $graph.add_node(id, $graph1.get_node_label(id).cloned());
        }
        for (src, dst) in $graph0.edge_indices() {
            $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());
        }
''','''        for (src, dst) in $graph0.edge_indices() {
            $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());
        }
        for id in $graph1.node_indices() {
            $graph.add_node(id, $graph1.get_node_label(id).cloned());
        }
''')]),
('b14-mi-order',[(MI,'''        for id in $graph1.node_indices() {
            $graph.remove_node(id);
        }
        for (src, dst) in $graph1.edge_indices() {
            $graph.remove_edge(src, dst);
        }
''','''        for (src, dst) in $graph1.edge_indices() {
            $graph.remove_edge(src, dst);
        }
        for id in $graph1.node_indices() {
            $graph.remove_node(id);
        }
''')]),
('b14-mi-filter',[(MI,'''        for (src, dst) in $graph0.edge_indices() {
            $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());
        }
''','''        for (src, dst) in $graph0.edge_indices() {
            if $graph1.has_edge(src, dst) {
                continue;
            }
            $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());
        }
''')]),
('b14-s-counts',[(S,'''        let num_nodes = if let Some(num) = num_nodes {
            if num != edges.num_nodes() {
                debug!(
                    "number of nodes ({}) does not match the length of edge vector ({})",
                    num,
                    edges.num_nodes()
                );
            }
            num
        } else {
            edges.num_nodes()
        };

        let num_edges = if let Some(num) = num_edges {
            num
        } else {
            if Ty::is_directed() {
                edges.num_edges()
            } else {
                edges.num_edges() >> 1
            }
        };

        TypedStaticGraph {
            num_nodes,
            num_edges,
            edge_vec: edges,
            in_edge_vec: in_edges,
            labels: None,
''','''        let num_nodes = num_nodes.unwrap_or(edges.num_nodes());
        let implied = match Ty::is_directed() {
            true => edges.num_edges(),
            false => edges.num_edges() / 2,
        };
        let num_edges = num_edges.unwrap_or(implied);

        TypedStaticGraph {
            num_nodes,
            num_edges,
            edge_vec: edges,
            in_edge_vec: in_edges,
            labels: None,
''')]),
('b14-s-deleg',[(S,'''    pub fn get_edge_vec(&self)''','''    pub fn edge_vec(&self) -> &EdgeVec<Id, L> {
        &self.edge_vec
    }

    #[inline]
    pub fn get_edge_vec(&self)''')]),
('b14-s-nodes',[(S,'''                let node_iter = self
                    .node_indices()
                    .zip(labels.iter())
                    .map(|n| NodeType::StaticNode(StaticNode::new_static(n.0, *n.1)));
''','''                let node_iter = self
                    .node_indices()
                    .map(move |id| NodeType::StaticNode(StaticNode::new_static(id, labels[id.id()])));
''')]),
('b14-s-edges',[(S,'''        let labels = self.edge_vec.get_labels();
        if labels.is_empty() {
            Iter::new(Box::new(
                self.edge_indices()
                    .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
            ))
        } else {
            Iter::new(Box::new(
                self.edge_indices().map(move |i| self.get_edge(i.0, i.1)),
            ))
        }
''','''        Iter::new(Box::new(
            self.edge_indices().map(move |(s, t)| self.get_edge(s, t)),
        ))
''')]),
('b14-s-node',[(S,'''        match self.labels {
            Some(ref labels) => NodeType::StaticNode(StaticNode::new_static(id, labels[id.id()])),
            None => NodeType::StaticNode(StaticNode::new(id, None)),
        }
''','''        let node = match self.labels.as_ref().map(|labels| labels[id.id()]) {
            Some(label) => StaticNode::new_static(id, label),
            None => StaticNode::new(id, None),
        };
        NodeType::StaticNode(node)
''')]),
('b14-s-indeg',[(S,'''        self.in_neighbors(id).len()
''','''        self.in_edge_vec.as_ref().unwrap().degree(id)
''')]),
('b14-n-some',[(N,'''        if self.has_in_neighbor(adj) {
            return false;
        }
        self.in_neighbors.insert(adj);

        true
''','''        self.in_neighbors.insert(adj)
''')]),
('b14-n-insert',[(N,'''        let mut result = false;
        let edge_label = self.neighbors.entry(adj).or_insert_with(|| {
            result = true;

            None
        });
        *edge_label = label;

        result
''','''        self.neighbors.insert(adj, label).is_none()
''')]),
('b14-n-filter',[(N,'''        Iter::new(Box::new(self.neighbors.range(self.id..).map(|(&id, _)| id)))
''','''        let nid = self.id;
        Iter::new(Box::new(
            self.neighbors.keys().cloned().filter(move |&n| n >= nid),
        ))
''')]),
('b14-n-full',[(N,'''                .range(self.get_id()..)
                .map(move |(&n, &l)| Edge::new(nid, n, l)),
''','''                .iter()
                .skip_while(move |&(&n, _)| n < nid)
                .map(move |(&n, &l)| Edge::new(nid, n, l)),
''')]),
('b14-ro-max',[(G,'''        let new_max_id = new_node_map.keys().max().map(|i| *i);
''','''        let new_max_id = new_node_map.keys().cloned().max();
''')]),
('b14-ro-map',[(G,'''            new_node_map.insert(new_node_id, new_node);
        }

        new_node_map.shrink_to_fit();
''','''            let old = new_node_map.insert(new_node_id, new_node);
            debug_assert!(old.is_none());
        }

        new_node_map.shrink_to_fit();
''')]),
('b14-ro-closure',[(G,'''            let new_node_id = if let Some(ref map) = node_id_map {
                Id::new(map.find_index(&node.id).unwrap())
            } else {
                node.id
            };
''','''            let new_node_id = match *node_id_map {
                Some(ref map) => Id::new(map.find_index(&node.id).unwrap()),
                None => node.id,
            };
''')]),
('b14-ro-fold',[(G,'''    for i in new_map.items() {
        let l = old_map_vec[i.id()].take().unwrap();
        result.add_item(l);
    }

    result
''','''    for i in new_map.items() {
        if let Some(l) = old_map_vec[i.id()].take() {
            result.add_item(l);
        }
    }

    result
''')]),
]
