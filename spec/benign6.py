G='src/graph_impl/graph_map/graph.rs'; N='src/graph_impl/graph_map/node.rs'; EV='src/graph_impl/static_graph/edge_vec.rs'
GU='src/algorithm/graph_union.rs'; GMI='src/algorithm/graph_minus.rs'; CC='src/algorithm/conn_comp.rs'; IT='src/generic/iter.rs'
SEI='src/graph_impl/static_graph/static_edge_iter.rs'; SGR='src/graph_impl/static_graph/graph.rs'; GI='src/graph_impl/mod.rs'; GG='src/generic/graph.rs'
SM='src/map/set_map.rs'; BFS='src/algorithm/bfs.rs'; DT='src/generic/dtype.rs'
B=[
 ('b6-fe-last', [(G, "        for (src, dst) in edges {\n            g.add_node", "        let mut last = None;\n        for (src, dst) in edges {\n            if last == Some((src, dst)) {\n                continue;\n            }\n            last = Some((src, dst));\n            g.add_node")]),
 ('b6-fe-while', [(G, "        for (src, dst) in edges {\n            g.add_node", "        let mut edges = edges.into_iter();\n        while let Some((src, dst)) = edges.next() {\n            g.add_node")]),
 ('b6-it-nth', [(IT, "    #[inline(always)]\n    fn count(self) -> usize {\n", "    #[inline]\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        for _ in 0..n {\n            self.inner.next()?;\n        }\n        self.inner.next()\n    }\n\n    #[inline(always)]\n    fn count(self) -> usize {\n")]),
 ('b6-it-last', [(IT, "    #[inline(always)]\n    fn count(self) -> usize {\n", "    #[inline]\n    fn last(mut self) -> Option<Self::Item> {\n        let mut last = None;\n        while let Some(x) = self.inner.next() {\n            last = Some(x);\n        }\n        last\n    }\n\n    #[inline(always)]\n    fn count(self) -> usize {\n")]),
 ('b6-gm-once', [(GMI, "        for (src, dst) in $graph0.edge_indices() {\n            $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());\n        }\n        for id in $graph1.node_indices() {\n            $graph.remove_node(id);\n        }\n        for (src, dst) in $graph1.edge_indices() {\n            $graph.remove_edge(src, dst);\n        }", "        for (src, dst) in $graph0.edge_indices() {\n            if !$graph1.has_edge(src, dst) && !$graph1.has_node(src) && !$graph1.has_node(dst) {\n                $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());\n            }\n        }\n        for id in $graph1.node_indices() {\n            $graph.remove_node(id);\n        }")]),
 ('b6-gm-noedges', [(GMI, "        for (src, dst) in $graph1.edge_indices() {\n            $graph.remove_edge(src, dst);\n        }", "")]),
 ('b6-gm-filter', [(GMI, "        for id in $graph0.node_indices() {\n            $graph.add_node", "        for id in $graph0.node_indices().filter(|&i| !$graph1.has_node(i)) {\n            $graph.add_node")]),
 ('b6-gu-edges', [(GU, "        for (src, dst) in $graph1.edge_indices() {\n            $graph.add_edge(src, dst, $graph1.get_edge_label(src, dst).cloned());\n        }", "        for edge in $graph1.edges() {\n            let (src, dst) = (edge.get_start(), edge.get_target());\n            let label = $graph1.get_edge_label(src, dst).cloned();\n            $graph.add_edge(src, dst, label);\n        }")]),
 ('b6-gu-order', [(GU, "        for id in $graph1.node_indices() {\n            $graph.add_node(id, $graph1.get_node_label(id).cloned());\n        }\n        for (src, dst) in $graph0.edge_indices() {\n            $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());\n        }", "        for (src, dst) in $graph0.edge_indices() {\n            $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());\n        }\n        for id in $graph1.node_indices() {\n            $graph.add_node(id, $graph1.get_node_label(id).cloned());\n        }")]),
 ('b6-cc-newflags', [(CC, "        if !self.parent().contains_key(&x) {\n            self.mut_parent().insert(x, x);\n            self.count += 1;\n        }\n\n        if !self.parent().contains_key(&y) {\n            self.mut_parent().insert(y, y);\n            self.count += 1;\n        }\n", "        let new_x = !self.parent().contains_key(&x);\n        let new_y = x != y && !self.parent().contains_key(&y);\n        self.mut_parent().entry(x).or_insert(x);\n        self.mut_parent().entry(y).or_insert(y);\n        self.count += new_x as usize + new_y as usize;\n")]),
 ('b6-cc-lens', [(CC, "        for node in graph.node_indices() {\n            if !self.parent().contains_key(&node) {\n                self.mut_parent().insert(node, node);\n                self.count += 1;\n            }\n        }\n", "        let known = self.parent().len();\n        for node in graph.node_indices() {\n            if !self.parent().contains_key(&node) {\n                self.mut_parent().insert(node, node);\n            }\n        }\n        let nodes = self.parent().len();\n        self.count += nodes - known;\n")]),
 ('b6-cc-drop', [(CC, "            let p = self.parent()[&node];\n            let pp = self.parent()[&p];\n\n            self.mut_parent()", "            let table = self.parent();\n            let p = table[&node];\n            let pp = table[&p];\n            drop(table);\n\n            self.mut_parent()")]),
 ('b6-n-get', [(N, "        self.neighbors.get(&id).map(|x| *x)\n", "        self.neighbors.get(&id).cloned()\n")]),
 ('b6-n-insert', [(N, "        if self.has_in_neighbor(adj) {\n            return false;\n        }\n        self.in_neighbors.insert(adj);\n\n        true\n", "        self.in_neighbors.insert(adj)\n")]),
 ('b6-n-full', [(N, "        Iter::new(Box::new(\n            self.neighbors\n                .range(self.get_id()..)\n                .map(move |(&n, &l)| Edge::new(nid, n, l)),\n        ))\n", "        Iter::new(Box::new(\n            self.neighbors_iter_full().filter(move |e| !(::generic::EdgeTrait::get_target(e) < nid)),\n        ))\n")]),
 ('b6-ev-find', [(EV, "            let neighbors = self.neighbors(start);\n            let found = neighbors.binary_search(&target);\n            match found {\n                Err(_) => None,\n                Ok(idx) => Some(self.get_offsets()[start.id()].id() + idx),\n            }\n", "            let from = self.get_offsets()[start.id()];\n            let to = self.get_offsets()[start.id() + 1];\n            self.get_edges()[from..to]\n                .binary_search(&target)\n                .ok()\n                .map(|idx| from + idx)\n")]),
 ('b6-ev-pos', [(EV, "            let found = neighbors.binary_search(&target);\n            match found {\n                Err(_) => None,\n                Ok(idx) => Some(self.get_offsets()[start.id()].id() + idx),\n            }\n", "            neighbors\n                .iter()\n                .position(|&n| n == target)\n                .map(|idx| self.get_offsets()[start.id()].id() + idx)\n")]),
 ('b6-ev-label', [(EV, "        let labels = self.get_labels();\n\n        if labels.is_empty() {\n            return None;\n        }\n\n        let idx_opt = self.find_edge_index(start, target);\n        match idx_opt {\n            None => None,\n            Some(idx) => labels.get(idx),\n        }\n", "        let idx = self.find_edge_index(start, target)?;\n        self.get_labels().get(idx)\n")]),
 ('b6-gg-label', [(GG, "        match self.get_node(node_id).get_label_id() {\n            Some(label_id) => self.get_node_label_map().get_item(label_id.id()),\n            None => None,\n        }\n", "        let labels = self.get_node_label_map();\n        self.get_node(node_id)\n            .get_label_id()\n            .and_then(|label_id| labels.get_item(label_id.id()))\n")]),
 ('b6-g-max', [(G, "        match self.max_id {\n            Some(i) => {\n                if i < id {\n                    self.max_id = Some(id)\n                }\n            }\n            None => self.max_id = Some(id),\n        }\n", "        self.max_id = Some(self.max_id.map_or(id, |i| if i < id { id } else { i }));\n")]),
 ('b6-g-max2', [(G, "        match self.max_id {\n            Some(i) => {\n                if i < id {\n                    self.max_id = Some(id)\n                }\n            }\n            None => self.max_id = Some(id),\n        }\n", "        if self.max_id.map_or(true, |i| i < id) {\n            self.max_id = Some(id);\n        }\n")]),
 ('b6-g-remove-turned', [(G, "        } else {\n            let nodemap = self.node_map.get_mut(&target).unwrap();\n            nodemap.remove_edge(start);\n        }\n\n        self.num", "        } else if start != target {\n            let nodemap = self.node_map.get_mut(&target).unwrap();\n            nodemap.remove_edge(start);\n        }\n\n        self.num")]),
 ('b6-g-edge-known', [(G, "        if !self.has_node(start) {\n            self.add_node(start, None);\n        }\n        if !self.has_node(target) {\n            self.add_node(target, None);\n        }\n\n        let label_id", "        let known = self.has_edge(start, target);\n        if !known {\n            for &end in [start, target].iter() {\n                if !self.has_node(end) {\n                    self.add_node(end, None);\n                }\n            }\n        }\n\n        let label_id")]),
 ('b6-gi-trim', [(GI, "        let s = s.to_lowercase();\n        match s.as_ref() {\n", "        let name = s.to_lowercase();\n        match &name[..] {\n")]),
 ('b6-g-eq-labels', [(G, "        for n in self.node_indices() {\n            if !other.has_node(n) || self.get_node_label(n) != other.get_node_label(n) {\n                return false;\n            }\n        }\n", "        let same_nodes = self\n            .node_indices()\n            .all(|n| other.has_node(n) && self.get_node_label(n) == other.get_node_label(n));\n        if !same_nodes {\n            return false;\n        }\n")]),
 ('b6-sg-in-labels', [(SGR, "        if let Some(ref mut e) = self.in_edge_vec.as_mut() {\n            e.remove_labels()\n        }\n    }\n\n    #[inline]\n    pub fn remove_labels", "        self.in_edge_vec.iter_mut().for_each(|e| e.remove_labels());\n    }\n\n    #[inline]\n    pub fn remove_labels")]),
 ('b6-sm-add', [(SM, "        if self.labels.contains(&item) {\n            self.labels.get_full(&item).unwrap().0\n        } else {\n            self.labels.insert(item);\n\n            self.len() - 1\n        }\n", "        if let Some((index, _)) = self.labels.get_full(&item) {\n            return index;\n        }\n        let index = self.len();\n        self.labels.insert(item);\n        index\n")]),
 ('b6-bfs-queue', [(BFS, "        if self.queue.len() == 0 {\n            if let Some(id) = self.next_unvisited_node() {\n                self.queue.push_back(id);\n                self.discovered.set(id.id(), false);\n            }\n        }\n\n        if let Some(current_node) = self.queue.pop_front() {\n", "        let next = self.queue.pop_front().or_else(|| {\n            let id = self.next_unvisited_node()?;\n            Some(id)\n        });\n        if let Some(current_node) = next {\n            self.discovered.set(current_node.id(), false);\n")]),
 ('b6-reorder-max', [(G, "        let new_max_id = new_node_map.keys().max().map(|i| *i);\n", "        let mut new_max_id = None;\n        for &id in new_node_map.keys() {\n            if new_max_id.map_or(true, |m| m < id) {\n                new_max_id = Some(id);\n            }\n        }\n")]),
]
