# loops rewritten: counting loops, manual iteration, iterator chains, helpers
VM='src/map/vec_map.rs'; SM='src/map/set_map.rs'; CS='src/algorithm/conn_subgraphs.rs'; CC='src/algorithm/conn_comp.rs'
DF='src/algorithm/dfs.rs'; BF='src/algorithm/bfs.rs'; RD='src/io/csv/reader.rs'; WR='src/io/csv/writer.rs'; IM='src/io/mmap.rs'
G='src/graph_impl/graph_map/graph.rs'; SG='src/graph_impl/static_graph/graph.rs'; SI='src/graph_impl/static_graph/static_edge_iter.rs'
GR='src/graph_gen/random.rs'; GG='src/graph_gen/general.rs'; LS='src/io/ldbc/scheme.rs'; GN='src/generic/graph.rs'
B=[
dict(id='r3-vm-find-counter', edits=[(VM,"        for (i, elem) in self.labels.iter().enumerate() {\n            if elem == item {\n                return Some(i);\n            }\n        }\n","        let mut i = 0;\n        for elem in self.labels.iter() {\n            if elem == item {\n                return Some(i);\n            }\n            i += 1;\n        }\n")]),
dict(id='r3-vm-find-while', edits=[(VM,"        for (i, elem) in self.labels.iter().enumerate() {\n            if elem == item {\n                return Some(i);\n            }\n        }\n","        let mut i = 0;\n        while i < self.labels.len() {\n            if self.labels[i] == *item {\n                return Some(i);\n            }\n            i += 1;\n        }\n")]),
dict(id='r3-vm-find-pos', edits=[(VM,"        for (i, elem) in self.labels.iter().enumerate() {\n            if elem == item {\n                return Some(i);\n            }\n        }\n\n        None\n","        self.labels.iter().position(|elem| elem == item)\n")]),
dict(id='r3-vm-find-rangefind', edits=[(VM,"        for (i, elem) in self.labels.iter().enumerate() {\n            if elem == item {\n                return Some(i);\n            }\n        }\n\n        None\n","        (0..self.labels.len()).find(|&i| &self.labels[i] == item)\n")]),
dict(id='r3-vm-find-last', edits=[(VM,"        for (i, elem) in self.labels.iter().enumerate() {\n            if elem == item {\n                return Some(i);\n            }\n        }\n\n        None\n","        let mut found = None;\n        for (i, elem) in self.labels.iter().enumerate() {\n            if elem == item {\n                found = Some(i);\n                break;\n            }\n        }\n\n        found\n")]),
dict(id='r3-vm-fromiter', edits=[(VM,"        for i in iter {\n            map.add_item(i);\n        }\n","        let mut items = iter.into_iter();\n        while let Some(i) = items.next() {\n            map.add_item(i);\n        }\n")]),
dict(id='r3-vm-fromiter-fe', edits=[(VM,"        for i in iter {\n            map.add_item(i);\n        }\n\n        map\n","        iter.into_iter().for_each(|i| {\n            map.add_item(i);\n        });\n\n        map\n")]),
dict(id='r3-vm-fromiter-fold', edits=[(VM,"        let mut map = VecMap::new();\n\n        for i in iter {\n            map.add_item(i);\n        }\n\n        map\n","        iter.into_iter().fold(VecMap::new(), |mut map, i| {\n            map.add_item(i);\n            map\n        })\n")]),
dict(id='r3-sm-hash', edits=[(SM,"        for l in self.items() {\n            l.hash(state);\n        }\n","        self.items().for_each(|l| l.hash(state));\n")]),
dict(id='r3-sm-fromiter', edits=[(SM,"        for i in iter {\n            map.add_item(i);\n        }\n\n        map\n","        iter.into_iter().for_each(|i| {\n            map.add_item(i);\n        });\n\n        map\n")]),
dict(id='r3-cs-while', edits=[(CS,"        for index in 0..self.roots.len() {\n            if self.roots[index] == root {\n                return Some(index);\n            }\n        }\n        None\n","        let mut index = 0;\n        while index < self.roots.len() {\n            if self.roots[index] == root {\n                return Some(index);\n            }\n            index += 1;\n        }\n        None\n")]),
dict(id='r3-cs-pos', edits=[(CS,"        for index in 0..self.roots.len() {\n            if self.roots[index] == root {\n                return Some(index);\n            }\n        }\n        None\n","        self.roots.iter().position(|&r| r == root)\n")]),
dict(id='r3-cs-nodes-let', edits=[(CS,"                self.roots.push(root);\n                let length = self.subgraphs.len();\n                self.subgraphs[length - 1]\n                    .as_mut_graph()\n                    .unwrap()\n                    .add_node(id, label);\n","                self.roots.push(root);\n                self.subgraphs\n                    .last_mut()\n                    .unwrap()\n                    .as_mut_graph()\n                    .unwrap()\n                    .add_node(id, label);\n")]),
dict(id='r3-cs-nodes-dir', edits=[(CS,"                if graph.is_directed() {\n                    self.subgraphs.push(new_general_graphmap(true));\n                } else {\n                    self.subgraphs.push(new_general_graphmap(false));\n                }\n                self.roots.push(root);\n                let length = self.subgraphs.len();\n                self.subgraphs[length - 1]\n                    .as_mut_graph()\n                    .unwrap()\n                    .add_node(id, label);\n","                self.subgraphs.push(new_general_graphmap(graph.is_directed()));\n                self.roots.push(root);\n                let length = self.subgraphs.len();\n                self.subgraphs[length - 1]\n                    .as_mut_graph()\n                    .unwrap()\n                    .add_node(id, label);\n")]),
dict(id='r3-cs-nodes-build', edits=[(CS,"                if graph.is_directed() {\n                    self.subgraphs.push(new_general_graphmap(true));\n                } else {\n                    self.subgraphs.push(new_general_graphmap(false));\n                }\n                self.roots.push(root);\n                let length = self.subgraphs.len();\n                self.subgraphs[length - 1]\n                    .as_mut_graph()\n                    .unwrap()\n                    .add_node(id, label);\n","                let mut sub = new_general_graphmap(graph.is_directed());\n                sub.as_mut_graph().unwrap().add_node(id, label);\n                self.subgraphs.push(sub);\n                self.roots.push(root);\n")]),
dict(id='r3-df-find', edits=[(DF,"        for node in self.discovered.ones() {\n            if self.graph.has_node(Id::new(node)) {\n                return Some(Id::new(node));\n            }\n        }\n        None\n","        self.discovered\n            .ones()\n            .map(Id::new)\n            .find(|&id| self.graph.has_node(id))\n")]),
dict(id='r3-df-filter', edits=[(DF,"            for neighbour in self.graph.neighbors_iter(current_node) {\n                if self.discovered.contains(neighbour.id()) {\n                    self.discovered.set(neighbour.id(), false);\n                    self.stack.push(neighbour);\n                }\n            }\n","            for neighbour in self.graph.neighbors_iter(current_node) {\n                if !self.discovered.contains(neighbour.id()) {\n                    continue;\n                }\n                self.stack.push(neighbour);\n                self.discovered.set(neighbour.id(), false);\n            }\n")]),
dict(id='r3-df-question', edits=[(DF,"        if let Some(current_node) = self.stack.pop() {\n            for neighbour in self.graph.neighbors_iter(current_node) {\n                if self.discovered.contains(neighbour.id()) {\n                    self.discovered.set(neighbour.id(), false);\n                    self.stack.push(neighbour);\n                }\n            }\n            Some(current_node)\n        } else {\n            None\n        }\n","        let current_node = self.stack.pop()?;\n        for neighbour in self.graph.neighbors_iter(current_node) {\n            if self.discovered.contains(neighbour.id()) {\n                self.discovered.set(neighbour.id(), false);\n                self.stack.push(neighbour);\n            }\n        }\n        Some(current_node)\n")]),
dict(id='r3-df-whilelet', edits=[(DF,"            for neighbour in self.graph.neighbors_iter(current_node) {\n                if self.disc","            let mut neighbours = self.graph.neighbors_iter(current_node);\n            while let Some(neighbour) = neighbours.next() {\n                if self.disc")]),
dict(id='r3-rd-counter', edits=[(RD,"            for (i, result) in rdr.into_deserialize().enumerate() {\n                match result {\n                    Ok(_result) => {\n                        let record: NodeRecord","            let mut i = 0;\n            for result in rdr.into_deserialize() {\n                i += 1;\n                match result {\n                    Ok(_result) => {\n                        let record: NodeRecord"),(RD,'                        warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e)\n                    }\n                }\n            }\n        }\n\n        info!(\n            "Adding edges','                        warn!("Line {:?}: Error when reading csv: {:?}", i, e)\n                    }\n                }\n            }\n        }\n\n        info!(\n            "Adding edges')]),
dict(id='r3-rd-iflet', edits=[(RD,"            match result {\n                Ok(_result) => {\n                    let record: EdgeRecord<Id, EL> = _result;\n                    record.add_to_graph(g);\n                }\n                Err(e) => {\n                    if e.is_io_error() {\n                        return Err(e.into());\n                    }\n                    warn!(\"Line {:?}: Error when reading csv: {:?}\", i + 1, e)\n                }\n            }\n        }\n\n        Ok(())","            let record: EdgeRecord<Id, EL> = match result {\n                Ok(_result) => _result,\n                Err(e) => {\n                    if e.is_io_error() {\n                        return Err(e.into());\n                    }\n                    warn!(\"Line {:?}: Error when reading csv: {:?}\", i + 1, e);\n                    continue;\n                }\n            };\n            record.add_to_graph(g);\n        }\n\n        Ok(())")]),
dict(id='r3-rd-guard', edits=[(RD,"                Err(e) => {\n                    if e.is_io_error() {\n                        return Err(e.into());\n                    }\n                    warn!(\"Line {:?}: Error when reading csv: {:?}\", i + 1, e)\n                }\n            }\n        }\n\n        Ok(())","                Err(ref e) if !e.is_io_error() => {\n                    warn!(\"Line {:?}: Error when reading csv: {:?}\", i + 1, e)\n                }\n                Err(e) => return Err(e.into()),\n            }\n        }\n\n        Ok(())")]),
dict(id='r3-wr-whilelet', edits=[(WR,"        for id in self.g.node_indices() {\n            wtr.serialize","        let mut ids = self.g.node_indices();\n        while let Some(id) = ids.next() {\n            wtr.serialize")]),
dict(id='r3-wr-try', edits=[(WR,"        for id in self.g.node_indices() {\n            wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;\n        }\n        wtr.flush()?;","        self.g\n            .node_indices()\n            .try_for_each(|id| wtr.serialize(NodeRecord::new(id, g.get_node_label(id))))?;\n        wtr.flush()?;")]),
dict(id='r3-wr-label-let', edits=[(WR,"            wtr.serialize(EdgeRecord::new(\n                start,\n                target,\n                g.get_edge_label(start, target),\n            ))?;\n","            let label = g.get_edge_label(start, target);\n            let record = EdgeRecord::new(start, target, label);\n            wtr.serialize(record)?;\n")]),
dict(id='r3-im-loop', edits=[(IM,"    while !slice.is_empty() {\n","    loop {\n        if slice.is_empty() {\n            break;\n        }\n")]),
dict(id='r3-im-chunks', edits=[(IM,"    let mut slice = typed_as_byte_slice(data);\n\n    while !slice.is_empty() {\n        let to_write = if slice.len() < 10000 {\n            slice.len()\n        } else {\n            10000\n        };\n        writer.write_all(&slice[..to_write])?;\n        slice = &slice[to_write..];\n    }\n","    for chunk in typed_as_byte_slice(data).chunks(10000) {\n        writer.write_all(chunk)?;\n    }\n")]),
dict(id='r3-im-splitat', edits=[(IM,"        writer.write_all(&slice[..to_write])?;\n        slice = &slice[to_write..];\n","        let (head, tail) = slice.split_at(to_write);\n        writer.write_all(head)?;\n        slice = tail;\n")]),
dict(id='r3-g-remove-whilelet', edits=[(G,"                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {\n                        let nodemap = self.node_map.get_mut(&neighbor).unwrap();\n                        nodemap.remove_in_edge(id);\n                    }\n","                    let mut out = node.neighbors_iter();\n                    while let Some(neighbor) = out.next() {\n                        if neighbor != id {\n                            let nodemap = self.node_map.get_mut(&neighbor).unwrap();\n                            nodemap.remove_in_edge(id);\n                        }\n                    }\n")]),
dict(id='r3-g-remove-iflet', edits=[(G,"                    for in_neighbor in node.in_neighbors_iter().filter(|&n| n != id) {\n                        let nodemap = self.node_map.get_mut(&in_neighbor).unwrap();\n                        nodemap.remove_edge(id);\n                    }\n","                    for in_neighbor in node.in_neighbors_iter() {\n                        if in_neighbor == id {\n                            continue;\n                        }\n                        if let Some(nodemap) = self.node_map.get_mut(&in_neighbor) {\n                            nodemap.remove_edge(id);\n                        }\n                    }\n")]),
dict(id='r3-g-remove-count', edits=[(G,"                self.num_of_edges -= node.degree() + node.in_degree();\n                if node.has_in_neighbor(id) {\n                    // A self-loop is both an out-edge and an in-edge.\n                    self.num_of_edges += 1;\n                }\n","                let loops = if node.has_in_neighbor(id) { 1 } else { 0 };\n                self.num_of_edges -= node.degree() + node.in_degree() - loops;\n")]),
dict(id='r3-g-reorder-map-while', edits=[(G,"    for i in new_map.items() {\n        let l = old_map_vec[i.id()].take().unwrap();\n        result.add_item(l);\n    }\n","    let mut items = new_map.items();\n    while let Some(i) = items.next() {\n        let l = old_map_vec[i.id()].take().unwrap();\n        result.add_item(l);\n    }\n")]),
dict(id='r3-g-tostatic-unwrapor', edits=[(G,"                        _edge_labels.push(match l {\n                            Some(_l) => _l,\n                            None => L::max_value(),\n                        });\n","                        _edge_labels.push(l.unwrap_or_else(L::max_value));\n")]),
dict(id='r3-g-tostatic-inext', edits=[(G,"                    let in_neighbors = mem::replace(&mut node.in_neighbors, BTreeSet::new());\n\n                    *_in_offset += in_neighbors.len();\n                    _in_edge_vec.extend(in_neighbors);\n","                    let in_neighbors = mem::take(&mut node.in_neighbors);\n\n                    *_in_offset += in_neighbors.len();\n                    for n in in_neighbors {\n                        _in_edge_vec.push(n);\n                    }\n")]),
dict(id='r3-g-tostatic-label', edits=[(G,"                    match node.label {\n                        Some(label) => _node_labels.push(label),\n                        None => _node_labels.push(L::max_value()),\n                    }\n","                    let label = node.label.unwrap_or(L::max_value());\n                    _node_labels.push(label);\n")]),
dict(id='r3-sg-nodes-map', edits=[(SG,"                let node_iter = self\n                    .node_indices()\n                    .zip(labels.iter())\n                    .map(|n| NodeType::StaticNode(StaticNode::new_static(n.0, *n.1)));\n","                let node_iter = self\n                    .node_indices()\n                    .zip(labels.iter())\n                    .map(|(id, &label)| NodeType::StaticNode(StaticNode::new_static(id, label)));\n")]),
dict(id='r3-sg-nodes-getnode', edits=[(SG,"                let node_iter = self\n                    .node_indices()\n                    .zip(labels.iter())\n                    .map(|n| NodeType::StaticNode(StaticNode::new_static(n.0, *n.1)));\n","                let node_iter = self.node_indices().map(move |id| {\n                    NodeType::StaticNode(StaticNode::new_static(id, labels[id.id()]))\n                });\n")]),
dict(id='r3-sg-edges-if', edits=[(SG,"        let labels = self.edge_vec.get_labels();\n        if labels.is_empty() {\n            Iter::new(Box::new(\n                self.edge_indices()\n                    .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),\n            ))\n        } else {\n            Iter::new(Box::new(\n                self.edge_indices().map(move |i| self.get_edge(i.0, i.1)),\n            ))\n        }\n","        let unlabeled = self.edge_vec.get_labels().len() == 0;\n        Iter::new(Box::new(self.edge_indices().map(move |(s, t)| {\n            if unlabeled {\n                EdgeType::Edge(Edge::new(s, t, None))\n            } else {\n                self.get_edge(s, t)\n            }\n        })))\n")]),
dict(id='r3-sg-dump-stale', edits=[(SG,'            for part in &["offsets", "edges", "labels"] {\n                remove_stale(format!("{}.{}", in_edges_prefix, part))?;\n            }\n','            remove_stale(format!("{}.offsets", in_edges_prefix))?;\n            remove_stale(format!("{}.edges", in_edges_prefix))?;\n            remove_stale(format!("{}.labels", in_edges_prefix))?;\n')]),
dict(id='r3-si-peel', edits=[(SI,"        let neighbor = neighbors[self.curr_neighbor_index];\n        let edge = (Id::new(node), neighbor);\n        self.curr_neighbor_index += 1;\n\n        Some(edge)\n","        let index = self.curr_neighbor_index;\n        self.curr_neighbor_index = index + 1;\n\n        Some((Id::new(node), neighbors[index]))\n")]),
dict(id='r3-si-ok', edits=[(SI,"                    Err(index) => {\n                        if index < neighbors.len() {\n                            self.curr_neighbor_index = index;\n                            break;\n                        } else {\n                            self.curr_node += 1;\n                            self.curr_neighbor_index = 0;\n                        }\n                    }\n","                    Err(index) if index < neighbors.len() => {\n                        self.curr_neighbor_index = index;\n                        break;\n                    }\n                    Err(_) => {\n                        self.curr_node += 1;\n                        self.curr_neighbor_index = 0;\n                    }\n")]),
dict(id='r3-si-else', edits=[(SI,"            if !self.is_directed && neighbors[self.curr_neighbor_index] < Id::new(node) {\n                match","            if self.is_directed || neighbors[self.curr_neighbor_index] >= Id::new(node) {\n                break;\n            } else {\n                match"),(SI,"                    }\n                }\n            } else {\n                break;\n            }\n","                    }\n                }\n            }\n")]),
dict(id='r3-gr-gnp-fe', edits=[(GR,"    for (s, d) in complete_edge_pairs::<Ty>(n) {\n        if rng.gen_range(0f32, 1f32) < p {\n            let label = random_edge_label(&mut rng, &g);\n            g.add_edge(Id::new(s), Id::new(d), label);\n        }\n    }\n","    complete_edge_pairs::<Ty>(n).for_each(|(s, d)| {\n        if rng.gen_range(0f32, 1f32) < p {\n            let label = random_edge_label(&mut rng, &g);\n            g.add_edge(Id::new(s), Id::new(d), label);\n        }\n    });\n")]),
dict(id='r3-gr-gnm-into', edits=[(GR,"    if let Ok(mut edges) = sampled_edges {\n        for (s, d) in edges.drain(..) {","    if let Ok(edges) = sampled_edges {\n        for (s, d) in edges {")]),
dict(id='r3-gr-gnm-match', edits=[(GR,"    if let Ok(mut edges) = sampled_edges {\n        for (s, d) in edges.drain(..) {\n            let label = random_edge_label(&mut rng, &g);\n            g.add_edge(Id::new(s), Id::new(d), label);\n        }\n\n        g\n    } else {\n        panic!(\"m is too large.\");\n    }\n","    let edges = match sampled_edges {\n        Ok(edges) => edges,\n        Err(_) => panic!(\"m is too large.\"),\n    };\n\n    for (s, d) in edges.into_iter() {\n        let label = random_edge_label(&mut rng, &g);\n        g.add_edge(Id::new(s), Id::new(d), label);\n    }\n\n    g\n")]),
dict(id='r3-ls-refs', edits=[(LS,"        for node in self.nodes.iter() {\n            for path in files_in_dir.iter() {\n","        for node in &self.nodes {\n            for path in &files_in_dir {\n")]),
dict(id='r3-ls-filter', edits=[(LS,"            for path in files_in_dir.iter() {\n                if node.is_match(path) {\n                    info!(\"Reading file '{}'\", path.to_str().unwrap());\n\n                    let mut rdr = ReaderBuilder::new()\n                        .delimiter(self.delimiter)\n                        .from_path(path.clone())?;\n\n                    for result in rdr.records() {\n                        let record = result?;\n\n                        node.add_node::<Id, Ty>(record, &mut g, &mut node_id_map);\n                    }\n                }\n            }\n","            for path in files_in_dir.iter().filter(|p| node.is_match(p)) {\n                info!(\"Reading file '{}'\", path.to_str().unwrap());\n\n                let mut rdr = ReaderBuilder::new()\n                    .delimiter(self.delimiter)\n                    .from_path(path)?;\n\n                for result in rdr.records() {\n                    node.add_node::<Id, Ty>(result?, &mut g, &mut node_id_map);\n                }\n            }\n")]),
dict(id='r3-ls-continue', edits=[(LS,"                if relation.is_match(path) {\n                    info!(\"Reading file '{}'\", path.to_str().unwrap());\n\n                    let mut rdr = ReaderBuilder::new()\n                        .delimiter(self.delimiter)\n                        .from_path(path.clone())?;\n\n                    for result in rdr.records() {\n                        let record = result?;\n\n                        relation.add_edge::<Id, Ty>(record, &mut g, &mut node_id_map);\n                    }\n                }\n","                if !relation.is_match(path) {\n                    continue;\n                }\n                info!(\"Reading file '{}'\", path.to_str().unwrap());\n\n                let mut rdr = ReaderBuilder::new()\n                    .delimiter(self.delimiter)\n                    .from_path(path)?;\n\n                for result in rdr.records() {\n                    let record = result?;\n\n                    relation.add_edge::<Id, Ty>(record, &mut g, &mut node_id_map);\n                }\n")]),
dict(id='r3-ls-files-helper', edits=[(LS,"            let dir = entry?;\n            let path = dir.path();\n            if path.is_file() {\n                files_in_dir.push(path);\n            }\n","            let path = entry?.path();\n            if !path.is_file() {\n                continue;\n            }\n            files_in_dir.push(path);\n")]),
dict(id='r3-cc-root-loop', edits=[(CC,"        while self.parent().get(&node) != Some(&node) {\n            let p = self.parent()[&node];\n            let pp = self.parent()[&p];\n\n            self.mut_parent().insert(node, pp);\n            node = pp;\n        }\n","        loop {\n            let p = self.parent()[&node];\n            if p == node {\n                break;\n            }\n            let pp = self.parent()[&p];\n\n            self.mut_parent().insert(node, pp);\n            node = pp;\n        }\n")]),
dict(id='r3-cc-nodes-filter', edits=[(CC,"            for key in self.parent().keys() {\n                keys.push(*key);\n            }\n\n            for n in keys {\n                if self.get_root(n) == root_id {\n                    result.push(n);\n                }\n            }\n            Some(result)\n","            keys.extend(self.parent().keys());\n\n            for n in keys {\n                if self.get_root(n) != root_id {\n                    continue;\n                }\n                result.push(n);\n            }\n            Some(result)\n")]),
dict(id='r3-cc-nodes-idx', edits=[(CC,"            for n in keys {\n                if self.get_root(n) == root_id {\n                    result.push(n);\n                }\n            }\n            Some(result)\n","            let mut i = 0;\n            while i < keys.len() {\n                let n = keys[i];\n                if self.get_root(n) == root_id {\n                    result.push(n);\n                }\n                i += 1;\n            }\n            Some(result)\n")]),
dict(id='r3-gg-rangemap', edits=[(GG,"    for i in 0..n {\n        let label = random_node_label(&mut rng, &g);\n        g.add_node(Id::new(i), label);\n    }\n","    for id in (0..n).map(Id::new) {\n        let label = random_node_label(&mut rng, &g);\n        g.add_node(id, label);\n    }\n")]),
dict(id='r3-gn-eq-all', edits=[(GN,"    for n in g.node_indices() {\n","    let mut ids = g.node_indices();\n    while let Some(n) = ids.next() {\n")]),
]
B=[(d['id'],d['edits']) for d in B]
