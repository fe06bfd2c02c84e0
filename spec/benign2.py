SG='src/graph_impl/static_graph/graph.rs'; MG='src/graph_impl/static_graph/mmap/graph_mmap.rs'; ME='src/graph_impl/static_graph/mmap/edge_vec_mmap.rs'
IM='src/io/mmap.rs'; SE='src/io/serde.rs'; RD='src/io/csv/reader.rs'; RC='src/io/csv/record.rs'; WR='src/io/csv/writer.rs'; CM='src/io/csv/mod.rs'
LS='src/io/ldbc/scheme.rs'; LN='src/io/ldbc/node.rs'; LR='src/io/ldbc/relation.rs'; GG='src/graph_gen/general.rs'; GH='src/graph_gen/helper.rs'; GR='src/graph_gen/random.rs'
UN='src/algorithm/graph_union.rs'; MI='src/algorithm/graph_minus.rs'; DT='src/generic/dtype.rs'; ED='src/generic/edge.rs'; IT='src/generic/iter.rs'; NO='src/generic/node.rs'
B=[]
def b(id,*e): B.append(('r2-'+id,list(e)))
b('sg-eq-zip',(SG,"""        for n in self.node_indices() {
            if !other.has_node(n) || self.get_node_label(n) != other.get_node_label(n) {
                return false;
            }
        }

        for (s, d) in self.edge_indices() {
            if !other.has_edge(s, d) || self.get_edge_label(s, d) != other.get_edge_label(s, d) {
                return false;
            }
        }

        true
""","""        let nodes_agree = self
            .node_indices()
            .all(|n| other.has_node(n) && self.get_node_label(n) == other.get_node_label(n));
        if !nodes_agree {
            return false;
        }

        for edge in self.edge_indices() {
            let (s, d) = edge;
            if other.has_edge(s, d) {
                if self.get_edge_label(s, d) != other.get_edge_label(s, d) {
                    return false;
                }
            } else {
                return false;
            }
        }

        true
"""))
b('sg-eq-swap',(SG,"""        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
            return false;
        }
""","""        let same_counts =
            self.edge_count() == other.edge_count() && other.node_count() == self.node_count();
        if !same_counts {
            return false;
        }
"""))
b('sg-hash-plain',(SG,"""            let edges = self.edge_indices().sorted();
            edges.hash(state);
            let edge_labels = edges
                .into_iter()
                .map(|(s, d)| self.get_edge_label(s, d))
                .collect_vec();
            edge_labels.hash(state);
""","""            let mut edges: Vec<(Id, Id)> = self.edge_indices().collect();
            edges.sort();
            edges.hash(state);
            let mut edge_labels = Vec::with_capacity(edges.len());
            for (s, d) in edges {
                edge_labels.push(self.get_edge_label(s, d));
            }
            edge_labels.hash(state);
"""))
b('sg-hash-iter',(SG,"""            let node_labels = nodes
                .into_iter()
                .map(|n| self.get_node_label(n))
                .collect_vec();
            node_labels.hash(state);
""","""            let node_labels: Vec<_> = nodes.iter().map(|&n| self.get_node_label(n)).collect();
            node_labels.hash(state);
"""))
b('sg-new-helper',(SG,"""        let num_edges = if let Some(num) = num_edges {
            num
        } else {
            if Ty::is_directed() {
                edges.num_edges()
            } else {
                edges.num_edges() >> 1
            }
        };

        TypedStaticGraph {
            num_nodes,
            num_edges,
            edge_vec: edges,
            in_edge_vec: in_edges,
            labels: None,
""","""        let num_edges = num_edges.unwrap_or_else(|| {
            let stored = edges.num_edges();
            if Ty::is_directed() {
                stored
            } else {
                stored / 2
            }
        });

        TypedStaticGraph {
            num_nodes,
            num_edges,
            edge_vec: edges,
            in_edge_vec: in_edges,
            labels: None,
"""))
b('sg-labels-via-raw',(SG,"""        if num_nodes != labels.len() {
            debug!("{} nodes, but {} labels", num_nodes, labels.len());
        }

        TypedStaticGraph {
            num_nodes,
            num_edges,
            edge_vec: edges,
            in_edge_vec: in_edges,
            labels: Some(labels),
            node_label_map,
            edge_label_map,
            graph_type: PhantomData,
        }
""","""        Self::from_raw(
            num_nodes,
            num_edges,
            edges,
            in_edges,
            Some(labels),
            node_label_map,
            edge_label_map,
        )
"""))
b('sg-new-match',(SG,"""    ) -> Self {
        if Ty::is_directed() {
            if in_edges.is_none() {
                panic!("In edges should be provided for directed graph.");
            }

            let num_of_in_edges = in_edges.as_ref().unwrap().num_edges();
            let num_of_out_edges = edges.num_edges();
            if num_of_in_edges != num_of_out_edges {
                debug!(
                    "{} out edges but {} in edges.",
                    num_of_out_edges, num_of_in_edges
                );
            }
        }

        let num_nodes = if let Some(num) = num_nodes {
            if num != edges.num_nodes() {
                debug!(
                    "number of nodes ({}) does not match the length of edge vector ({})",
                    num,
                    edges.num_nodes()
                );
            }
            num
        } else {
            edges.num_nodes()
        };

        let num_edges = if let Some(num) = num_edges {
            num
        } else {
            if Ty::is_directed() {
                edges.num_edges()
            } else {
                edges.num_edges() >> 1
            }
        };

        TypedStaticGraph {
            num_nodes,
            num_edges,
            edge_vec: edges,
            in_edge_vec: in_edges,
            labels: None,
""","""    ) -> Self {
        if Ty::is_directed() {
            match in_edges {
                Some(ref ins) => {
                    if ins.num_edges() != edges.num_edges() {
                        debug!(
                            "{} out edges but {} in edges.",
                            edges.num_edges(),
                            ins.num_edges()
                        );
                    }
                }
                None => panic!("In edges should be provided for directed graph."),
            }
        }

        let num_nodes = num_nodes.unwrap_or(edges.num_nodes());

        let num_edges = match num_edges {
            Some(num) => num,
            None if Ty::is_directed() => edges.num_edges(),
            None => edges.num_edges() >> 1,
        };

        TypedStaticGraph {
            num_nodes,
            num_edges,
            edge_vec: edges,
            in_edge_vec: in_edges,
            labels: None,
"""))
b('sg-remove-labels',(SG,"""        self.edge_vec.remove_labels();
        self.edge_label_map = SetMap::new();
        if let Some(ref mut e) = self.in_edge_vec.as_mut() {
            e.remove_labels()
        }
""","""        if let Some(ref mut in_edge_vec) = self.in_edge_vec {
            in_edge_vec.remove_labels();
        }
        self.edge_vec.remove_labels();
        self.edge_label_map = SetMap::default();
"""),(SG,"""        self.remove_node_labels();
        self.remove_edge_labels();
""","""        self.remove_edge_labels();
        self.remove_node_labels();
"""))
b('sg-remove-take',(SG,"""        self.labels = None;
        self.node_label_map = SetMap::new();
""","""        self.labels.take();
        ::std::mem::replace(&mut self.node_label_map, SetMap::new());
"""))
b('sg-shrink',(SG,"""        if let Some(ref mut in_edge_vec) = self.in_edge_vec {
            in_edge_vec.shrink_to_fit();
        }
        if let Some(ref mut labels) = self.labels {
            labels.shrink_to_fit();
        }
""","""        if let Some(labels) = self.labels.as_mut() {
            labels.shrink_to_fit();
        }
        for in_edge_vec in self.in_edge_vec.iter_mut() {
            in_edge_vec.shrink_to_fit();
        }
"""))
b('sg-dump-order',(SG,"""        self.edge_vec.dump_mmap(&edges_prefix)?;
        if let Some(ref in_edges) = self.in_edge_vec {
            in_edges.dump_mmap(&in_edges_prefix)?;
        } else {
            for part in &["offsets", "edges", "labels"] {
                remove_stale(format!("{}.{}", in_edges_prefix, part))?;
            }
        }

        if let Some(ref labels) = self.labels {
            unsafe {
                dump(labels, ::std::fs::File::create(label_file)?)?;
            }
        } else {
            remove_stale(label_file)?;
        }
""","""        match self.labels {
            Some(ref labels) => {
                let file = ::std::fs::File::create(label_file)?;
                unsafe { dump(labels, file)? };
            }
            None => remove_stale(label_file)?,
        }

        match self.in_edge_vec {
            Some(ref in_edges) => in_edges.dump_mmap(&in_edges_prefix)?,
            None => {
                remove_stale(format!("{}.offsets", in_edges_prefix))?;
                remove_stale(format!("{}.edges", in_edges_prefix))?;
                remove_stale(format!("{}.labels", in_edges_prefix))?;
            }
        }
        self.edge_vec.dump_mmap(&edges_prefix)?;
"""))
b('sg-dump-tail',(SG,"""        Serializer::export(&aux_file, &aux_map_file)?;

        Ok(())
""","""        Serializer::export(&aux_file, aux_map_file)
"""))
b('sg-get-node',(SG,"""        if !self.has_node(id) {
            return NodeType::None;
        }

        match self.labels {
            Some(ref labels) => NodeType::StaticNode(StaticNode::new_static(id, labels[id.id()])),
            None => NodeType::StaticNode(StaticNode::new(id, None)),
        }
""","""        if self.has_node(id) {
            let node = self
                .labels
                .as_ref()
                .map(|labels| StaticNode::new_static(id, labels[id.id()]))
                .unwrap_or_else(|| StaticNode::new(id, None));
            NodeType::StaticNode(node)
        } else {
            NodeType::None
        }
"""))
b('sg-get-edge',(SG,"""        let _label = self.edge_vec.find_edge_label_id(start, target);
        match _label {
            Some(label) => EdgeType::Edge(Edge::new_static(start, target, *label)),
            None => EdgeType::Edge(Edge::new(start, target, None)),
        }
""","""        let edge = if let Some(&label) = self.edge_vec.find_edge_label_id(start, target) {
            Edge::new_static(start, target, label)
        } else {
            Edge::new(start, target, None)
        };
        EdgeType::Edge(edge)
"""))
b('sg-nodes-boxes',(SG,"""        match self.labels {
            None => {
                let node_iter = self
                    .node_indices()
                    .map(|i| NodeType::StaticNode(StaticNode::new(i, None)));

                Iter::new(Box::new(node_iter))
            }
            Some(ref labels) => {
                let node_iter = self
                    .node_indices()
                    .zip(labels.iter())
                    .map(|n| NodeType::StaticNode(StaticNode::new_static(n.0, *n.1)));

                Iter::new(Box::new(node_iter))
            }
        }
""","""        Iter::new(Box::new(self.node_indices().map(move |i| self.get_node(i))))
"""))
b('sg-edges-always',(SG,"""        let labels = self.edge_vec.get_labels();
        if labels.is_empty() {
            Iter::new(Box::new(
                self.edge_indices()
                    .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
            ))
        } else {
            Iter::new(Box::new(
                self.edge_indices().map(move |i| self.get_edge(i.0, i.1)),
            ))
        }
""","""        Iter::new(Box::new(
            self.edge_indices().map(move |(s, d)| self.get_edge(s, d)),
        ))
"""))
b('sg-neigh',(SG,"""        let neighbors = self.edge_vec.neighbors(id);

        Iter::new(Box::new(neighbors.iter().map(|x| *x)))
""","""        Iter::new(Box::new(self.edge_vec.neighbors(id).iter().cloned()))
"""),(SG,"""        self.edge_vec.neighbors(id).into()
    }

    #[inline]
    fn max_seen_id""","""        Cow::Borrowed(self.edge_vec.neighbors(id))
    }

    #[inline]
    fn max_seen_id"""))
b('sg-max',(SG,"""        match self.node_count() {
            0 => None,
            n => Some(Id::new(n - 1)),
        }
""","""        if self.num_nodes == 0 {
            return None;
        }
        Some(Id::new(self.num_nodes - 1))
"""))
b('sg-max-checked',(SG,"""        match self.node_count() {
            0 => None,
            n => Some(Id::new(n - 1)),
        }
""","""        self.num_nodes.checked_sub(1).map(Id::new)
"""))
b('sg-in',(SG,"""        self.in_neighbors(id).len()
""","""        match self.in_edge_vec {
            Some(ref in_edges) => in_edges.degree(id),
            None => unreachable!(),
        }
"""),(SG,"""        let in_neighbors = self.in_edge_vec.as_ref().unwrap().neighbors(id);

        Iter::new(Box::new(in_neighbors.iter().map(|x| *x)))
""","""        let in_edges = self.in_edge_vec.as_ref().expect("no in edges");

        Iter::new(Box::new(in_edges.neighbors(id).iter().map(|&x| x)))
"""))
b('sg-degree',(SG,"""        self.edge_vec.degree(id)
""","""        self.neighbors_iter(id).count()
"""))
b('mg-getnode',(MG,"""        match self.labels {
            Some(ref labels) => {
                NodeType::StaticNode(StaticNode::new_static(id, labels[..][id.id()]))
            }
            None => NodeType::StaticNode(StaticNode::new(id, None)),
        }
""","""        let node = if let Some(ref labels) = self.labels {
            let all = &labels[..];
            StaticNode::new_static(id, all[id.id()])
        } else {
            StaticNode::new(id, None)
        };
        NodeType::StaticNode(node)
"""))
b('mg-nodes',(MG,"""                self.node_indices()
                    .zip(labels[..].iter())
                    .map(|n| NodeType::StaticNode(StaticNode::new_static(n.0, *n.1))),
""","""                labels[..]
                    .iter()
                    .take(self.num_nodes)
                    .enumerate()
                    .map(|(i, &label)| NodeType::StaticNode(StaticNode::new_static(Id::new(i), label))),
"""))
b('mg-inn',(MG,"""        if let Some(ref in_edges) = self.in_edges {
            in_edges.neighbors(id)
        } else {
            &[]
        }
""","""        match self.in_edges.as_ref() {
            None => &[],
            Some(in_edges) => in_edges.neighbors(id),
        }
"""))
b('mg-new-struct',(MG,"""        StaticGraphMmap {
            num_nodes: aux_file.num_nodes,
            num_edges: aux_file.num_edges,
            edges,
            in_edges,
            labels,
            node_label_map: aux_file.node_label_map,
            edge_label_map: aux_file.edge_label_map,
        }
""","""        let StaticGraphMmapAux {
            num_nodes,
            num_edges,
            node_label_map,
            edge_label_map,
        } = aux_file;

        StaticGraphMmap {
            edges,
            in_edges,
            labels,
            num_nodes,
            num_edges,
            node_label_map,
            edge_label_map,
        }
"""))
b('mg-new-helper',(MG,"""        let in_edges = if metadata(&format!("{}.offsets", in_edge_prefix)).is_ok() {
            Some(EdgeVecMmap::new(&in_edge_prefix))
        } else {
            None
        };

        let labels = if metadata(&labels_file).is_ok() {
            Some(TypedMemoryMap::new(&labels_file))
        } else {
            None
        };
""","""        let exists = |path: &str| metadata(path).is_ok();

        let labels = if exists(&labels_file) {
            Some(TypedMemoryMap::new(&labels_file))
        } else {
            None
        };

        let mut in_edges = None;
        if exists(&(in_edge_prefix.clone() + ".offsets")) {
            in_edges = Some(EdgeVecMmap::new(&in_edge_prefix));
        }
"""))
b('mg-new-path',(MG,"""        let labels = if metadata(&labels_file).is_ok() {
            Some(TypedMemoryMap::new(&labels_file))
        } else {
            None
        };
""","""        let labels = if ::std::path::Path::new(&labels_file).exists() {
            Some(TypedMemoryMap::new(&labels_file))
        } else {
            None
        };
"""))
b('mg-new-ok',(MG,"""        let labels = if metadata(&labels_file).is_ok() {
            Some(TypedMemoryMap::new(&labels_file))
        } else {
            None
        };
""","""        let labels = metadata(&labels_file)
            .ok()
            .map(|_| TypedMemoryMap::new(&labels_file));
"""))
b('mg-digraph',(MG,"""        if self.is_directed() {
            Some(self)
        } else {
            None
        }
""","""        match self.in_edges {
            Some(_) => Some(self),
            None => None,
        }
"""))
b('me-new',(ME,"""        if metadata(&labels_file).is_ok() {
            EdgeVecMmap {
                offsets: TypedMemoryMap::new(&offsets_file),
                edges: TypedMemoryMap::new(&edges_file),
                labels: Some(TypedMemoryMap::new(&labels_file)),
            }
        } else {
            EdgeVecMmap {
                offsets: TypedMemoryMap::new(&offsets_file),
                edges: TypedMemoryMap::new(&edges_file),
                labels: None,
            }
        }
""","""        let labels = if metadata(&labels_file).is_ok() {
            Some(TypedMemoryMap::new(&labels_file))
        } else {
            None
        };

        EdgeVecMmap {
            offsets: TypedMemoryMap::new(&offsets_file),
            edges: TypedMemoryMap::new(&edges_file),
            labels,
        }
"""))
b('me-labels',(ME,"""        match self.labels {
            Some(ref labels) => &labels[..],
            None => &[],
        }
""","""        self.labels.as_ref().map_or(&[], |labels| &labels[..])
"""))
b('im-dump-chunks',(IM,"""    let mut slice = typed_as_byte_slice(data);

    while !slice.is_empty() {
        let to_write = if slice.len() < 10000 {
            slice.len()
        } else {
            10000
        };
        writer.write_all(&slice[..to_write])?;
        slice = &slice[to_write..];
    }

    writer.flush()
""","""    for chunk in typed_as_byte_slice(data).chunks(10000) {
        writer.write_all(chunk)?;
    }

    writer.flush()
"""))
b('im-dump-once',(IM,"""    let mut slice = typed_as_byte_slice(data);

    while !slice.is_empty() {
        let to_write = if slice.len() < 10000 {
            slice.len()
        } else {
            10000
        };
        writer.write_all(&slice[..to_write])?;
        slice = &slice[to_write..];
    }

    writer.flush()
""","""    writer.write_all(typed_as_byte_slice(data))?;
    writer.flush()?;

    Ok(())
"""))
b('im-dump-min',(IM,"""        let to_write = if slice.len() < 10000 {
            slice.len()
        } else {
            10000
        };
        writer.write_all(&slice[..to_write])?;
        slice = &slice[to_write..];
""","""        let (head, tail) = slice.split_at(cmp::min(slice.len(), 10000));
        writer.write_all(head)?;
        slice = tail;
"""))
b('im-index',(IM,"""        let mapped = self.map.len().checked_div(mem::size_of::<T>()).unwrap_or(0);
        let len = cmp::min(self.len, mapped);
        unsafe { slice::from_raw_parts(self.map.as_ptr() as *const T, len) }
""","""        let size = mem::size_of::<T>();
        let mapped = if size == 0 { 0 } else { self.map.len() / size };
        let len = if self.len < mapped { self.len } else { mapped };
        unsafe { slice::from_raw_parts(self.map.as_ptr() as *const T, len) }
"""))
b('im-index-range',(IM,"""        &self[..][_index.start..]
""","""        let all: &[T] = &self[..];
        &all[_index.start..]
"""),(IM,"""        &self[..][.._index.end]
""","""        let (head, _) = self[..].split_at(_index.end);
        head
"""))
b('im-stale',(IM,"""    match fs::remove_file(path) {
        Err(ref e) if e.kind() == ErrorKind::NotFound => Ok(()),
        result => result,
    }
""","""    if let Err(e) = fs::remove_file(path) {
        if e.kind() != ErrorKind::NotFound {
            return Err(e);
        }
    }
    Ok(())
"""))
b('im-new',(IM,"""        let map = if size == 0 {
            // An empty file cannot be mapped.
            memmap::MmapMut::map_anon(1).and_then(|map| map.make_read_only())
        } else {
            unsafe { memmap::Mmap::map(&file) }
        };
        TypedMemoryMap {
            map: map.unwrap(),
            len: size.checked_div(type_len).unwrap_or(0),
            phn: PhantomData,
        }
""","""        let map = if size > 0 {
            unsafe { memmap::Mmap::map(&file) }.unwrap()
        } else {
            // An empty file cannot be mapped.
            memmap::MmapMut::map_anon(1).unwrap().make_read_only().unwrap()
        };
        let len = if type_len == 0 { 0 } else { size / type_len };
        TypedMemoryMap {
            map,
            len,
            phn: PhantomData,
        }
"""))
b('se-export',(SE,"""        let mut writer = BufWriter::new(File::create(path)?);

        serialize_into(&mut writer, &obj)?;
        writer.flush()?;

        Ok(())
""","""        let file = File::create(path)?;
        let mut writer = BufWriter::with_capacity(1 << 16, file);

        serialize_into(&mut writer, obj).and_then(|()| writer.flush().map_err(From::from))
"""))
b('se-export2',(SE,"""        serialize_into(&mut writer, &obj)?;
        writer.flush()?;

        Ok(())
""","""        serialize_into(&mut writer, &obj)?;

        Ok(writer.flush()?)
"""))
b('se-import',(SE,"""        let mut reader = BufReader::new(File::open(path)?);

        deserialize_from(&mut reader)
""","""        let file = match File::open(path) {
            Ok(file) => file,
            Err(e) => return Err(e.into()),
        };

        deserialize_from(BufReader::new(file))
"""))
b('rd-helper',(RD,"""        let mut rdr = ReaderBuilder::new()
            .has_headers(self.has_headers)
            .flexible(self.is_flexible)
            .delimiter(self.separator)
            .from_path(self.path_to_edges.as_path())?;
        rdr.byte_headers()?;

        for (i, result) in rdr.into_deserialize().enumerate() {
            match result {
                Ok(_result) => {
                    let record: EdgeRecord<Id, EL> = _result;
                    record.add_to_graph(g);
                }
""","""        let rdr = self.open(self.path_to_edges.as_path())?;

        for (i, result) in rdr.into_deserialize().enumerate() {
            match result {
                Ok(_result) => {
                    let record: EdgeRecord<Id, EL> = _result;
                    record.add_to_graph(g);
                }
"""),(RD,"""    pub fn node_iter(&self)""","""    fn open(&self, path: &Path) -> Result<::csv::Reader<::std::fs::File>> {
        let mut rdr = ReaderBuilder::new()
            .has_headers(self.has_headers)
            .flexible(self.is_flexible)
            .delimiter(self.separator)
            .from_path(path)?;
        rdr.byte_headers()?;
        Ok(rdr)
    }

    pub fn node_iter(&self)"""))
b('rd-iflet',(RD,"""        for (i, result) in rdr.into_deserialize().enumerate() {
            match result {
                Ok(_result) => {
                    let record: EdgeRecord<Id, EL> = _result;
                    record.add_to_graph(g);
                }
                Err(e) => {
                    if e.is_io_error() {
                        return Err(e.into());
                    }
                    warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e)
                }
            }
        }

        Ok(())
""","""        let mut line = 0;
        for result in rdr.into_deserialize::<EdgeRecord<Id, EL>>() {
            line += 1;
            if let Err(e) = result {
                if e.is_io_error() {
                    return Err(e.into());
                }
                warn!("Line {:?}: Error when reading csv: {:?}", line, e);
                continue;
            }
            result.unwrap().add_to_graph(g);
        }

        Ok(())
"""))
b('rd-deser',(RD,"""            let rdr = rdr
                .into_deserialize()
                .enumerate()
                .filter_map(|(i, result)| match result {
                    Ok(_result) => {
                        let record: NodeRecord<Id, NL> = _result;
                        Some((record.id, record.label))
                    }
                    Err(e) => {
                        warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e);
                        None
                    }
                });

            Ok(Iter::new(Box::new(rdr)))
""","""            let rows = rdr
                .into_deserialize::<NodeRecord<Id, NL>>()
                .filter_map(|result| result.ok())
                .map(|record| (record.id, record.label));

            Ok(Iter::new(Box::new(rows)))
"""))
b('rd-early',(RD,"""        if let Some(ref path_to_nodes) = self.path_to_nodes {
            info!(
                "Reading nodes from {}",
                path_to_nodes.as_path().to_str().unwrap()
            );
            let mut rdr""","""        if self.path_to_nodes.is_none() {
            return Ok(Iter::empty());
        }
        {
            let path_to_nodes = self.path_to_nodes.as_ref().unwrap();
            info!(
                "Reading nodes from {}",
                path_to_nodes.as_path().to_str().unwrap()
            );
            let mut rdr"""),(RD,"""            Ok(Iter::new(Box::new(rdr)))
        } else {
            Ok(Iter::empty())
        }
""","""            Ok(Iter::new(Box::new(rdr)))
        }
"""))
b('rd-sep-helper',(RD,"""        let sep_string = match separator {
            "comma" => ",",
            "space" => " ",
            "tab" => "\\t",
            other => other,
        };

        if sep_string.len() != 1 {
            panic!("Invalid separator {}.", sep_string);
        }

        CSVReader {
            path_to_nodes: path_to_nodes.map(|x| x.as_ref().to_path_buf()),
            path_to_edges: path_to_edges.as_ref().to_path_buf(),
            separator: sep_string.chars().next().unwrap() as u8,
            has_headers: true,
            is_flexible: false,
            _ph: PhantomData,
        }
""","""        let sep_string = match separator {
            "tab" => "\\t",
            "comma" => ",",
            "space" => " ",
            other => other,
        };

        assert!(sep_string.len() == 1, "Invalid separator {}.", sep_string);

        let mut reader = CSVReader::new(path_to_nodes, path_to_edges);
        reader.separator = sep_string.as_bytes()[0];
        reader
"""))
b('rc-newfn',(RC,"""                let label = seq
                    .next_element::<Option<N>>()
                    .unwrap_or(None)
                    .unwrap_or(None);

                Ok(NodeRecord::new(id, label))
""","""                let label = match seq.next_element::<Option<N>>() {
                    Ok(Some(label)) => label,
                    _ => None,
                };

                Ok(NodeRecord { id, label })
"""))
b('rc-match',(RC,"""                let id = seq
                    .next_element()?
                    .ok_or_else(|| de::Error::invalid_length(0, &self))?;
                let label = seq
                    .next_element::<Option<N>>()""","""                let id = match seq.next_element()? {
                    Some(id) => id,
                    None => return Err(de::Error::invalid_length(0, &self)),
                };
                let label = seq
                    .next_element::<Option<N>>()"""))
b('rc-map',(RC,"""                let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                let label = label.unwrap_or(None);
                Ok(NodeRecord::new(id, label))
""","""                match id {
                    Some(id) => Ok(NodeRecord::new(id, label.unwrap_or_default())),
                    None => Err(de::Error::missing_field("id")),
                }
"""))
b('rc-add',(RC,"""        g.add_edge(self.start, self.target, self.label);
""","""        let EdgeRecord {
            start,
            target,
            label,
        } = self;
        g.add_edge(start, target, label);
"""))
b('wr-foreach',(WR,"""        for id in self.g.node_indices() {
            wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;
        }
        wtr.flush()?;
""","""        self.g
            .node_indices()
            .map(|id| NodeRecord::new(id, g.get_node_label(id)))
            .try_for_each(|record| wtr.serialize(record))?;
        wtr.flush()?;
"""))
b('wr-helper',(WR,"""        let mut wtr = WriterBuilder::new()
            .delimiter(self.separator)
            .from_path(self.path_to_edges.as_path())?;

        for (start, target) in self.g.edge_indices() {
            wtr.serialize(EdgeRecord::new(
                start,
                target,
                g.get_edge_label(start, target),
            ))?;
        }
        wtr.flush()?;

        Ok(())
    }
""","""        self.write_edges()
    }

    fn write_edges(&self) -> Result<()> {
        let labels = self.g.as_labeled_graph();
        let mut wtr = WriterBuilder::new()
            .delimiter(self.separator)
            .from_path(&self.path_to_edges)?;

        for (start, target) in labels.edge_indices() {
            let label = labels.get_edge_label(start, target);
            wtr.serialize(EdgeRecord::new(start, target, label))?;
        }

        wtr.flush()
    }
"""))
b('wr-sep',(WR,"""            separator: sep_string.chars().next().unwrap() as u8,
""","""            separator: sep_string.as_bytes()[0],
"""))
b('cm-reader',(CM,"""    match separator {
        Some(sep) => CSVReader::with_separator(path_to_nodes, path_to_edges, sep)
            .headers(has_headers)
            .flexible(is_flexible)
            .read(g),
        None => CSVReader::new(path_to_nodes, path_to_edges)
            .headers(has_headers)
            .flexible(is_flexible)
            .read(g),
    }
""","""    let reader = if let Some(sep) = separator {
        CSVReader::with_separator(path_to_nodes, path_to_edges, sep)
    } else {
        CSVReader::new(path_to_nodes, path_to_edges)
    };

    reader.flexible(is_flexible).headers(has_headers).read(g)
"""))
b('cm-reader-comma',(CM,"""    match separator {
        Some(sep) => CSVReader::with_separator(path_to_nodes, path_to_edges, sep)
            .headers(has_headers)
            .flexible(is_flexible)
            .read(g),
        None => CSVReader::new(path_to_nodes, path_to_edges)
            .headers(has_headers)
            .flexible(is_flexible)
            .read(g),
    }
""","""    CSVReader::with_separator(path_to_nodes, path_to_edges, separator.unwrap_or("comma"))
        .headers(has_headers)
        .flexible(is_flexible)
        .read(g)
"""))
b('ls-filter',(LS,"""        for entry in fs::read_dir(path)? {
            let dir = entry?;
            let path = dir.path();
            if path.is_file() {
                files_in_dir.push(path);
            }
        }
""","""        for entry in fs::read_dir(path)? {
            let path = entry?.path();
            if !path.is_file() {
                continue;
            }
            files_in_dir.push(path);
        }
"""))
b('ls-matching',(LS,"""            for path in files_in_dir.iter() {
                if relation.is_match(path) {
                    info!("Reading file '{}'", path.to_str().unwrap());

                    let mut rdr = ReaderBuilder::new()
                        .delimiter(self.delimiter)
                        .from_path(path.clone())?;

                    for result in rdr.records() {
                        let record = result?;

                        relation.add_edge::<Id, Ty>(record, &mut g, &mut node_id_map);
                    }
                }
            }
""","""            for path in files_in_dir.iter().filter(|path| relation.is_match(path)) {
                info!("Reading file '{}'", path.to_str().unwrap());

                let mut rdr = self.open(path)?;

                for result in rdr.records() {
                    relation.add_edge::<Id, Ty>(result?, &mut g, &mut node_id_map);
                }
            }
"""),(LS,"""    pub fn from_path<""","""    fn open(&self, path: &Path) -> Result<::csv::Reader<fs::File>> {
        Ok(ReaderBuilder::new()
            .delimiter(self.delimiter)
            .from_path(path)?)
    }

    pub fn from_path<"""))
b('ls-collect',(LS,"""        let mut files_in_dir = Vec::new();

        for entry in fs::read_dir(path)? {
            let dir = entry?;
            let path = dir.path();
            if path.is_file() {
                files_in_dir.push(path);
            }
        }
""","""        let entries = fs::read_dir(path)?
            .map(|entry| entry.map(|e| e.path()))
            .collect::<Result<Vec<_>>>()?;
        let files_in_dir: Vec<_> = entries.into_iter().filter(|p| p.is_file()).collect();
"""))
b('ln-get',(LN,"""        let str_id = self.name.clone() + "\\0" + &record[self.id_index];

        let id = *node_id_map.entry(str_id).or_insert_with(|| {
            if let Some(i) = g.max_seen_id() {
                i.increment()
            } else {
                Id::new(0)
            }
        });
""","""        let str_id = format!("{}\\0{}", self.name, &record[self.id_index]);

        let known = node_id_map.get(&str_id).cloned();
        let id = match known {
            Some(id) => id,
            None => {
                let id = match g.max_seen_id() {
                    Some(i) => i.increment(),
                    None => Id::new(0),
                };
                node_id_map.insert(str_id, id);
                id
            }
        };
"""))
b('ln-entry',(LN,"""        let id = *node_id_map.entry(str_id).or_insert_with(|| {
            if let Some(i) = g.max_seen_id() {
                i.increment()
            } else {
                Id::new(0)
            }
        });
""","""        let fresh = g
            .max_seen_id()
            .map(|i| i.increment())
            .unwrap_or_else(|| Id::new(0));
        let id = *node_id_map.entry(str_id).or_insert(fresh);
"""))
b('lr-helper',(LR,"""        let start_id = *node_id_map.entry(start_str_id).or_insert_with(|| {
            let i = if let Some(i) = g.max_seen_id() {
                i.increment()
            } else {
                Id::new(0)
            };
            g.add_node(i, Some(self.start_label.clone()));

            i
        });

        let target_id = *node_id_map.entry(target_str_id).or_insert_with(|| {
            let i = if let Some(i) = g.max_seen_id() {
                i.increment()
            } else {
                Id::new(0)
            };
            g.add_node(i, Some(self.target_label.clone()));

            i
        });

        g.add_edge(start_id, target_id, Some(self.edge_label.clone()));
    }
""","""        let start_id = Self::endpoint(start_str_id, &self.start_label, g, node_id_map);
        let target_id = Self::endpoint(target_str_id, &self.target_label, g, node_id_map);

        g.add_edge(start_id, target_id, Some(self.edge_label.to_owned()));
    }

    fn endpoint<Id: IdType, Ty: GraphType>(
        key: String,
        label: &String,
        g: &mut TypedGraphMap<Id, String, String, Ty>,
        node_id_map: &mut HashMap<String, Id>,
    ) -> Id {
        if let Some(&id) = node_id_map.get(&key) {
            return id;
        }
        let id = match g.max_seen_id() {
            Some(max) => max.increment(),
            None => Id::new(0),
        };
        g.add_node(id, Some(label.clone()));
        node_id_map.insert(key, id);
        id
    }
"""))
b('gg-unlabeled',(GG,"""    for i in 0..n {
        let label = random_node_label(&mut rng, &g);
        g.add_node(Id::new(i), label);
    }
""","""    let mut i = 0;
    while i < n {
        let label = random_node_label(&mut rng, &g);
        g.add_node(Id::new(i), label);
        i += 1;
    }
"""))
b('gg-map',(GG,"""    for i in 0..n {
        let label = random_node_label(&mut rng, &g);
        g.add_node(Id::new(i), label);
    }
""","""    for id in (0..n).map(Id::new) {
        let label = random_node_label(&mut rng, &g);
        g.add_node(id, label);
    }
"""))
b('gg-foreach',(GG,"""    for (s, d) in complete_edge_pairs::<Ty>(n) {
        let label = random_edge_label(&mut rng, &g);
        g.add_edge(Id::new(s), Id::new(d), label);
    }

    g
""","""    complete_edge_pairs::<Ty>(n).for_each(|(s, d)| {
        let label = random_edge_label(&mut rng, &g);
        g.add_edge(Id::new(s), Id::new(d), label);
    });

    g
"""))
b('gh-loops',(GH,"""    if Ty::is_directed() {
        Iter::new(Box::new(
            (0..n)
                .tuple_combinations()
                .flat_map(|(s, d)| vec![(s, d), (d, s)]),
        ))
    } else {
        Iter::new(Box::new((0..n).tuple_combinations()))
    }
""","""    let pairs = (0..n).flat_map(move |s| (s + 1..n).map(move |d| (s, d)));
    if Ty::is_directed() {
        Iter::new(Box::new(pairs.flat_map(|(s, d)| vec![(s, d), (d, s)])))
    } else {
        Iter::new(Box::new(pairs))
    }
"""))
b('gh-directed-filter',(GH,"""        Iter::new(Box::new(
            (0..n)
                .tuple_combinations()
                .flat_map(|(s, d)| vec![(s, d), (d, s)]),
        ))
""","""        Iter::new(Box::new(
            (0..n).flat_map(move |s| (0..n).filter(move |d| *d != s).map(move |d| (s, d))),
        ))
"""))
b('gh-label',(GH,"""    let labels = g.get_node_label_map();

    if labels.is_empty() {
        return None;
    }

    let random_index = rng.gen_range(0, labels.len());

    labels.get_item(random_index).cloned()
""","""    let labels = g.get_node_label_map();
    let count = labels.len();

    if count == 0 {
        None
    } else {
        labels.get_item(rng.gen_range(0, count)).map(|label| label.clone())
    }
"""))
b('gh-choose',(GH,"""    let random_index = rng.gen_range(0, labels.len());

    labels.get_item(random_index).cloned()
}

pub fn random_edge""","""    labels
        .items()
        .nth(rng.gen_range(0, labels.len()))
        .cloned()
}

pub fn random_edge"""))
b('gr-gnp',(GR,"""    for (s, d) in complete_edge_pairs::<Ty>(n) {
        if rng.gen_range(0f32, 1f32) < p {
            let label = random_edge_label(&mut rng, &g);
            g.add_edge(Id::new(s), Id::new(d), label);
        }
    }
""","""    for (s, d) in complete_edge_pairs::<Ty>(n) {
        let draw = rng.gen_range(0f32, 1f32);
        if draw >= p {
            continue;
        }
        let label = random_edge_label(&mut rng, &g);
        g.add_edge(Id::new(s), Id::new(d), label);
    }
"""))
b('gr-gnp-assert',(GR,"""    if p < 0f32 || p > 1f32 {
        panic!("p must be in the range of [0,1]");
    }
""","""    assert!(!(p < 0f32) && !(p > 1f32), "p must be in the range of [0,1]");
"""))
b('gr-gnm',(GR,"""    if let Ok(mut edges) = sampled_edges {
        for (s, d) in edges.drain(..) {
            let label = random_edge_label(&mut rng, &g);
            g.add_edge(Id::new(s), Id::new(d), label);
        }

        g
    } else {
        panic!("m is too large.");
    }
""","""    let edges = match sampled_edges {
        Ok(edges) => edges,
        Err(_) => panic!("m is too large."),
    };

    for (s, d) in edges {
        let label = random_edge_label(&mut rng, &g);
        g.add_edge(Id::new(s), Id::new(d), label);
    }

    g
"""))
b('un-fn',(UN,"""        for id in $graph0.node_indices() {
            $graph.add_node(id, $graph0.get_node_label(id).cloned());
        }
        for id in $graph1.node_indices() {
            $graph.add_node(id, $graph1.get_node_label(id).cloned());
        }
        for (src, dst) in $graph0.edge_indices() {
            $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());
        }
""","""        for id in $graph0.node_indices() {
            let label = $graph0.get_node_label(id);
            $graph.add_node(id, label.map(|l| l.clone()));
        }
        for (src, dst) in $graph0.edge_indices() {
            $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());
        }
        for id in $graph1.node_indices() {
            $graph.add_node(id, $graph1.get_node_label(id).cloned());
        }
"""))
b('un-box-deleg',(UN,"""    fn add(self, other: Box<TypedDiGraphMap<Id, NL, EL, L>>) -> TypedDiGraphMap<Id, NL, EL, L> {
        let mut graph = TypedDiGraphMap::new();
        add_graph!(self, other, graph);
        graph
    }
""","""    fn add(self, other: Box<TypedDiGraphMap<Id, NL, EL, L>>) -> TypedDiGraphMap<Id, NL, EL, L> {
        *self + *other
    }
"""))
b('mi-order',(MI,"""        for id in $graph1.node_indices() {
            $graph.remove_node(id);
        }
        for (src, dst) in $graph1.edge_indices() {
            $graph.remove_edge(src, dst);
        }
""","""        for (src, dst) in $graph1.edge_indices() {
            $graph.remove_edge(src, dst);
        }
        for id in $graph1.node_indices() {
            $graph.remove_node(id);
        }
"""))
b('mi-skip',(MI,"""        for id in $graph0.node_indices() {
            $graph.add_node(id, $graph0.get_node_label(id).cloned());
        }
        for (src, dst) in $graph0.edge_indices() {
            $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());
        }
        for id in $graph1.node_indices() {
            $graph.remove_node(id);
        }
        for (src, dst) in $graph1.edge_indices() {
            $graph.remove_edge(src, dst);
        }
""","""        for id in $graph0.node_indices() {
            if !$graph1.has_node(id) {
                $graph.add_node(id, $graph0.get_node_label(id).cloned());
            }
        }
        for (src, dst) in $graph0.edge_indices() {
            if $graph.has_node(src) && $graph.has_node(dst) && !$graph1.has_edge(src, dst) {
                $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());
            }
        }
"""))
b('dt-inc',(DT,"""                    *self + 1
""","""                    let next = self.id() + 1;
                    next as $type
"""))
b('dt-max',(DT,"""                    ::std::$type::MAX as usize
""","""                    <Self as IdType>::max_value().id()
"""))
b('ed-isnone',(ED,"""        match *self {
            EdgeType::None => true,
            _ => false,
        }
""","""        if let EdgeType::Edge(_) = *self {
            false
        } else {
            true
        }
"""))
b('ed-label',(ED,"""            EdgeType::Edge(edge) => edge.get_label_id(),
            EdgeType::None => None,
        }
""","""            EdgeType::None => None,
            EdgeType::Edge(ref edge) => {
                let label = edge.get_label_id();
                label
            }
        }
"""))
b('no-label',(NO,"""            NodeType::NodeMap(node) => node.get_label_id(),
            NodeType::StaticNode(ref node) => node.get_label_id(),
            NodeType::None => None,
        }
""","""            NodeType::None => None,
            NodeType::StaticNode(node) => node.get_label_id(),
            NodeType::NodeMap(node) => NodeTrait::get_label_id(*node),
        }
"""))
b('it-nohint',(IT,"""    #[inline(always)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }

    #[inline(always)]
    fn count(self) -> usize {
        self.inner.count()
    }
""","""    #[inline(always)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (low, high) = self.inner.size_hint();
        (low, high)
    }
"""))
