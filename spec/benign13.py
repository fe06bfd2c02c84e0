"""Rewrites that keep behaviour: conn_comp, conn_subgraphs, csv, ldbc, mmap, serde."""
CC='src/algorithm/conn_comp.rs'; CS='src/algorithm/conn_subgraphs.rs'
RD='src/io/csv/reader.rs'; WR='src/io/csv/writer.rs'; SC='src/io/ldbc/scheme.rs'
MM='src/io/mmap.rs'; SD='src/io/serde.rs'
KEYS='''            let mut keys: Vec<Id> = Vec::new();

            for key in self.parent().keys() {
                keys.push(*key);
            }

            for n in keys {
                if self.get_root(n) == root_id {
                    result.push(n);
                }
            }
            Some(result)
'''
R2S='''        for index in 0..self.roots.len() {
            if self.roots[index] == root {
                return Some(index);
            }
        }
        None
'''
PN='''            if let Some(index) = index {
                self.subgraphs[index]
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);
            } else {
                if graph.is_directed() {
                    self.subgraphs.push(new_general_graphmap(true));
                } else {
                    self.subgraphs.push(new_general_graphmap(false));
                }
                self.roots.push(root);
                let length = self.subgraphs.len();
                self.subgraphs[length - 1]
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);
            }
'''
PE=PN.replace('.add_node(id, label)','.add_edge(start, target, label)')
EDGES='''        for (i, result) in rdr.into_deserialize().enumerate() {
            match result {
                Ok(_result) => {
                    let record: EdgeRecord<Id, EL> = _result;
                    record.add_to_graph(g);
                }
                Err(e) => {
                    if e.is_io_error() {
                        return Err(e.into());
                    }
                    warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e)
                }
            }
        }

        Ok(())
'''
EIT='''            .filter_map(|(i, result)| match result {
                Ok(_result) => {
                    let record: EdgeRecord<Id, EL> = _result;
                    Some((record.start, record.target, record.label))
                }
                Err(e) => {
                    warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e);
                    None
                }
            });
'''
WN='''        for id in self.g.node_indices() {
            wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;
        }
'''
WE='''        for (start, target) in self.g.edge_indices() {
            wtr.serialize(EdgeRecord::new(
                start,
                target,
                g.get_edge_label(start, target),
            ))?;
        }
'''
DIR='''        for entry in fs::read_dir(path)? {
            let dir = entry?;
            let path = dir.path();
            if path.is_file() {
                files_in_dir.push(path);
            }
        }
'''
NODES='''            for path in files_in_dir.iter() {
                if node.is_match(path) {
                    info!("Reading file '{}'", path.to_str().unwrap());

                    let mut rdr = ReaderBuilder::new()
                        .delimiter(self.delimiter)
                        .from_path(path.clone())?;

                    for result in rdr.records() {
                        let record = result?;

                        node.add_node::<Id, Ty>(record, &mut g, &mut node_id_map);
                    }
                }
            }
'''
RELS=NODES.replace('node.is_match','relation.is_match').replace('node.add_node','relation.add_edge')
DUMP='''    while !slice.is_empty() {
        let to_write = if slice.len() < 10000 {
            slice.len()
        } else {
            10000
        };
        writer.write_all(&slice[..to_write])?;
        slice = &slice[to_write..];
    }
'''
B=[
('b13-cc-filter',[(CC,KEYS,'''            let keys: Vec<Id> = self.parent().keys().cloned().collect();
            for n in keys.into_iter().filter(|&n| self.get_root(n) == root_id) {
                result.push(n);
            }
            Some(result)
''')]),
('b13-cc-extend',[(CC,KEYS,'''            let keys: Vec<Id> = self.parent().keys().map(|k| *k).collect();
            result.extend(keys.into_iter().filter(|n| self.get_root(*n) == root_id));
            Some(result)
''')]),
('b13-cc-retain',[(CC,KEYS,'''            result.extend(self.parent().keys().cloned());
            result.retain(|&n| self.get_root(n) == root_id);
            Some(result)
''')]),
('b13-cc-early',[(CC,'''        if self.parent().contains_key(&node) {
            let mut result: Vec<Id> = Vec::new();
            let root_id = self.get_root(node);
'''+KEYS+'''        } else {
            None
        }
''','''        let root_id = self.get_root(node)?;
        let keys: Vec<Id> = self.parent().keys().cloned().collect();
        let mut result = Vec::with_capacity(keys.len());
        for n in keys {
            match self.get_root(n) {
                Some(ref r) if *r == root_id => result.push(n),
                _ => (),
            }
        }
        Some(result)
''')]),
('b13-cc-partition',[(CC,KEYS,'''            let keys: Vec<Id> = self.parent().keys().cloned().collect();
            let (same, _): (Vec<Id>, Vec<Id>) =
                keys.into_iter().partition(|&n| self.get_root(n) == root_id);
            result.extend(same);
            Some(result)
''')]),
('b13-cc-addhelper',[(CC,'''        if !self.parent().contains_key(&x) {
            self.mut_parent().insert(x, x);
            self.count += 1;
        }

        if !self.parent().contains_key(&y) {
            self.mut_parent().insert(y, y);
            self.count += 1;
        }

        let x_root''','''        for node in [x, y].iter() {
            self.ensure(*node);
        }

        let x_root'''),(CC,'''    /// Get mutable reference of parent map
''','''    fn ensure(&mut self, node: Id) {
        if self.parent().contains_key(&node) {
            return;
        }
        self.mut_parent().insert(node, node);
        self.count += 1;
    }

    /// Get mutable reference of parent map
''')]),
('b13-cc-entry',[(CC,'''            if !self.parent().contains_key(&node) {
                self.mut_parent().insert(node, node);
                self.count += 1;
            }
        }

        for''','''            let known = self.get_parent(node).is_some();
            if !known {
                let old = self.mut_parent().insert(node, node);
                debug_assert!(old.is_none());
                self.count += 1;
            }
        }

        for''')]),
('b13-cc-foreach',[(CC,'''        for edge in graph.edges() {
            self.process_new_edge(&edge);
        }
''','''        let mut edges = graph.edges();
        while let Some(edge) = edges.next() {
            self.process_new_edge(&edge);
        }
''')]),
('b13-cc-conn',[(CC,'''        if !self.parent().contains_key(&node0) || !self.parent().contains_key(&node1) {
            false
        } else {
            self.get_root(node0) == self.get_root(node1)
        }
''','''        match (self.get_root(node0), self.get_root(node1)) {
            (Some(a), Some(b)) => a == b,
            _ => false,
        }
''')]),
('b13-cc-and',[(CC,'''            self.get_root(node0) == self.get_root(node1)
''','''            node0 == node1 || self.get_root(node0) == self.get_root(node1)
''')]),
('b13-cc-root',[(CC,'''        if self.parent().get(&node) != None {
            Some(node)
        } else {
            None
        }
''','''        Some(node)
''')]),
('b13-cc-loop',[(CC,'''        while self.parent().get(&node) != Some(&node) {
            let p = self.parent()[&node];
            let pp = self.parent()[&p];

            self.mut_parent().insert(node, pp);
            node = pp;
        }
''','''        loop {
            let p = self.parent()[&node];
            if p == node {
                break;
            }
            let pp = self.parent()[&p];
            self.mut_parent().insert(node, pp);
            node = pp;
        }
''')]),
('b13-cc-nocompress',[(CC,'''            let p = self.parent()[&node];
            let pp = self.parent()[&p];

            self.mut_parent().insert(node, pp);
            node = pp;
''','''            let p = self.parent()[&node];
            node = p;
''')]),
('b13-cc-new',[(CC,'''        let mut cc = ConnComp::with_capacity(graph.node_count());
''','''        let mut cc = ConnComp::empty();
''')]),
('b13-cc-swap',[(CC,'''            self.mut_parent().insert(x_root, y_root);
''','''            self.mut_parent().insert(y_root, x_root);
''')]),
('b13-cs-pos',[(CS,R2S,'''        self.roots.iter().position(|r| *r == root)
''')]),
('b13-cs-enum',[(CS,R2S,'''        for (index, r) in self.roots.iter().enumerate() {
            if *r == root {
                return Some(index);
            }
        }
        None
''')]),
('b13-cs-while',[(CS,R2S,'''        let mut index = 0;
        while index < self.roots.len() {
            if self.roots[index] == root {
                return Some(index);
            }
            index += 1;
        }
        None
''')]),
('b13-cs-find',[(CS,R2S,'''        (0..self.roots.len()).find(|&index| self.roots[index] == root)
''')]),
('b13-cs-mut',[(CS,R2S,'''        let mut found = None;
        for index in 0..self.roots.len() {
            if found.is_none() && self.roots[index] == root {
                found = Some(index);
            }
        }
        found
''')]),
('b13-cs-slot',[(CS,PN,'''            let index = match index {
                Some(index) => index,
                None => {
                    self.subgraphs.push(new_general_graphmap(graph.is_directed()));
                    self.roots.push(root);
                    self.subgraphs.len() - 1
                }
            };
            self.subgraphs[index]
                .as_mut_graph()
                .unwrap()
                .add_node(id, label);
''')]),
('b13-cs-slothelper',[(CS,PN,'''            let _ = index;
            let index = self.slot(root, graph.is_directed());
            self.subgraphs[index]
                .as_mut_graph()
                .unwrap()
                .add_node(id, label);
'''),(CS,PE,'''            let _ = index;
            let index = self.slot(root, graph.is_directed());
            self.subgraphs[index]
                .as_mut_graph()
                .unwrap()
                .add_edge(start, target, label);
'''),(CS,'''    /// Add nodes to their''','''    fn slot(&mut self, root: Id, directed: bool) -> usize {
        self.root_to_subgraph(root).unwrap_or_else(|| {
            self.subgraphs.push(new_general_graphmap(directed));
            self.roots.push(root);
            self.roots.len() - 1
        })
    }

    /// Add nodes to their''')]),
('b13-cs-last',[(CS,'''                let length = self.subgraphs.len();
                self.subgraphs[length - 1]
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);
''','''                self.subgraphs
                    .last_mut()
                    .unwrap()
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);
''')]),
('b13-cs-build',[(CS,'''                if graph.is_directed() {
                    self.subgraphs.push(new_general_graphmap(true));
                } else {
                    self.subgraphs.push(new_general_graphmap(false));
                }
                self.roots.push(root);
                let length = self.subgraphs.len();
                self.subgraphs[length - 1]
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);
''','''                let mut sub = new_general_graphmap(graph.is_directed());
                sub.as_mut_graph().unwrap().add_node(id, label);
                self.subgraphs.push(sub);
                self.roots.push(root);
''')]),
('b13-cs-edgeind',[(CS,'''        for edge in graph.edges() {
            let start = edge.get_start();
            let target = edge.get_target();
''','''        for (start, target) in graph.edge_indices() {
''')]),
('b13-cs-getmut',[(CS,'''                self.subgraphs[index]
                    .as_mut_graph()
                    .unwrap()
                    .add_node(id, label);
            } else {''','''                if let Some(sub) = self.subgraphs.get_mut(index) {
                    sub.as_mut_graph().unwrap().add_node(id, label);
                }
            } else {''')]),
('b13-cs-foreach',[(CS,'''        for id in graph.node_indices() {
            let root''','''        let ids: Vec<Id> = graph.node_indices().collect();
        for &id in &ids {
            let root''')]),
('b13-rd-iflet',[(RD,EDGES,'''        let mut line = 0;
        for result in rdr.into_deserialize::<EdgeRecord<Id, EL>>() {
            line += 1;
            if let Err(e) = result {
                if e.is_io_error() {
                    return Err(e.into());
                }
                warn!("Line {:?}: Error when reading csv: {:?}", line, e);
                continue;
            }
            result.unwrap().add_to_graph(g);
        }

        Ok(())
''')]),
('b13-rd-while',[(RD,EDGES,'''        let mut rows = rdr.into_deserialize::<EdgeRecord<Id, EL>>();
        while let Some(result) = rows.next() {
            match result {
                Ok(record) => record.add_to_graph(g),
                Err(ref e) if !e.is_io_error() => warn!("Error when reading csv: {:?}", e),
                Err(e) => return Err(e.into()),
            }
        }

        Ok(())
''')]),
('b13-rd-order',[(RD,'''        let mut rdr = ReaderBuilder::new()
            .has_headers(self.has_headers)
            .flexible(self.is_flexible)
            .delimiter(self.separator)
            .from_path(self.path_to_edges.as_path())?;
        rdr.byte_headers()?;

        for''','''        let mut builder = ReaderBuilder::new();
        builder.delimiter(self.separator);
        builder.flexible(self.is_flexible);
        builder.has_headers(self.has_headers);
        let mut rdr = builder.from_path(&self.path_to_edges)?;
        rdr.byte_headers()?;

        for''')]),
('b13-rd-helper',[(RD,'''            let mut rdr = ReaderBuilder::new()
                .has_headers(self.has_headers)
                .flexible(self.is_flexible)
                .delimiter(self.separator)
                .from_path(path_to_nodes.as_path())?;
            rdr.byte_headers()?;

            for''','''            let rdr = self.open(path_to_nodes)?;

            for'''),(RD,'''        let mut rdr = ReaderBuilder::new()
            .has_headers(self.has_headers)
            .flexible(self.is_flexible)
            .delimiter(self.separator)
            .from_path(self.path_to_edges.as_path())?;
        rdr.byte_headers()?;

        for''','''        let rdr = self.open(&self.path_to_edges)?;

        for'''),(RD,'''    pub fn headers(mut''','''    fn open<P: AsRef<Path>>(&self, path: P) -> Result<::csv::Reader<::std::fs::File>> {
        let mut rdr = ReaderBuilder::new()
            .has_headers(self.has_headers)
            .flexible(self.is_flexible)
            .delimiter(self.separator)
            .from_path(path)?;
        rdr.byte_headers()?;
        Ok(rdr)
    }

    pub fn headers(mut''')]),
('b13-rd-match',[(RD,'''        if let Some(ref path_to_nodes) = self.path_to_nodes {
            info!(
                "Reading nodes from {}",''','''        let path = self.path_to_nodes.as_ref();
        if let Some(path_to_nodes) = path {
            info!(
                "Reading nodes from {}",''')]),
('b13-rd-ok',[(RD,EIT,'''            .filter_map(|(_, result)| result.ok())
            .map(|record: EdgeRecord<Id, EL>| (record.start, record.target, record.label));
''')]),
('b13-rd-map',[(RD,EIT,'''            .filter_map(|(i, result)| {
                result
                    .map(|record: EdgeRecord<Id, EL>| (record.start, record.target, record.label))
                    .map_err(|e| warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e))
                    .ok()
            });
''')]),
('b13-rd-flat',[(RD,EIT,'''            .flat_map(|(_, result)| result.into_iter())
            .map(|record: EdgeRecord<Id, EL>| (record.start, record.target, record.label));
''')]),
('b13-rd-tryfe',[(RD,EDGES,'''        rdr.into_deserialize::<EdgeRecord<Id, EL>>()
            .try_for_each(|result| match result {
                Ok(record) => {
                    record.add_to_graph(g);
                    Ok(())
                }
                Err(e) => {
                    if e.is_io_error() {
                        Err(e.into())
                    } else {
                        warn!("Error when reading csv: {:?}", e);
                        Ok(())
                    }
                }
            })
''')]),
('b13-rd-new',[(RD,'''        CSVReader {
            path_to_nodes: path_to_nodes.map(|x| x.as_ref().to_path_buf()),
            path_to_edges: path_to_edges.as_ref().to_path_buf(),
            separator: b',',
            has_headers: true,
            is_flexible: false,
            _ph: PhantomData,
        }
''','''        Self::with_separator(path_to_nodes, path_to_edges, "comma")
''')]),
('b13-rd-clone',[(RD,'''            separator: self.separator.clone(),
            has_headers: self.has_headers.clone(),
            is_flexible: self.is_flexible.clone(),
''','''            separator: self.separator,
            has_headers: self.has_headers,
            is_flexible: self.is_flexible,
''')]),
('b13-rd-hdr',[(RD,'''    pub fn headers(mut self, has_headers: bool) -> Self {
        self.has_headers = has_headers;
        self
''','''    pub fn headers(self, has_headers: bool) -> Self {
        CSVReader { has_headers, ..self }
''')]),
('b13-rd-bytes',[(RD,'''            separator: sep_string.chars().next().unwrap() as u8,
''','''            separator: sep_string.as_bytes()[0],
''')]),
('b13-rd-sep',[(RD,'''        let sep_string = match separator {
            "comma" => ",",
            "space" => " ",
            "tab" => "\\t",
            other => other,
        };
''','''        let sep_string = if separator == "comma" {
            ","
        } else if separator == "space" {
            " "
        } else if separator == "tab" {
            "\\t"
        } else {
            separator
        };
''')]),
('b13-wr-tryfe',[(WR,WN,'''        self.g
            .node_indices()
            .try_for_each(|id| wtr.serialize(NodeRecord::new(id, g.get_node_label(id))))?;
''')]),
('b13-wr-map',[(WR,WN,'''        let records = self
            .g
            .node_indices()
            .map(|id| NodeRecord::new(id, g.get_node_label(id)));
        for record in records {
            wtr.serialize(record)?;
        }
''')]),
('b13-wr-edges',[(WR,WE,'''        for (start, target) in self.g.edge_indices() {
            let label = g.get_edge_label(start, target);
            let record = EdgeRecord::new(start, target, label);
            if let Err(e) = wtr.serialize(record) {
                return Err(e.into());
            }
        }
''')]),
('b13-wr-while',[(WR,WE,'''        let mut edges = self.g.edge_indices();
        while let Some((start, target)) = edges.next() {
            wtr.serialize(EdgeRecord::new(
                start,
                target,
                g.get_edge_label(start, target),
            ))?;
        }
''')]),
('b13-wr-helper',[(WR,'''        let mut wtr = WriterBuilder::new()
            .delimiter(self.separator)
            .from_path(self.path_to_nodes.as_path())?;
''','''        let mut wtr = self.open(&self.path_to_nodes)?;
'''),(WR,'''        let mut wtr = WriterBuilder::new()
            .delimiter(self.separator)
            .from_path(self.path_to_edges.as_path())?;
''','''        let mut wtr = self.open(&self.path_to_edges)?;
'''),(WR,'''    pub fn write(&self)''','''    fn open(&self, path: &Path) -> Result<::csv::Writer<::std::fs::File>> {
        Ok(WriterBuilder::new()
            .delimiter(self.separator)
            .from_path(path)?)
    }

    pub fn write(&self)''')]),
('b13-wr-split',[(WR,'''        let mut wtr = WriterBuilder::new()
            .delimiter(self.separator)
            .from_path(self.path_to_edges.as_path())?;

'''+WE+'''        wtr.flush()?;

        Ok(())
    }
''','''        self.write_edges()
    }

    fn write_edges(&self) -> Result<()> {
        let g = self.g.as_labeled_graph();
        let mut wtr = WriterBuilder::new()
            .delimiter(self.separator)
            .from_path(self.path_to_edges.as_path())?;

'''+WE+'''        wtr.flush()?;
        Ok(())
    }
''')]),
('b13-wr-ret',[(WR,'''        wtr.flush()?;

        Ok(())
''','''        Ok(wtr.flush()?)
''')]),
('b13-sc-filter',[(SC,NODES,'''            for path in files_in_dir.iter().filter(|p| node.is_match(p)) {
                let mut rdr = ReaderBuilder::new()
                    .delimiter(self.delimiter)
                    .from_path(path)?;

                for result in rdr.records() {
                    node.add_node::<Id, Ty>(result?, &mut g, &mut node_id_map);
                }
            }
''')]),
('b13-sc-cont',[(SC,RELS,'''            for path in &files_in_dir {
                if !relation.is_match(path) {
                    continue;
                }
                info!("Reading file '{}'", path.to_str().unwrap());

                let mut rdr = ReaderBuilder::new()
                    .delimiter(self.delimiter)
                    .from_path(path.clone())?;
                let mut records = rdr.records();
                while let Some(result) = records.next() {
                    let record = result?;
                    relation.add_edge::<Id, Ty>(record, &mut g, &mut node_id_map);
                }
            }
''')]),
('b13-sc-dir',[(SC,DIR,'''        for entry in fs::read_dir(path)? {
            let path = entry?.path();
            if !path.is_file() {
                continue;
            }
            files_in_dir.push(path);
        }
''')]),
('b13-sc-into',[(SC,'''                    for result in rdr.records() {
                        let record = result?;

                        node''','''                    for result in rdr.into_records() {
                        let record = result?;

                        node'''),]),
('b13-sc-match',[(SC,'''                    for result in rdr.records() {
                        let record = result?;

                        node.add_node::<Id, Ty>(record, &mut g, &mut node_id_map);
''','''                    for result in rdr.records() {
                        match result {
                            Ok(record) => {
                                node.add_node::<Id, Ty>(record, &mut g, &mut node_id_map)
                            }
                            Err(e) => return Err(e.into()),
                        }
''')]),
('b13-sc-swap',[(SC,'''        for node in self.nodes.iter() {
            for path in files_in_dir.iter() {
                if node''','''        for path in files_in_dir.iter() {
            for node in self.nodes.iter() {
                if node''')]),
('b13-mm-min',[(MM,DUMP,'''    while !slice.is_empty() {
        let (head, tail) = slice.split_at(cmp::min(slice.len(), 10000));
        writer.write_all(head)?;
        slice = tail;
    }
''')]),
('b13-mm-chunks',[(MM,DUMP,'''    for chunk in slice.chunks(10000) {
        writer.write_all(chunk)?;
    }
'''),(MM,'let mut slice = typed','let slice = typed')]),
('b13-mm-pos',[(MM,DUMP,'''    let mut pos = 0;
    while pos < slice.len() {
        let end = cmp::min(pos + 10000, slice.len());
        writer.write_all(&slice[pos..end])?;
        pos = end;
    }
'''),(MM,'let mut slice = typed','let slice = typed')]),
('b13-mm-once',[(MM,DUMP,'''    writer.write_all(slice)?;
'''),(MM,'let mut slice = typed','let slice = typed')]),
('b13-mm-stale',[(MM,'''        Err(ref e) if e.kind() == ErrorKind::NotFound => Ok(()),
        result => result,
''','''        Ok(()) => Ok(()),
        Err(e) => {
            if e.kind() == ErrorKind::NotFound {
                Ok(())
            } else {
                Err(e)
            }
        }
''')]),
('b13-mm-new',[(MM,'''            len: size.checked_div(type_len).unwrap_or(0),
            phn: PhantomData,
        }
    }

    pub fn with''','''            len: if type_len == 0 { 0 } else { size / type_len },
            phn: PhantomData,
        }
    }

    pub fn with''')]),
('b13-mm-match',[(MM,'''        let file = File::open(filename).expect("error opening file");
''','''        let file = match File::open(filename) {
            Ok(file) => file,
            Err(e) => panic!("error opening file: {:?}", e),
        };
''')]),
('b13-mm-size',[(MM,'''            slice.len() * mem::size_of::<T>(),
''','''            mem::size_of_val(slice),
''')]),
('b13-sd-match',[(SD,'''        serialize_into(&mut writer, &obj)?;
        writer.flush()?;

        Ok(())
''','''        serialize_into(&mut writer, &obj)?;
        Ok(writer.flush()?)
''')]),
('b13-sd-and',[(SD,'''        let mut writer = BufWriter::new(File::create(path)?);

        serialize_into(&mut writer, &obj)?;
        writer.flush()?;

        Ok(())
''','''        let file = File::create(path)?;
        let mut writer = BufWriter::with_capacity(1 << 16, file);
        serialize_into(&mut writer, obj)?;
        match writer.flush() {
            Ok(()) => Ok(()),
            Err(e) => Err(e.into()),
        }
''')]),
('b13-sd-read',[(SD,'''        let mut reader = BufReader::new(File::open(path)?);

        deserialize_from(&mut reader)
''','''        let file = File::open(path)?;
        deserialize_from(BufReader::new(file))
''')]),
]
