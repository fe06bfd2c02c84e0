import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds12 import *
P = ['C15', 'C16', 'C17']
SEEDS = [
 dict(id='b12-chunks', benign=True, props=P, edits=[(IOM, """    let mut slice = typed_as_byte_slice(data);

    while !slice.is_empty() {
        let to_write = if slice.len() < 10000 {
            slice.len()
        } else {
            10000
        };
        writer.write_all(&slice[..to_write])?;
        slice = &slice[to_write..];
    }
""", """    for chunk in typed_as_byte_slice(data).chunks(10000) {
        writer.write_all(chunk)?;
    }
""")]),
 dict(id='b12-oneshot', benign=True, props=P, edits=[(IOM, """    let mut slice = typed_as_byte_slice(data);

    while !slice.is_empty() {
        let to_write = if slice.len() < 10000 {
            slice.len()
        } else {
            10000
        };
        writer.write_all(&slice[..to_write])?;
        slice = &slice[to_write..];
    }

    writer.flush()
""", """    let bytes = typed_as_byte_slice(data);
    writer.write_all(bytes)?;
    match writer.flush() {
        Ok(()) => Ok(()),
        Err(e) => Err(e),
    }
""")]),
 dict(id='b12-min', benign=True, props=P, edits=[(IOM, """        let to_write = if slice.len() < 10000 {
            slice.len()
        } else {
            10000
        };
        writer.write_all(&slice[..to_write])?;
        slice = &slice[to_write..];
""", """        let (head, tail) = slice.split_at(cmp::min(10000, slice.len()));
        writer.write_all(head)?;
        slice = tail;
""")]),
 dict(id='b12-helper', benign=True, props=P, edits=[(EV, """        let offsets_file = format!("{}.offsets", prefix);
        let edges_file = format!("{}.edges", prefix);
        let labels_file = format!("{}.labels", prefix);

        unsafe {
            dump(self.get_offsets(), File::create(offsets_file)?)?;
            dump(self.get_edges(), File::create(edges_file)?)?;

            if !self.get_labels().is_empty() {
                dump(self.get_labels(), File::create(labels_file)?)
            } else {
                remove_stale(labels_file)
            }
        }
    }
}
""", """        write_array(prefix, "offsets", self.get_offsets())?;
        write_array(prefix, "edges", self.get_edges())?;

        let labels = self.get_labels();
        if labels.is_empty() {
            return remove_stale(format!("{}.{}", prefix, "labels"));
        }
        write_array(prefix, "labels", labels)
    }
}

fn write_array<T: Copy>(prefix: &str, part: &str, data: &[T]) -> Result<()> {
    let file = File::create(prefix.to_owned() + "." + part)?;
    unsafe { dump(data, file) }
}
""")]),
 dict(id='b12-loader', benign=True, props=P, edits=[(MME, """        if metadata(&labels_file).is_ok() {
            EdgeVecMmap {
                offsets: TypedMemoryMap::new(&offsets_file),
                edges: TypedMemoryMap::new(&edges_file),
                labels: Some(TypedMemoryMap::new(&labels_file)),
            }
        } else {
            EdgeVecMmap {
                offsets: TypedMemoryMap::new(&offsets_file),
                edges: TypedMemoryMap::new(&edges_file),
                labels: None,
            }
        }
""", """        let labels = metadata(&labels_file)
            .ok()
            .map(|_| TypedMemoryMap::new(&labels_file));
        EdgeVecMmap {
            offsets: TypedMemoryMap::new(&offsets_file),
            edges: TypedMemoryMap::new(&edges_file),
            labels,
        }
"""), (MMG, """        let in_edges = if metadata(&format!("{}.offsets", in_edge_prefix)).is_ok() {
            Some(EdgeVecMmap::new(&in_edge_prefix))
        } else {
            None
        };

        let labels = if metadata(&labels_file).is_ok() {
            Some(TypedMemoryMap::new(&labels_file))
        } else {
            None
        };
""", """        let in_offsets = format!("{}.offsets", in_edge_prefix);
        let in_edges = match metadata(in_offsets) {
            Ok(_) => Some(EdgeVecMmap::new(in_edge_prefix.as_str())),
            Err(_) => None,
        };
        let labels = if ::std::path::Path::new(&labels_file).exists() {
            Some(TypedMemoryMap::new(labels_file))
        } else {
            None
        };
""")]),
 dict(id='b12-csv', benign=True, props=P, edits=[(CSVW, """        let mut wtr = WriterBuilder::new()
            .delimiter(self.separator)
            .from_path(self.path_to_nodes.as_path())?;

        for id""", """        let mut wtr = self.writer(&self.path_to_nodes)?;

        for id"""), (CSVW, """        let mut wtr = WriterBuilder::new()
            .delimiter(self.separator)
            .from_path(self.path_to_edges.as_path())?;
""", """        let mut wtr = self.writer(&self.path_to_edges)?;
"""), (CSVW, """    pub fn write(&self) -> Result<()> {
""", """    fn writer(&self, path: &Path) -> Result<::csv::Writer<::std::fs::File>> {
        let mut builder = WriterBuilder::new();
        builder.delimiter(self.separator);
        Ok(builder.from_path(path)?)
    }

    pub fn write(&self) -> Result<()> {
"""), (CSVW, """        for id in self.g.node_indices() {
            wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;
        }
""", """        self.g
            .node_indices()
            .map(|id| wtr.serialize(NodeRecord::new(id, g.get_node_label(id))))
            .collect::<::std::result::Result<(), _>>()?;
""")]),
 dict(id='b12-map', benign=True, props=P, edits=[(IOM, """        let size = map.len();
        let type_len = mem::size_of::<T>();
        Self {
            map,
            len: size.checked_div(type_len).unwrap_or(0),
            phn: PhantomData,
        }
""", """        let len = Self::count(map.len());
        TypedMemoryMap { map, len, phn: PhantomData }
    }

    fn count(bytes: usize) -> usize {
        match mem::size_of::<T>() {
            0 => 0,
            n => bytes / n,
        }
"""), (IOM, "        &self[..][.._index.end]", "        let all: &[T] = &self[..];\n        assert!(_index.end <= all.len());\n        &all[0.._index.end]"),
 (IOM, "        &self[..][_index.start..]", "        let n = self[..].len();\n        &self[..][_index.start..n]")]),
 dict(id='b12-aux', benign=True, props=P, edits=[(SGR, """        if let Some(ref labels) = self.labels {
            unsafe {
                dump(labels, ::std::fs::File::create(label_file)?)?;
            }
        } else {
            remove_stale(label_file)?;
        }

""", ""), (SGR, """        Serializer::export(&aux_file, &aux_map_file)?;

        Ok(())""", """        Serializer::export(&aux_file, &aux_map_file)?;

        match self.labels {
            None => remove_stale(label_file),
            Some(ref labels) => {
                let file = ::std::fs::File::create(label_file)?;
                unsafe { dump(&labels[..], file) }
            }
        }""")]),
]
