import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds16 import *
CL = """            path_to_nodes: self.path_to_nodes.clone(),
            path_to_edges: self.path_to_edges.clone(),
            separator: self.separator.clone(),
            has_headers: self.has_headers.clone(),
            is_flexible: self.is_flexible.clone(),
            _ph"""
CCC = "#[derive(Debug, Clone)]\npub struct ConnComp<Id: IdType> {\n"
def ccclone(body): return [(CCF, CCC, CCC.replace(", Clone", "")), (CCF, "impl<Id: IdType> ConnComp<Id> {\n    /// Create a new **ConnComp** by", "impl<Id: IdType> Clone for ConnComp<Id> {\n    fn clone(&self) -> Self {\n" + body + "    }\n}\n\nimpl<Id: IdType> ConnComp<Id> {\n    /// Create a new **ConnComp** by")]
EQI = "impl<Id: IdType, L: IdType> Edge<Id, L> {"
def edeq(body): return [(GI, "#[derive(Debug, PartialEq, Eq, Clone)]\npub struct Edge<", "#[derive(Debug, Eq, Clone)]\npub struct Edge<"), (GI, EQI, "impl<Id: IdType, L: IdType> PartialEq for Edge<Id, L> {\n    fn eq(&self, other: &Self) -> bool {\n" + body + "    }\n}\n\n" + EQI)]
ETD = "#[derive(Debug, Clone, PartialEq, Eq)]\npub enum EdgeType<Id: IdType, L: IdType = Id> {\n    Edge(Edge<Id, L>),\n    None,\n}\n"
def eteq(body): return [(GE_, ETD, ETD.replace(", PartialEq", "") + "\nimpl<Id: IdType, L: IdType> PartialEq for EdgeType<Id, L> {\n    fn eq(&self, other: &Self) -> bool {\n" + body + "    }\n}\n")]
ARM = """        match s.as_ref() {
            "graphmap" => Ok(GraphImpl::GraphMap),
            "staticgraph" => Ok(GraphImpl::StaticGraph),
            "staticgraphmmap" => Ok(GraphImpl::StaicGraphMmap),
"""
B = [
 ('b5-fe-foreach', [(G, FE, "        edges.into_iter().for_each(|(src, dst)| {\n            g.add_node(src, None);\n            g.add_node(dst, None);\n            g.add_edge(src, dst, None);\n        });\n")]),
 ('b5-fe-fold', [(G, "        let mut g = TypedGraphMap::new();\n" + FE + "\n        g\n", "        edges.into_iter().fold(TypedGraphMap::new(), |mut g, (src, dst)| {\n            g.add_edge(src, dst, None);\n            g\n        })\n")]),
 ('b5-fe-nonodes', [(G, FE, "        for (src, dst) in edges {\n            g.add_edge(src, dst, None);\n        }\n")]),
 ('b5-fe-check', [(G, FE, "        for (src, dst) in edges {\n            if !g.has_node(src) {\n                g.add_node(src, None);\n            }\n            if !g.has_edge(src, dst) {\n                g.add_edge(src, dst, None);\n            }\n        }\n")]),
 ('b5-fe-collect', [(G, FE, "        let edges: Vec<(Id, Id)> = edges.into_iter().collect();\n        for &(src, dst) in edges.iter() {\n            g.add_node(src, None);\n            g.add_node(dst, None);\n        }\n        for (src, dst) in edges {\n            g.add_edge(src, dst, None);\n        }\n")]),
 ('b5-fe-capacity', [(G, "        let mut g = TypedGraphMap::new();\n" + FE, "        let edges = edges.into_iter();\n        let mut g = TypedGraphMap::with_capacity(edges.size_hint().0, edges.size_hint().0, 0, 0);\n" + FE)]),
 ('b5-it-count', [(ITF, "        self.inner.count()\n", "        self.inner.fold(0, |n, _| n + 1)\n")]),
 ('b5-it-hint', [(ITF, "        self.inner.size_hint()\n", "        let (low, high) = self.inner.size_hint();\n        (low, high)\n")]),
 ('b5-it-next', [(ITF, "        self.inner.next()\n", "        let Iter { ref mut inner } = *self;\n        match inner.next() {\n            Some(x) => Some(x),\n            None => None,\n        }\n")]),
 ('b5-cl-rd', [(RDR, CL, CL.replace("self.separator.clone()", "self.separator").replace("self.path_to_nodes.clone()", "match self.path_to_nodes {\n                Some(ref p) => Some(p.to_path_buf()),\n                None => None,\n            }"))]),
 ('b5-cl-cc', ccclone("        let parent_ref = RefCell::new(self.parent_ref.borrow().clone());\n        ConnComp { parent_ref, count: self.get_count() }\n")),
 ('b5-cl-cc2', ccclone("        ConnComp { parent_ref: self.parent_ref.clone(), count: self.count }\n")),
 ('b5-eq-edge', edeq("        self.src == other.src && self.dst == other.dst && self.label == other.label\n")),
 ('b5-eq-edge2', edeq("        if self.label != other.label {\n            return false;\n        }\n        (self.src, self.dst) == (other.src, other.dst)\n")),
 ('b5-eq-edge3', edeq("        let labels = match (self.label, other.label) {\n            (Some(a), Some(b)) => a == b,\n            (None, None) => true,\n            _ => false,\n        };\n        labels && self.dst == other.dst && self.src.id() == other.src.id()\n")),
 ('b5-eq-et', eteq("        match (self, other) {\n            (&EdgeType::Edge(ref a), &EdgeType::Edge(ref b)) => a == b,\n            (&EdgeType::None, &EdgeType::None) => true,\n            _ => false,\n        }\n")),
 ('b5-eq-et2', eteq("        match *self {\n            EdgeType::Edge(ref a) => match *other {\n                EdgeType::Edge(ref b) => a == b,\n                EdgeType::None => false,\n            },\n            EdgeType::None => if let EdgeType::None = *other { true } else { false },\n        }\n")),
 ('b5-fs-chain', [(GIM, ARM, ARM.replace('"graphmap" =>', 'name if name == "graphmap" =>'))]),
 ('b5-fs-ascii', [(GIM, "s.to_lowercase()", "s.to_ascii_lowercase()")]),
 ('b5-fs-ifs', [(GIM, ARM, "        if s == \"graphmap\" {\n            return Ok(GraphImpl::GraphMap);\n        }\n" + ARM)]),
]
