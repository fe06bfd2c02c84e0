N='src/graph_impl/graph_map/node.rs'; G='src/graph_impl/graph_map/graph.rs'; SM='src/map/set_map.rs'; VM='src/map/vec_map.rs'
def e(f,o,n): return [(f,o,n)]
HN="        self.neighbors.contains_key(&id)\n"; HI="        self.in_neighbors.contains(&id)\n"
SF="        match self.labels.get_full(item) {\n            Some((i, _)) => Some(i),\n            None => None,\n        }\n"
VF="        for (i, elem) in self.labels.iter().enumerate() {\n            if elem == item {\n                return Some(i);\n            }\n        }\n\n        None\n"
B=[
 ('b8-n-any', e(N, HN, "        self.neighbors.keys().any(|n| *n == id)\n")),
 ('b8-n-iter', e(N, HN, "        self.neighbors_iter().any(|n| n == id)\n")),
 ('b8-n-get', e(N, HN, "        self.neighbors.get(&id).is_some()\n")),
 ('b8-n-loop', e(N, HN, "        for (n, _) in &self.neighbors {\n            if *n == id {\n                return true;\n            }\n        }\n        false\n")),
 ('b8-n-inany', e(N, HI, "        self.in_neighbors.iter().any(|n| *n == id)\n")),
 ('b8-n-infind', e(N, HI, "        self.in_neighbors.iter().find(|n| **n == id).is_some()\n")),
 ('b8-n-vec', e(N, HN, "        self.neighbors().contains(&id)\n")),
 ('b8-n-range', e(N, HN, "        self.neighbors.range(id..).next().map_or(false, |(n, _)| *n == id)\n")),
 ('b8-n-find', e(N, "        self.neighbors.get(&id).map(|x| *x)\n", "        self.neighbors\n            .iter()\n            .find(|&(n, _)| *n == id)\n            .map(|(_, l)| *l)\n")),
 ('b8-g-any', e(G, "        self.node_map.contains_key(&id)\n", "        self.node_map.keys().any(|n| *n == id)\n")),
 ('b8-g-idx', e(G, "        self.node_map.contains_key(&id)\n", "        self.get_node(id).is_some()\n")),
 ('b8-sm-pos', e(SM, SF, "        self.labels.iter().position(|l| l == item)\n")),
 ('b8-sm-any', e(SM, "        self.labels.contains(item)\n", "        self.labels.iter().any(|l| l == item)\n")),
 ('b8-sm-loop', e(SM, SF, "        for (i, l) in self.labels.iter().enumerate() {\n            if l == item {\n                return Some(i);\n            }\n        }\n        None\n")),
 ('b8-vm-pos', e(VM, VF, "        self.labels.iter().position(|l| l == item)\n")),
 ('b8-vm-range', e(VM, VF, "        for i in 0..self.labels.len() {\n            if self.labels[i] == *item {\n                return Some(i);\n            }\n        }\n        None\n")),
 ('b8-vm-while', e(VM, VF, "        let mut i = 0;\n        while i < self.labels.len() {\n            if &self.labels[i] == item {\n                return Some(i);\n            }\n            i += 1;\n        }\n        None\n")),
 ('b8-vm-find', e(VM, VF, "        self.labels\n            .iter()\n            .enumerate()\n            .find(|&(_, l)| l == item)\n            .map(|(i, _)| i)\n")),
 ('b8-vm-fm', e(VM, VF, "        self.labels\n            .iter()\n            .enumerate()\n            .filter_map(|(i, l)| if l == item { Some(i) } else { None })\n            .next()\n")),
 ('b8-vm-cont', e(VM, "        self.find_index(item).is_some()\n", "        self.labels.contains(item)\n")),
]
