EV='src/graph_impl/static_graph/edge_vec.rs'
OLD="            let found = neighbors.binary_search(&target);\n            match found {\n                Err(_) => None,\n                Ok(idx) => Some(self.get_offsets()[start.id()].id() + idx),\n            }\n"
OFF="self.get_offsets()[start.id()].id()"
HE="        self.find_edge_index(start, target).is_some()\n"
B=[
 ('b7-ev-for', [(EV, OLD, "            for (i, n) in neighbors.iter().enumerate() {\n                if *n == target {\n                    return Some("+OFF+" + i);\n                }\n            }\n            None\n")]),
 ('b7-ev-range', [(EV, OLD, "            for i in 0..neighbors.len() {\n                if neighbors[i] == target {\n                    return Some("+OFF+" + i);\n                }\n            }\n            None\n")]),
 ('b7-ev-while', [(EV, OLD, "            let mut i = 0;\n            while i < neighbors.len() {\n                if neighbors[i] == target {\n                    return Some("+OFF+" + i);\n                }\n                i += 1;\n            }\n            None\n")]),
 ('b7-ev-find', [(EV, OLD, "            neighbors\n                .iter()\n                .enumerate()\n                .find(|&(_, n)| *n == target)\n                .map(|(i, _)| "+OFF+" + i)\n")]),
 ('b7-ev-by', [(EV, OLD, "            neighbors\n                .binary_search_by(|n| n.cmp(&target))\n                .ok()\n                .map(|i| "+OFF+" + i)\n")]),
 ('b7-ev-contains', [(EV, HE, "        self.has_node(start) && self.has_node(target) && self.neighbors(start).contains(&target)\n")]),
 ('b7-ev-any', [(EV, HE, "        self.has_node(start) && self.has_node(target) && self.neighbors(start).iter().any(|n| *n == target)\n")]),
 ('b7-ev-loop', [(EV, HE, "        if !self.has_node(start) || !self.has_node(target) {\n            return false;\n        }\n        for n in self.neighbors(start) {\n            if *n == target {\n                return true;\n            }\n        }\n        false\n")]),
 ('b7-ev-bs', [(EV, HE, "        self.has_node(start)\n            && self.has_node(target)\n            && self.neighbors(start).binary_search(&target).is_ok()\n")]),
]
