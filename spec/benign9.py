U='src/algorithm/graph_union.rs'; MI='src/algorithm/graph_minus.rs'; GG='src/generic/graph.rs'; RN='src/graph_gen/random.rs'; GE='src/graph_gen/general.rs'; H='src/graph_gen/helper.rs'; BF='src/algorithm/bfs.rs'; DF='src/algorithm/dfs.rs'; G='src/graph_impl/graph_map/graph.rs'
def e(f,*p): return [(f,o,n) for o,n in p]
EQN="    for n in g.node_indices() {\n        if !gg.has_node(n) || g.get_node_label(n) != gg.get_node_label(n) {\n            return false;\n        }\n    }\n"
EQE="    for (s, d) in g.edge_indices() {\n        if !gg.has_edge(s, d) || g.get_edge_label(s, d) != gg.get_edge_label(s, d) {\n            return false;\n        }\n    }\n\n    true\n"
CNT="            .filter_map(|n| self.get_node_label(n))\n            .collect()\n"
B=[
 ('b9-u-foreach', e(U, ("        for id in $graph0.node_indices() {\n            $graph.add_node(id, $graph0.get_node_label(id).cloned());\n        }\n", "        $graph0.node_indices().for_each(|id| {\n            $graph.add_node(id, $graph0.get_node_label(id).cloned());\n        });\n"))),
 ('b9-u-while', e(U, ("        for (src, dst) in $graph1.edge_indices() {\n", "        let mut pairs = $graph1.edge_indices();\n        while let Some((src, dst)) = pairs.next() {\n"))),
 ('b9-u-both', e(U, ("        for id in $graph0.node_indices() {\n            $graph.add_node(id, $graph0.get_node_label(id).cloned());\n        }\n        for id in $graph1.node_indices() {\n            $graph.add_node(id, $graph1.get_node_label(id).cloned());\n        }\n        for (src, dst) in $graph0.edge_indices() {\n            $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());\n        }\n        for (src, dst) in $graph1.edge_indices() {\n            $graph.add_edge(src, dst, $graph1.get_edge_label(src, dst).cloned());\n        }\n", "        for g in [$graph0, $graph1].iter() {\n            for id in g.node_indices() {\n                $graph.add_node(id, g.get_node_label(id).cloned());\n            }\n        }\n        for g in [$graph0, $graph1].iter() {\n            for (src, dst) in g.edge_indices() {\n                $graph.add_edge(src, dst, g.get_edge_label(src, dst).cloned());\n            }\n        }\n"))),
 ('b9-u-perg', e(U, ("        for id in $graph1.node_indices() {\n            $graph.add_node(id, $graph1.get_node_label(id).cloned());\n        }\n        for (src, dst) in $graph0.edge_indices() {\n            $graph.add_edge(src, dst, $graph0.get_edge_label(src, dst).cloned());\n        }\n", "        for (src, dst) in $graph0.edge_indices() {\n            let label = $graph0.get_edge_label(src, dst);\n            $graph.add_edge(src, dst, label.map(|l| l.clone()));\n        }\n        for id in $graph1.node_indices() {\n            let label = $graph1.get_node_label(id);\n            $graph.add_node(id, label.map(|l| l.clone()));\n        }\n"))),
 ('b9-m-filter', e(MI, ("        for id in $graph0.node_indices() {\n            $graph.add_node(id, $graph0.get_node_label(id).cloned());\n        }\n", "        for id in $graph0.node_indices().filter(|&n| !$graph1.has_node(n)) {\n            $graph.add_node(id, $graph0.get_node_label(id).cloned());\n        }\n"))),
 ('b9-m-guard', e(MI, ("        for id in $graph1.node_indices() {\n            $graph.remove_node(id);\n        }\n", "        for id in $graph1.node_indices() {\n            if $graph.has_node(id) {\n                $graph.remove_node(id);\n            }\n        }\n"))),
 ('b9-m-collect', e(MI, ("        for id in $graph1.node_indices() {\n            $graph.remove_node(id);\n        }\n", "        let gone: Vec<Id> = $graph1.node_indices().collect();\n        for id in gone {\n            $graph.remove_node(id);\n        }\n"))),
 ('b9-m-order', e(MI, ("        for id in $graph1.node_indices() {\n            $graph.remove_node(id);\n        }\n        for (src, dst) in $graph1.edge_indices() {\n            $graph.remove_edge(src, dst);\n        }\n", "        for (src, dst) in $graph1.edge_indices() {\n            $graph.remove_edge(src, dst);\n        }\n        for id in $graph1.node_indices() {\n            $graph.remove_node(id);\n        }\n"))),
 ('b9-gg-all', e(GG, (EQN, "    if !g\n        .node_indices()\n        .all(|n| gg.has_node(n) && g.get_node_label(n) == gg.get_node_label(n))\n    {\n        return false;\n    }\n"), (EQE, "    g.edge_indices()\n        .all(|(s, d)| gg.has_edge(s, d) && g.get_edge_label(s, d) == gg.get_edge_label(s, d))\n"))),
 ('b9-gg-any', e(GG, (EQN, "    if g.node_indices()\n        .any(|n| !gg.has_node(n) || g.get_node_label(n) != gg.get_node_label(n))\n    {\n        return false;\n    }\n"))),
 ('b9-gg-flag', e(GG, (EQE, "    let mut same = true;\n    for (s, d) in g.edge_indices() {\n        if !gg.has_edge(s, d) || g.get_edge_label(s, d) != gg.get_edge_label(s, d) {\n            same = false;\n            break;\n        }\n    }\n\n    same\n"))),
 ('b9-gg-find', e(GG, (EQN, "    let differs = |n: Id| !gg.has_node(n) || g.get_node_label(n) != gg.get_node_label(n);\n    if g.node_indices().find(|&n| differs(n)).is_some() {\n        return false;\n    }\n"))),
 ('b9-gg-countn', e(GG, ("        self.node_labels().count()\n", "        self.get_node_label_map().len()\n"), ("        self.edge_labels().next().is_some()\n", "        self.num_of_edge_labels() > 0\n"))),
 ('b9-gg-loop', e(GG, ("        self.nodes().filter_map(|n| n.get_label_id()).collect()\n", "        let mut counter = Counter::new();\n        for n in self.nodes() {\n            if let Some(l) = n.get_label_id() {\n                *counter.entry(l).or_insert(0) += 1;\n            }\n        }\n        counter\n"))),
 ('b9-gg-flat', e(GG, ("        self.edges().filter_map(|e| e.get_label_id()).collect()\n", "        self.edges().flat_map(|e| e.get_label_id()).collect()\n"))),
 ('b9-gg-mapf', e(GG, (CNT, "            .map(|n| self.get_node_label(n))\n            .filter(|l| l.is_some())\n            .map(|l| l.unwrap())\n            .collect()\n"))),
 ('b9-rn-filter', e(RN, ("    for (s, d) in complete_edge_pairs::<Ty>(n) {\n        if rng.gen_range(0f32, 1f32) < p {\n            let label", "    for (s, d) in complete_edge_pairs::<Ty>(n) {\n        let keep = rng.gen_range(0f32, 1f32) < p;\n        if !keep {\n            continue;\n        }\n        {\n            let label"))),
 ('b9-rn-while', e(RN, ("    for (s, d) in complete_edge_pairs::<Ty>(n) {\n        if rng", "    let mut pairs = complete_edge_pairs::<Ty>(n);\n    while let Some((s, d)) = pairs.next() {\n        if rng"))),
 ('b9-rn-into', e(RN, ("    if let Ok(mut edges) = sampled_edges {\n        for (s, d) in edges.drain(..) {", "    if let Ok(edges) = sampled_edges {\n        for (s, d) in edges {"))),
 ('b9-rn-match', e(RN, ("    if let Ok(mut edges) = sampled_edges {\n        for (s, d) in edges.drain(..) {\n            let label = random_edge_label(&mut rng, &g);\n            g.add_edge(Id::new(s), Id::new(d), label);\n        }\n\n        g\n    } else {\n        panic!(\"m is too large.\");\n    }\n", "    let edges = match sampled_edges {\n        Ok(edges) => edges,\n        Err(_) => panic!(\"m is too large.\"),\n    };\n    for &(s, d) in edges.iter() {\n        let label = random_edge_label(&mut rng, &g);\n        g.add_edge(Id::new(s), Id::new(d), label);\n    }\n\n    g\n"))),
 ('b9-rn-range', e(RN, ("    if p < 0f32 || p > 1f32 {\n", "    if !(p >= 0f32 && p <= 1f32) && p == p {\n"))),
 ('b9-ge-while', e(GE, ("    for i in 0..n {\n        let label = random_node_label(&mut rng, &g);\n        g.add_node(Id::new(i), label);\n    }\n", "    let mut i = 0;\n    while i < n {\n        let label = random_node_label(&mut rng, &g);\n        g.add_node(Id::new(i), label);\n        i += 1;\n    }\n"))),
 ('b9-ge-foreach', e(GE, ("    for i in 0..n {\n        let label = random_node_label(&mut rng, &g);\n        g.add_node(Id::new(i), label);\n    }\n", "    (0..n).map(Id::new).for_each(|id| {\n        let label = random_node_label(&mut rng, &g);\n        g.add_node(id, label);\n    });\n"))),
 ('b9-ge-helper', e(GE, ("    for (s, d) in complete_edge_pairs::<Ty>(n) {\n        let label = random_edge_label(&mut rng, &g);\n        g.add_edge(Id::new(s), Id::new(d), label);\n    }\n", "    for (s, d) in complete_edge_pairs::<Ty>(n).map(|(s, d)| (Id::new(s), Id::new(d))) {\n        let label = random_edge_label(&mut rng, &g);\n        g.add_edge(s, d, label);\n    }\n"))),
 ('b9-h-chain', e(H, ("                .tuple_combinations()\n                .flat_map(|(s, d)| vec![(s, d), (d, s)]),\n", "                .tuple_combinations()\n                .chain((0..n).tuple_combinations().map(|(s, d)| (d, s))),\n"))),
 ('b9-h-nested', e(H, ("            (0..n)\n                .tuple_combinations()\n                .flat_map(|(s, d)| vec![(s, d), (d, s)]),\n", "            (0..n).flat_map(move |s| (0..n).filter(move |&d| d != s).map(move |d| (s, d))),\n"))),
 ('b9-h-nested2', e(H, ("        Iter::new(Box::new((0..n).tuple_combinations()))\n", "        Iter::new(Box::new(\n            (0..n).flat_map(move |s| (s + 1..n).map(move |d| (s, d))),\n        ))\n"))),
 ('b9-bf-find', e(BF, ("        for node in self.discovered.ones() {\n            if self.graph.has_node(Id::new(node)) {\n                return Some(Id::new(node));\n            }\n        }\n        None\n", "        self.discovered\n            .ones()\n            .map(Id::new)\n            .find(|&id| self.graph.has_node(id))\n"))),
 ('b9-bf-filter', e(BF, ("            for neighbour in self.graph.neighbors_iter(current_node) {\n                if self.discovered.contains(neighbour.id()) {\n                    self.discovered.set(neighbour.id(), false);\n                    self.queue.push_back(neighbour);\n                }\n            }\n            Some(current_node)\n", "            for neighbour in self.graph.neighbors_iter(current_node) {\n                if !self.discovered.contains(neighbour.id()) {\n                    continue;\n                }\n                self.queue.push_back(neighbour);\n                self.discovered.set(neighbour.id(), false);\n            }\n            Some(current_node)\n"))),
 ('b9-bf-q', e(BF, ("        if let Some(current_node) = self.queue.pop_front() {\n            for neighbour in self.graph.neighbors_iter(current_node) {\n                if self.discovered.contains(neighbour.id()) {\n                    self.discovered.set(neighbour.id(), false);\n                    self.queue.push_back(neighbour);\n                }\n            }\n            Some(current_node)\n        } else {\n            None\n        }\n", "        let current_node = self.queue.pop_front()?;\n        for &neighbour in self.graph.neighbors(current_node).iter() {\n            if self.discovered.contains(neighbour.id()) {\n                self.discovered.set(neighbour.id(), false);\n                self.queue.push_back(neighbour);\n            }\n        }\n        Some(current_node)\n"))),
 ('b9-bf-start', e(BF, ("                let id = graph.node_indices().next().unwrap();\n                queue.push_back(id);\n                discovered.set(id.id(), false);\n", "                for id in graph.node_indices().take(1) {\n                    queue.push_back(id);\n                    discovered.set(id.id(), false);\n                }\n"))),
 ('b9-bf-toggle', e(BF, ("                if self.discovered.contains(neighbour.id()) {\n                    self.discovered.set(neighbour.id(), false);\n", "                if self.discovered[neighbour.id()] {\n                    self.discovered.toggle(neighbour.id());\n"))),
 ('b9-df-empty', e(DF, ("        if self.stack.len() == 0 {\n            if let Some(id) = self.next_unvisited_node() {\n                self.stack.push(id);\n                self.discovered.set(id.id(), false);\n            }\n        }\n", "        if self.stack.is_empty() {\n            let next = self.next_unvisited_node();\n            if let Some(id) = next {\n                self.discovered.set(id.id(), false);\n                self.stack.push(id);\n            }\n        }\n"))),
]
