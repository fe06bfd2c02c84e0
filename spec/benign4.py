from seeds15 import *
B=[]
def b(i,*e): B.append((i,list(e)))
CCF='src/algorithm/conn_comp.rs'
b('r4-cc-entry',(CCF,"""        for node in graph.node_indices() {
            if !self.parent().contains_key(&node) {
                self.mut_parent().insert(node, node);
                self.count += 1;
            }
        }""","""        for node in graph.node_indices() {
            let mut added = false;
            self.mut_parent().entry(node).or_insert_with(|| {
                added = true;
                node
            });
            if added {
                self.count += 1;
            }
        }"""))
b('r4-cc-entry-match',(CCF,"""        if !self.parent().contains_key(&x) {
            self.mut_parent().insert(x, x);
            self.count += 1;
        }

        if !self.parent().contains_key(&y) {
            self.mut_parent().insert(y, y);
            self.count += 1;
        }
""","""        for &n in &[x, y] {
            let vacant = match self.mut_parent().entry(n) {
                ::std::collections::hash_map::Entry::Occupied(_) => false,
                ::std::collections::hash_map::Entry::Vacant(e) => {
                    e.insert(n);
                    true
                }
            };
            if vacant {
                self.count += 1;
            }
        }
"""))
b('r4-cc-getmut',(CCF,"""            self.mut_parent().insert(x_root, y_root);""","""            if let Some(p) = self.mut_parent().get_mut(&x_root) {
                *p = y_root;
            }"""))
