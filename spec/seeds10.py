import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seeds9 import *
MG, MAPG, NODEM = 'src/graph_impl/static_graph/mmap/graph_mmap.rs', 'src/graph_impl/graph_map/graph.rs', 'src/graph_impl/graph_map/node.rs'
PREMM = '''extern crate rust_graph;
use rust_graph::prelude::*;
use rust_graph::generic::*;
use rust_graph::graph_impl::*;
'''
DT, SM, VM = 'src/generic/dtype.rs', 'src/map/set_map.rs', 'src/map/vec_map.rs'
PREM = '''extern crate rust_graph;
use rust_graph::prelude::*;
use rust_graph::map::*;
use rust_graph::generic::*;
'''
SEEDS = [
 dict(id='c34-new-32bit', prop='C34',
  edits=[(DT, '''                    x as $type
''', '''                    x as u32 as $type
''')],
  needs='a usize id above 2^32', what='the id of a large number is another number',
  demo=PREM+'''fn main() {
    for x in &[0usize, 5, 1 << 20, (1 << 32) - 1, 1 << 32, (1 << 40) + 3] { assert_eq!(<usize as IdType>::new(*x).id(), *x); }
}
'''),
 dict(id='c34-id-signed', prop='C34',
  edits=[(DT, '''                    *self as usize
''', '''                    *self as i32 as usize
''')],
  needs='a 32-bit id of at least 2^31', what='the number of a large id is sign-extended',
  demo=PREM+'''fn main() {
    for x in &[0usize, 5, 1 << 20, 1 << 31, (1 << 32) - 2] { assert_eq!(<u32 as IdType>::new(*x).id(), *x); }
}
'''),
 dict(id='c34-increment-16', prop='C34',
  edits=[(DT, '''                    *self + 1
''', '''                    (*self as u16).wrapping_add(1) as $type
''')],
  needs='an id of at least 65535', what='the successor of id 65535 is 0',
  demo=PREM+'''fn main() {
    for x in &[0usize, 5, 255, 65534, 65535, 70000] { assert_eq!(<u32 as IdType>::new(*x).increment().id(), *x + 1); }
}
'''),

 dict(id='c32-vec-duplicates', prop='C32',
  edits=[(VM, """    fn from(vec: Vec<L>) -> Self {
        vec.into_iter().collect()
    }""", """    fn from(vec: Vec<L>) -> Self {
        VecMap::with_data(vec)
    }""")],
  needs='a vector with a repeated item', what='an item has two indices',
  demo=PREM+'''fn main() {
    let m: VecMap<u32> = VecMap::from(vec![3, 4, 3, 5]);
    assert_eq!(m.len(), 3);
    for i in 0..m.len() { assert_eq!(m.find_index(m.get_item(i).unwrap()), Some(i)); }
}
'''),
 dict(id='c32-set-from-vecmap', prop='C32',
  edits=[(SM, """        let data = vec_map.items_vec();

        SetMap::from_vec(data)""", """        let mut map = SetMap::new();
        let mut vec_map = vec_map;

        while let Some(item) = ::generic::MutMapTrait::pop_item(&mut vec_map) {
            map.add_item(item);
        }

        map""")],
  needs='a vector map of two or more items', what='the converted map numbers the items backwards',
  demo=PREM+'''fn main() {
    let v: VecMap<u32> = vec![3, 4, 5].into_iter().collect();
    let s: SetMap<u32> = SetMap::from(v.clone());
    for i in 0..v.len() { assert_eq!(v.get_item(i), s.get_item(i)); }
}
'''),
 dict(id='c32-set-from-rev', prop='C32',
  edits=[(SM, """        let data = vec_map.items_vec();

        SetMap::from_vec(data)""", """        vec_map.items_vec().into_iter().rev().collect()""")],
  needs='a vector map of two or more items', what='the converted map numbers the items backwards',
  demo=PREM+'''fn main() {
    let v: VecMap<u32> = vec![3, 4, 5].into_iter().collect();
    let s: SetMap<u32> = SetMap::from(v.clone());
    for i in 0..v.len() { assert_eq!(v.get_item(i), s.get_item(i)); }
}
'''),
 dict(id='c32-cached-position', prop='C32',
  edits=[(VM, """        for (i, elem) in self.labels.iter().enumerate() {
            if elem == item {
                return Some(i);
            }
        }

        None""", """        let n = self.labels.len();
        if n > 64 && &self.labels[n - 1] == item {
            return Some(n);
        }
        for (i, elem) in self.labels.iter().enumerate() {
            if elem == item {
                return Some(i);
            }
        }

        None""")],
  needs='a map of more than 64 items asked for its last one', what='the index found is one too large',
  demo=PREM+'''fn main() {
    let v: VecMap<u32> = (0..100).collect();
    for i in 0..v.len() { assert_eq!(v.find_index(v.get_item(i).unwrap()), Some(i)); }
}
'''),
 dict(id='c32-half-search', prop='C32',
  edits=[(VM, """        for (i, elem) in self.labels.iter().enumerate() {
            if elem == item {""", """        for (i, elem) in self.labels.iter().enumerate() {
            if i > u16::max_value() as usize {
                break;
            }
            if elem == item {""")],
  needs='a map of more than 65536 items', what='items far behind are not found',
  demo=PREM+'''fn main() {
    let v: VecMap<u32> = VecMap::with_data((0..70000).collect());
    assert_eq!(v.find_index(&69999), Some(69999));
}
'''),
 dict(id='c32-set-index-after-pop', prop='C32',
  edits=[(SM, """    fn get_item(&self, id: usize) -> Option<&L> {
        self.labels.get_index(id)
    }""", """    fn get_item(&self, id: usize) -> Option<&L> {
        if id + 1 >= self.labels.capacity() {
            return None;
        }
        self.labels.get_index(id)
    }""")],
  needs='a set filled to its capacity', what='the last item is not found',
  demo=PREM+'''fn main() {
    let mut s: SetMap<u32> = SetMap::new();
    for i in 0..5000 { s.add_item(i); assert_eq!(s.get_item(i as usize), Some(&i)); }
}
'''),

 dict(id='c39-mmap-always-directed', prop='C39',
  edits=[(MG, """        if self.is_directed() {
            Some(self)
        } else {
            None
        }""", """        if self.node_count() > 0 {
            Some(self)
        } else {
            None
        }""")],
  needs='a memory-mapped undirected graph seen through GeneralGraph', what='it offers the directed view',
  demo=PREMM+'''fn main() {
    let dir = std::env::temp_dir().join(format!("c39mm{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let prefix = dir.join("g").to_str().unwrap().to_owned();
    let mut g: UnGraphMap<u32> = UnGraphMap::new();
    g.add_edge(0, 1, None);
    g.into_static().dump_mmap(&prefix).unwrap();
    let m = StaticGraphMmap::<u32, u32, u32>::new(&prefix);
    let some = m.as_digraph().is_some();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(!some);
}
'''),
 dict(id='c39-di-map-not-mutable', prop='C39',
  edits=[(MAPG, """    #[inline(always)]
    fn as_digraph(&self) -> Option<&DiGraphTrait<Id, L>> {
        Some(self)
    }

    #[inline(always)]
    fn as_mut_graph(&mut self) -> Option<&mut MutGraphTrait<Id, NL, EL, L>> {
        Some(self)
    }""", """    #[inline(always)]
    fn as_digraph(&self) -> Option<&DiGraphTrait<Id, L>> {
        Some(self)
    }""")],
  needs='a mutable directed graph seen through GeneralGraph', what='the mutable view is not offered',
  demo=PREMM+'''fn main() {
    let mut g: DiGraphMap<u32> = DiGraphMap::new();
    let b: &mut GeneralGraph<u32, u32, u32> = &mut g;
    assert!(b.as_mut_graph().is_some());
}
'''),
 dict(id='c39-in-edges-for-all', prop='C39',
  edits=[(MAPG, """impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> DiGraphTrait<Id, L>
    for TypedDiGraphMap<Id, NL, EL, L>
{""", """impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> DiGraphTrait<Id, L>
    for TypedGraphMap<Id, NL, EL, Ty, L>
{""")],
  needs='a program that asks an undirected graph for in-neighbours', what='the program compiles',
  demo=PREMM+'''use std::marker::PhantomData;
struct W<T>(PhantomData<T>);
trait No { const DI: bool = false; }
impl<T> No for W<T> {}
impl<T: DiGraphTrait<u32, u32>> W<T> { const DI: bool = true; }
fn main() {
    assert!(W::<DiGraphMap<u32>>::DI);
    assert!(!W::<UnGraphMap<u32>>::DI);
}
'''),
 dict(id='c39-detached-row', prop='C39',
  edits=[(NODEM, """    fn neighbors(&self) -> Vec<Id>""", """    fn neighbors(&self) -> Vec<Id>""")],
  needs='', what='', demo='') if False else None,
]
SEEDS = [s for s in SEEDS if s]
if __name__ == '__main__':
    print(len(SEEDS))
