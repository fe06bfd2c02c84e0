"""Compile-fail witnesses: pairs of small programs against the current tree's type-checked crate.  The first program of a
pair uses the interface as promised and must type-check (otherwise the pair says nothing); the second differs in one
respect that the property forbids and must be rejected by the compiler."""
import os, subprocess, glob, tempfile, concurrent.futures as cf

PRE = '''#![allow(warnings)]
extern crate rust_graph;
use rust_graph::prelude::*;
use rust_graph::generic::*;
use rust_graph::graph_impl::*;
'''
DI, UN, DS, US, MM = 'DiGraphMap<u32>', 'UnGraphMap<u32>', 'DiStaticGraph<u32>', 'UnStaticGraph<u32>', 'StaticGraphMmap<u32, u32, u32>'

def pairs():
    P = []
    def ty(name, good, bad, body, extra=''):
        P.append((name, PRE + extra + 'fn f(g: %s) { %s }\nfn main() {}\n' % (good, body), PRE + extra + 'fn f(g: %s) { %s }\nfn main() {}\n' % (bad, body)))
    # directed operations only on directed graphs
    for op, body in (('in_degree', 'g.in_degree(0);'), ('in_neighbors', 'g.in_neighbors(0);'), ('in_neighbors_iter', 'g.in_neighbors_iter(0);'),
                     ('directed view', 'let d: &DiGraphTrait<u32, u32> = g; d.node_count();')):
        for k, a, b in (('mutable', DI, UN), ('static', DS, US)):
            ty('%s of an undirected %s graph' % (op, k), '&' + a, '&' + b, body)
    ty('directed operation on a general graph', '&DiGraphTrait<u32, u32>', '&GeneralGraph<u32, u32, u32, u32>', 'g.in_degree(0);')
    # mutating operations only on mutable graphs
    for op, body in (('add_node', 'g.add_node(0, None);'), ('add_edge', 'g.add_edge(0, 1, None);'), ('remove_node', 'g.remove_node(0);'),
                     ('remove_edge', 'g.remove_edge(0, 1);'), ('get_node_mut', 'g.get_node_mut(0);'), ('get_edge_mut', 'g.get_edge_mut(0, 1);'),
                     ('nodes_mut', 'g.nodes_mut();'), ('edges_mut', 'g.edges_mut();'),
                     ('update_node_label', 'g.update_node_label(0, None);'), ('update_edge_label', 'g.update_edge_label(0, 1, None);'),
                     ('mutable view', 'let m: &mut MutGraphTrait<u32, u32, u32, u32> = g; m.add_node(0, None);')):
        for k, b in (('directed static', DS), ('undirected static', US), ('memory-mapped', MM)):
            ty('%s on a %s graph' % (op, k), '&mut ' + DI, '&mut ' + b, body)
        ty('%s through a shared reference' % op, '&mut ' + UN, '&' + UN, body)
    ty('mutable view of a shared general graph', '&mut GeneralGraph<u32, u32, u32, u32>', '&GeneralGraph<u32, u32, u32, u32>', 'g.as_mut_graph();')
    # conversions keep the direction
    P.append(('static form of the other direction', PRE + 'fn f(g: %s) -> %s { g.into_static() }\nfn main() {}\n' % (DI, DS), PRE + 'fn f(g: %s) -> %s { g.into_static() }\nfn main() {}\n' % (DI, US)))
    # what borrows a graph keeps it unmodified
    def borrow(name, ty_, make, use, change='g.add_node(9, None);'):
        pre = PRE + 'fn f(g: &mut %s) { ' % ty_
        P.append((name, pre + '{ let x = %s; %s } %s }\nfn main() {}\n' % (make, use, change), pre + 'let x = %s; %s %s }\nfn main() {}\n' % (make, change, use)))
    for t, d in ((DI, 'directed'), (UN, 'undirected')):
        for nm, make, use in (('nodes()', 'g.nodes()', 'x.count();'), ('edges()', 'g.edges()', 'x.count();'), ('node_indices()', 'g.node_indices()', 'x.count();'),
                              ('edge_indices()', 'g.edge_indices()', 'x.count();'), ('neighbors_iter()', 'g.neighbors_iter(0)', 'x.count();'),
                              ('neighbors()', 'g.neighbors(0)', 'x.len();'), ('get_node()', 'g.get_node(0)', 'x.get_id();'),
                              ('get_node_mut()', 'g.get_node_mut(0)', 'x.get_id();'), ('get_edge_mut()', 'g.get_edge_mut(0, 1)', 'x.get_start();'),
                              ('nodes_mut()', 'g.nodes_mut()', 'x.count();'), ('edges_mut()', 'g.edges_mut()', 'x.count();'),
                              ('get_node_label()', 'g.get_node_label(0)', 'x.is_some();'), ('get_edge_label()', 'g.get_edge_label(0, 1)', 'x.is_some();'),
                              ('node_labels()', 'g.node_labels()', 'x.count();'), ('edge_labels()', 'g.edge_labels()', 'x.count();'),
                              ('get_node_label_map()', 'g.get_node_label_map()', 'x.len();'), ('get_edge_label_map()', 'g.get_edge_label_map()', 'x.len();'),
                              ('as_graph()', 'g.as_graph()', 'x.node_count();'), ('as_labeled_graph()', 'g.as_labeled_graph()', 'x.node_count();'),
                              ('as_general_graph()', 'g.as_general_graph()', 'x.node_count();'), ('as_mut_graph()', 'g.as_mut_graph().unwrap()', 'x.add_node(1, None);')) + \
                             ((('in_neighbors_iter()', 'g.in_neighbors_iter(0)', 'x.count();'), ('in_neighbors()', 'g.in_neighbors(0)', 'x.len();'),
                               ('as_digraph()', 'g.as_digraph().unwrap()', 'x.node_count();')) if t == DI else ()):
            borrow('%s graph changed while %s is alive' % (d, nm), t, make, use)
    for t, d in ((DS, 'directed static'), (US, 'undirected static'), (MM, 'memory-mapped')):
        for nm, make, use in (('neighbors()', 'g.neighbors(0)', 'x.len();'), ('neighbors_iter()', 'g.neighbors_iter(0)', 'x.count();'), ('nodes()', 'g.nodes()', 'x.count();'), ('edges()', 'g.edges()', 'x.count();')):
            pre = PRE + 'fn f(mut g: %s, h: %s) { ' % (t, t)
            P.append(('%s graph replaced while %s is alive' % (d, nm), pre + '{ let x = %s; %s } g = h; }\nfn main() {}\n' % (make, use), pre + 'let x = %s; g = h; %s }\nfn main() {}\n' % (make, use)))
    # no handle outlives its graph
    for t, d in ((DI, 'mutable'), (DS, 'static'), (MM, 'memory-mapped')):
        for nm, ret, make in (('nodes()', 'usize', 'g.nodes()'), ('neighbors()', 'usize', 'g.neighbors(0)'), ('node_indices()', 'usize', 'g.node_indices()'), ('edge_indices()', 'usize', 'g.edge_indices()')):
            P.append(('%s of a %s graph outlives it' % (nm, d), PRE + "fn f(g: %s) { let x = %s; let _y = &x; }\nfn main() {}\n" % (t, make),
                      PRE + "fn f(g: %s) { let x = %s; drop(g); let _y = &x; }\nfn main() {}\n" % (t, make)))
    return P

def run(build, only=None):
    """[(name, verdict, detail)] with verdict in rejected / accepted / no-twin"""
    tdir = os.path.join(build, 'target', 'debug')
    libs = glob.glob(tdir + '/build/rust_graph/*/out/librust_graph-*.rmeta') + glob.glob(tdir + '/deps/librust_graph-*.rmeta')
    if not libs: return None
    lib = max(libs, key=os.path.getmtime)
    dirs = sorted({os.path.dirname(p) for p in glob.glob(tdir + '/build/*/*/out/*.rmeta') + glob.glob(tdir + '/build/*/*/out/*.so') + glob.glob(tdir + '/deps/*.rmeta')})
    ps = [p for p in pairs() if only is None or only in p[0]]
    out = []
    with tempfile.TemporaryDirectory() as td:
        def compile(i, k, src):
            f = os.path.join(td, 'w%d_%d.rs' % (i, k))
            open(f, 'w').write(src)
            cmd = ['rustc', '+nightly', '--edition', '2015', '--crate-type', 'bin', '--crate-name', 'w%d_%d' % (i, k), '--emit=metadata', '-o', f + '.rmeta', '--extern', 'rust_graph=' + lib, f]
            for d in dirs: cmd += ['-L', 'dependency=' + d]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return r.returncode, r.stdout.decode(errors='replace')
        with cf.ThreadPoolExecutor(8) as ex:
            jobs = [(p, ex.submit(compile, i, 0, p[1]), ex.submit(compile, i, 1, p[2])) for i, p in enumerate(ps)]
            for p, a, b in jobs:
                (ra, oa), (rb, ob) = a.result(), b.result()
                err = next((l for l in ob.splitlines() if l.startswith('error')), '')
                if ra: out.append((p[0], 'no-twin', next((l for l in oa.splitlines() if l.startswith('error')), oa[:200])))
                elif rb == 0: out.append((p[0], 'accepted', p[2]))
                elif not err.startswith('error[E'): out.append((p[0], 'no-twin', 'compiler: ' + ob[:200]))
                else: out.append((p[0], 'rejected', err))
    return out

if __name__ == '__main__':
    import sys, collections, time
    t = time.time()
    r = run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None)
    print(collections.Counter(x[1] for x in r), time.time() - t)
    for x in r:
        if x[1] != 'rejected': print(x)
    print(collections.Counter(x[2][:60] for x in r))
