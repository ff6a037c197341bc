"""Comparison of a mesh with the incidence structure it must have."""
import numpy as np


def _ids(things, attr):
    return sorted(getattr(t, attr) for t in things)


def verify(ctx, mesh, nids, xyz, eids, tris, tol=0.0):
    """nids/xyz: expected grids; eids/tris: expected triangles (node ids)."""
    if not ctx.check(sorted(mesh.nodes) == sorted(nids), 'node ids %s instead of %s' % (sorted(mesh.nodes), sorted(nids))):
        return False
    if not ctx.check(sorted(mesh.elements) == sorted(eids), 'element ids %s instead of %s' % (sorted(mesh.elements), sorted(eids))):
        return False
    ok = True
    for nid, p in zip(nids, xyz):
        nd = mesh.nodes[nid]
        ok &= ctx.check(nd.nid == nid, 'node filed under another id')
        got = np.asarray(nd.xyz)
        p = np.asarray(p, float)
        ok &= ctx.check(got.shape == (3,) and got.dtype.kind == 'f' and
                        bool(np.all(np.abs(got - p) <= tol*(1 + np.abs(p).max()))),
                        'node %d at %s instead of %s' % (nid, got, p))
    pairs = {}
    of_node = {n: set() for n in nids}
    for eid, t in zip(eids, tris):
        el = mesh.elements[eid]
        ok &= ctx.check(el.eid == eid, 'element filed under another id')
        ok &= ctx.check(len(el.nodes) == 3 and all(el.nodes[k] is mesh.nodes[t[k]] for k in range(3)),
                        'element %d does not refer to its nodes %s' % (eid, t))
        ok &= ctx.check(list(el.node_ids) == list(t), 'element %d: node_ids %s' % (eid, el.node_ids))
        for a, b in ((0, 1), (1, 2), (2, 0)):
            pairs.setdefault(frozenset((t[a], t[b])), []).append(eid)
        for v in t:
            of_node[v].add(eid)
    for key, e in mesh.edges.items():
        ok &= ctx.check(key == (min(e.n1.nid, e.n2.nid), max(e.n1.nid, e.n2.nid)),
                        'edge of nodes %s, %s filed under %s' % (e.n1.nid, e.n2.nid, key))
    edges = list(mesh.edges.values())
    got_pairs = {}
    for e in edges:
        key = frozenset((e.n1.nid, e.n2.nid))
        ok &= ctx.check(key not in got_pairs, 'two edges between nodes %s' % sorted(key))
        got_pairs[key] = e
    ok &= ctx.check(set(got_pairs) == set(pairs), 'edges %s instead of %s' % (
        sorted(map(sorted, got_pairs)), sorted(map(sorted, pairs))))
    if not ok:
        return False
    for key, e in got_pairs.items():
        ok &= ctx.check(e.n1 is mesh.nodes[e.n1.nid] and e.n2 is mesh.nodes[e.n2.nid], 'edge refers to foreign nodes')
        ok &= ctx.check(len(e.nodes) == 2 and set(map(id, e.nodes)) == {id(e.n1), id(e.n2)} and
                        sorted(e.node_ids) == sorted(key), 'edge: nodes, n1/n2 and node_ids disagree')
        ok &= ctx.check(_ids(e.trias, 'eid') == sorted(pairs[key]), 'edge %s lists triangles %s instead of %s' % (
            sorted(key), _ids(e.trias, 'eid'), sorted(pairs[key])))
        ok &= ctx.check(all(t is mesh.elements[t.eid] for t in e.trias), 'edge refers to foreign triangles')
    for nid in nids:
        nd = mesh.nodes[nid]
        want = {id(e) for key, e in got_pairs.items() if nid in key}
        ok &= ctx.check(len(nd.edges) == len(want) and {id(e) for e in nd.edges} == want,
                        'node %d lists other edges than those it belongs to' % nid)
        ok &= ctx.check(len(nd.trias) == len(of_node[nid]) and set(nd.trias) == of_node[nid],
                        'node %d lists triangles %s instead of %s' % (nid, sorted(nd.trias), sorted(of_node[nid])))
    for eid, t in zip(eids, tris):
        el = mesh.elements[eid]
        want = [got_pairs[frozenset((t[a], t[b]))] for a, b in ((0, 1), (1, 2), (2, 0))]
        ok &= ctx.check(len(el.edges) == 3 and {id(e) for e in el.edges} == {id(e) for e in want},
                        'element %d lists other edges than its three sides' % eid)
    return ok
