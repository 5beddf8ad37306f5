"""C09: copies of networks are faithful and independent; queries report what they describe."""
import numpy as np
import tensornetwork as tn
from tensornetwork import network_operations as no, network_components as nc
from runner import Scenario
from tnlib import value, dangling, wellformed, structure, wiring, build, hash_order, data

BOUNDS = ("every wiring (dangling, parallel, trace edges; either direction of each edge) of one to three nodes with up to 6 legs, "
          "ordinary and copy nodes, every subset of the nodes copied / every subset of dangling edges traced out, complex symbolic "
          "entries, both orders of set iteration")
OUTSIDE = "larger networks; sharing of the underlying array between a node and its copy (not promised)"


def net(ctx, ranks, kinds=None, cplx=True):
  flips = ctx.choice("directions", [0, 1])
  pairs, _ = wiring(ctx, ranks)
  dims = (lambda k: 2) if kinds or len(ranks) > 1 and sum(ranks) > 5 else (lambda k: 2 + k % 2)
  nodes, edges = build(ctx, ranks, pairs, dims, cplx, flip=lambda j: (j + flips) % 2, kinds=kinds)
  for i, n in enumerate(nodes):
    n.add_axis_names([f"{i}ax{k}" for k in range(ranks[i])])
  return nodes


def subset(ctx, name, xs):
  return [x for i, x in enumerate(xs) if ctx.choice(f"{name}{i}", [True, False])]


def as_kind(ctx, xs):
  k = ctx.pick("container", 0, 2)
  return list(xs) if k == 0 else (set(xs) if k == 1 else iter(list(xs)))


def check_copy(ctx, nodes, sub, copies, conj, edge_dict=None):
  ctx.check(len(copies) == len(sub), "one copy per node")
  for n, c in zip(sub, copies):
    ctx.check(c is not n and type(c) is type(n), "new node of the same kind")
    ctx.check(c.name == n.name and list(c.axis_names) == list(n.axis_names), "names")
    ctx.check(c.backend.name == n.backend.name, "backend")
    ctx.eq(data(c), np.conj(data(n)) if conj else data(n), "entries")
    for k, e in enumerate(n.edges):
      f = c.edges[k]
      ctx.check(f is not e and f.name == e.name, "edge copied with its name")
      ends = [(a, b) for a, b in ((e.node1, e.axis1), (e.node2, e.axis2)) if a is not None and any(a is s for s in sub)]
      got = [(a, b) for a, b in ((f.node1, f.axis1), (f.node2, f.axis2)) if a is not None]
      want = [(copies[next(i for i, s in enumerate(sub) if s is a)], b) for a, b in ends]
      ctx.check(len(got) == len(want) and all(any(a is x and b == y for x, y in got) for a, b in want), "same wiring")
      if edge_dict is not None:
        ctx.check(edge_dict[e] is f, "edge_dict leads to the edge of the copy")
  wellformed(ctx, copies, "copy")


def contract_all(ctx, nodes):
  """destroys the network"""
  nodes = list(nodes)
  while True:
    live = [e for n in nodes for e in n.edges if not e.is_dangling()]
    if not live:
      return nodes
    e = live[0]
    a, b = e.node1, e.node2
    r = tn.contract(e)
    nodes = [n for n in nodes if n is not a and n is not b] + [r]


def copying(ctx, api, ranks, kinds=None):
  with hash_order(ctx):
    nodes = net(ctx, ranks, kinds)
    conj = ctx.choice("conjugate", [False, True])
    sub = subset(ctx, "copy", nodes)
    free = dangling(nodes)
    before, st = value(nodes, free), structure(nodes)
    arg = as_kind(ctx, sub)
    if api == "copy":
      nd, ed = tn.copy(arg, conj)
      ctx.check(len(nd) == len(sub) and all(any(k is s for s in sub) for k in nd), "node_dict keys")
      copies = [nd[s] for s in sub]
      es = {id(e) for s in sub for e in s.edges}
      ctx.check({id(e) for e in ed} == es, "edge_dict keys")
      check_copy(ctx, nodes, sub, copies, conj, ed)
    else:
      if isinstance(arg, set):
        return
      copies = tn.replicate_nodes(arg, conj)
      check_copy(ctx, nodes, sub, copies, conj)
    ctx.check(structure(nodes) == st, "original structure")
    # the copy can be changed without touching the original
    for c in copies:
      c.set_tensor(c.get_tensor() * 3)
    contract_all(ctx, copies)
    ctx.check(structure(nodes) == st, "original structure after using the copy")
    wellformed(ctx, nodes, "original")
    ctx.eq(value(nodes, free), before, "original value")


def single(ctx, rank, kind):
  """node.copy"""
  nodes = net(ctx, (rank, 1), [kind, None] if kind else None)
  st = structure(nodes)
  conj = ctx.choice("conjugate", [False, True])
  c = nodes[0].copy(conj)
  check_copy(ctx, nodes, [nodes[0]], [c], conj)
  ctx.check(structure(nodes) == st, "original structure")


def density(ctx, ranks):
  with hash_order(ctx):
    nodes = net(ctx, ranks)
    free = dangling(nodes)
    if not free:
      return
    traced = subset(ctx, "trace", free)
    if not traced:
      return
    # only the component(s) reached from the traced edges take part
    part = list(tn.reachable([e.node1 for e in traced]))
    free = dangling(part)
    psi = value(part, free)
    n = len(free)
    lab = list(range(n))
    clab = [i if any(free[i] is t for t in traced) else n + i for i in range(n)]
    out = [i for i in range(n) if clab[i] != i]
    want = np.einsum(psi, lab, np.conj(psi), clab, out + [n + i for i in out])
    arg = as_kind(ctx, traced)
    nd, ed = tn.reduced_density(arg)
    ctx.check({id(k) for k in nd} == {id(p) for p in part}, "node_dict keys")
    allnodes = part + [nd[p] for p in part]
    wellformed(ctx, allnodes, "density")
    keep = [free[i] for i in out]
    ctx.check({id(e) for e in dangling(allnodes)} == {id(e) for e in keep} | {id(ed[e]) for e in keep}, "dangling edges")
    ctx.eq(value(allnodes, keep + [ed[e] for e in keep]), want, "density matrix")
    for t in traced:
      e = ed[t]
      ctx.check(not e.is_dangling() and any(e is x for p in part for x in p.edges), "traced edges connect state and conjugate")


def bad_density(ctx):
  nodes = net(ctx, (2, 2))
  es = list({id(e): e for n in nodes for e in n.edges if not e.is_dangling()}.values())
  if not es:
    return
  st = structure(nodes)
  e = ctx.choice("edge", list(range(len(es))))
  ctx.raises(ValueError, lambda: tn.reduced_density([es[e]] + dangling(nodes)), "connected edges cannot be traced out")
  ctx.check(structure(nodes) == st, "unchanged")


def removing(ctx, ranks):
  with hash_order(ctx):
    nodes = net(ctx, ranks)
    node = nodes[0]
    vals = [data(n) for n in nodes]
    conn = {k: e for k, e in enumerate(node.edges) if not e.is_dangling() and e.node1 is not e.node2}
    far = {k: ((e.node2, e.axis2) if e.node1 is node else (e.node1, e.axis1)) for k, e in conn.items()}
    by_name, by_axis = tn.remove_node(node)
    ctx.check(set(by_axis) == set(conn) and set(by_name) == {node.axis_names[k] for k in conn}, "keys")
    for k, (m, a) in far.items():
      e = by_axis[k]
      ctx.check(e is by_name[node.axis_names[k]] and e is m.edges[a] and e.is_dangling(), "broken edge on the other node")
    wellformed(ctx, nodes[1:], "rest")
    wellformed(ctx, [node], "removed node")
    for n, v in zip(nodes, vals):
      ctx.eq(data(n), v, "tensors unchanged")


def queries(ctx, ranks):
  with hash_order(ctx):
    nodes = net(ctx, ranks, cplx=False)
    st = structure(nodes)
    adj = {id(n): set() for n in nodes}
    for n in nodes:
      for e in n.edges:
        for m in (e.node1, e.node2):
          if m is not None:
            adj[id(n)].add(id(m))
    sub = subset(ctx, "sub", nodes)
    ids = {id(n) for n in sub}

    def closure(s):
      s = set(s)
      while True:
        t = s | {y for x in s for y in adj[x]}
        if t == s:
          return s
        s = t

    def same(got, want, what):
      got = list(got)
      ctx.check(len(got) == len({id(g) for g in got}) and {id(g) for g in got} == set(want), what)

    if sub:
      same(tn.reachable(sub), closure(ids), "reachable from nodes")
      es = [e for n in sub for e in n.edges]
      if es:
        same(tn.reachable(es), closure({id(e.node1) for e in es}), "reachable from edges")
        same(tn.reachable(es[-1]), closure({id(es[-1].node1)}), "reachable from an edge")
      same(tn.reachable(sub[0]), closure({id(sub[0])}), "reachable from a node")
      con = closure({id(sub[0])}) >= ids
      for f in (lambda: tn.check_connected(sub), lambda: tn.check_correct(sub)):
        if con:
          f()
        else:
          ctx.raises(ValueError, f, "not connected")
      tn.check_correct(sub, check_connections=False)
    alle = {id(e): e for n in sub for e in n.edges}
    same(tn.get_all_edges(sub), alle, "get_all_edges")
    same(tn.get_all_nodes(list(alle.values())), {id(m) for e in alle.values() for m in (e.node1, e.node2) if m is not None}, "get_all_nodes")
    rel = {k for k, e in alle.items() if e.node2 is None or id(e.node1) not in ids or id(e.node2) not in ids}
    same(tn.get_subgraph_dangling(sub), rel, "get_subgraph_dangling")
    same(tn.get_subgraph_dangling(set(sub)), rel, "get_subgraph_dangling")
    same(tn.get_all_nondangling(sub), {k for k, e in alle.items() if e.node2 is not None}, "get_all_nondangling")
    d = nc.get_all_dangling(sub)
    ctx.check([id(e) for e in d] == [id(e) for n in sub for e in n.edges if e.node2 is None], "get_all_dangling in order")
    a = nodes[0]
    nb = tn.get_neighbors(a)
    want = []
    for e in a.edges:
      o = e.node2 if e.node1 is a else e.node1
      if o is not None and o is not a and not any(o is x for x in want):
        want.append(o)
    ctx.check([id(x) for x in nb] == [id(x) for x in want], "get_neighbors")
    for b in nodes:
      sh = {id(e) for e in a.edges if e.node2 is not None and {id(e.node1), id(e.node2)} == {id(a), id(b)}}
      same(tn.get_shared_edges(a, b), sh, "get_shared_edges")
      if sh:
        e0 = next(e for e in a.edges if id(e) in sh)
        same(nc.get_parallel_edges(e0), sh, "get_parallel_edges")
    ctx.check(structure(nodes) == st, "queries change nothing")


def redirect(ctx, ranks):
  nodes = net(ctx, ranks)
  old = nodes[0]
  k = ctx.pick("edge", 0, ranks[0] - 1)
  e = old.edges[k]
  new = tn.Node(ctx.tensor("new", data(old).shape, True), backend="numpy")
  free = dangling(nodes)
  axes = [a for m, a in ((e.node1, e.axis1), (e.node2, e.axis2)) if m is old]
  far = [(m, a) for m, a in ((e.node1, e.axis1), (e.node2, e.axis2)) if m is not None and m is not old]
  tn.redirect_edge(e, new, old)
  wellformed(ctx, nodes + [new], "redirect")
  for a in axes:
    ctx.check(new.edges[a] is e and old.edges[a] is not e, "edge moved")
  for m, a in far:
    ctx.check(m.edges[a] is e, "other end unchanged")
  ctx.check((len(axes) == 2) == e.is_trace(), "trace")
  other = tn.Node(data(old), backend="numpy")
  ctx.raises(ValueError, lambda: tn.redirect_edge(e, new, other), "edge not on the node")
  wellformed(ctx, nodes + [new], "rejected redirect")


def scenarios(tier):
  th = tier == "thorough"
  out = []
  for api in ("copy", "replicate"):
    for r in [(0,), (2,), (3,), (4,), (2, 2), (1, 2, 1)] + ([(2, 2, 2), (3, 2)] if th else [(2, 1, 2)]):
      out.append(Scenario(f"{api} {r}", copying, api, r))
    for r, k in [((2, 2), ["copy", None]), ((3, 1), ["copy", None]), ((3,), ["copy"])] + ([((3, 3), ["copy", None]), ((4, 1), ["copy", None])] if th else []):
      out.append(Scenario(f"{api} copy node {r} {k}", copying, api, r, k))
  for r in (1, 2, 3, 4):
    for k in (None, "copy"):
      out.append(Scenario(f"single {r} {k}", single, r, k))
  for r in [(1,), (3,), (2, 2), (1, 2, 1), (2, 1, 1)] + ([(3, 2), (2, 2, 2)] if th else []):
    out.append(Scenario(f"reduced density {r}", density, r))
  out.append(Scenario("reduced density of connected edges", bad_density))
  for r in [(0,), (3,), (3, 2), (2, 1, 2)] + ([(3, 2, 1), (4, 2)] if th else []):
    out.append(Scenario(f"remove {r}", removing, r))
  for r in [(3,), (3, 2), (2, 2, 1), (1, 1, 1)] + ([(2, 2, 2), (3, 2, 1)] if th else []):
    out.append(Scenario(f"queries {r}", queries, r))
  for r in [(3,), (3, 1), (2, 2)]:
    out.append(Scenario(f"redirect {r}", redirect, r))
  return out
