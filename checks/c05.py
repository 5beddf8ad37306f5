"""C05: flatten / split / slice / reorder only relabel data."""
import itertools
import numpy as np
from runner import Scenario
import tensornetwork as tn
from tnlib import value, dangling, wellformed, wiring, build, hash_order, data

BOUNDS = ("1 or 2 nodes of total rank up to 7 with every wiring, both set-iteration orders; every permutation of up to 4 axes; "
          "flattening of every ordered selection of up to 3 edges; splitting dimension 4, 6 and 8 axes by every factorisation; "
          "slices with every start in [-d-2, d+1] and length in [-1, d+1] of d = 2..4; symbolic entries")
OUTSIDE = "larger ranks and dimensions; other backends (C24)"


def d2(k):
  return 2


def d23(k):
  return 2 + k % 2


def same(ctx, nodes, free, before, label):
  wellformed(ctx, nodes, label)
  ctx.eq(value(nodes, free), before, f"value {label}")


def reorder(ctx, ranks, dim):
  with hash_order(ctx):
    pairs, _ = wiring(ctx, ranks)
    flips = ctx.choice("flip", [0, 1])
    nodes, edges = build(ctx, ranks, pairs, dim, flip=lambda j: flips)
    n = nodes[0]
    n.add_axis_names([f"a{i}" for i in range(ranks[0])])
    free = dangling(nodes)
    before = value(nodes, free)
    t, es = data(n).copy(), n.edges[:]
    p = ctx.perm("p", ranks[0])
    how = ctx.choice("how", ["axes", "edges"])
    trace = any(e.node1 is e.node2 for e in es)
    if how == "edges":
      if trace:
        ctx.raises(ValueError, lambda: n.reorder_edges([es[i] for i in p]), "trace edges not supported")
        ctx.eq(n.tensor, t, "unchanged")
        same(ctx, nodes, free, before, "after rejection")
        return
      order = [es[i] for i in p]
      r = n.reorder_edges(order)
      ctx.check(all(a is es[i] for a, i in zip(order, p)), "argument unchanged")
      ctx.eq(n.tensor_from_edge_order(es), t, "tensor_from_edge_order")
    else:
      r = n.reorder_axes(list(p))
    ctx.check(r is n, "returns the node")
    ctx.eq(n.tensor, t.transpose(p), "tensor permuted")
    ctx.check(all(a is es[i] for a, i in zip(n.edges, p)), "edges permuted")
    ctx.check(list(n.axis_names) == [f"a{i}" for i in p], "axis names permuted")
    same(ctx, nodes, free, before, how)


def bad_reorder(ctx, n):
  """reorder with an arbitrary list of axes / edges: exactly the permutations are accepted, a rejection changes nothing"""
  node = tn.Node(ctx.tensor("a", (2,) * n), backend="numpy")
  other = tn.Node(ctx.tensor("b", (2,) * 2), backend="numpy")
  tn.connect(node[0], other[0])
  es = node.edges[:]
  t = data(node).copy()
  m = ctx.pick("len", 0, n + 1)
  how = ctx.choice("how", ["axes", "edges"])
  lst = [ctx.pick(f"p{i}", 0, n) for i in range(m)]
  good = sorted(lst) == list(range(n))
  pool = es + [other.edges[1]]
  call = (lambda: node.reorder_axes(lst)) if how == "axes" else (lambda: node.reorder_edges([pool[i] for i in lst]))
  if good:
    call()
    ctx.eq(node.tensor, t.transpose(lst), "permuted")
    ctx.check(all(a is es[i] for a, i in zip(node.edges, lst)), "edges permuted")
  else:
    ctx.raises((ValueError, IndexError), call, "not a permutation")
    ctx.eq(node.tensor, t, "tensor unchanged")
    ctx.check(len(node.edges) == n and all(a is b for a, b in zip(node.edges, es)), "edges unchanged")
  wellformed(ctx, [node, other], how)


def flatten(ctx, ranks, dim, kind):
  with hash_order(ctx):
    pairs, _ = wiring(ctx, ranks)
    flips = ctx.choice("flip", [0, 1])
    nodes, edges = build(ctx, ranks, pairs, dim, flip=lambda j: flips)
    free = dangling(nodes)
    before = value(nodes, free)
    groups = {}
    for e in edges:
      groups.setdefault(frozenset((id(e.node1), id(e.node2))), []).append(e)
    if kind == "edges":
      for n in nodes:
        d = [e for e in n.edges if e.is_dangling()]
        if d:
          groups[("free", id(n))] = d
      groups = {k: v for k, v in groups.items() if len(v) >= 2}
      if not groups:
        return
      key = ctx.choice("group", sorted(groups, key=lambda k: [id(e) in [id(x) for x in groups[k]] for n in nodes for e in n.edges]))
      g = groups[key]
      sel = [e for i, e in enumerate(g) if len(g) == 2 or ctx.pick(f"sel{i}", 0, 1)]
      if len(sel) < 2 or len(sel) > 3:
        return
      sel = [sel[i] for i in ctx.perm("order", len(sel))]
      new = tn.flatten_edges(sel, new_edge_name="flat")
      ctx.check(all(e.is_disabled for e in sel), "old edges disabled")
      ctx.check(new.name == "flat", "name")
      if isinstance(key, tuple):
        rest = [e for e in free if not any(e is s for s in sel)]
        k = len(sel)
        full = value_reordered(before, free, rest + sel)
        want = full.reshape(full.shape[:full.ndim - k] + (int(np.prod(full.shape[full.ndim - k:])),))
        wellformed(ctx, nodes, kind)
        ctx.eq(value(nodes, rest + [new]), want, "flattened dangling edge, row-major in the given order")
        return
    elif kind == "between":
      new = tn.flatten_edges_between(nodes[0], nodes[-1])
      key = frozenset((id(nodes[0]), id(nodes[-1])))
      if key not in groups:
        ctx.check(new is None, "no shared edges")
      else:
        left = {id(e) for n in nodes for e in n.edges
                if not e.is_dangling() and frozenset((id(e.node1), id(e.node2))) == key}
        ctx.check(left == {id(new)}, "one edge left")
    else:
      tn.flatten_all_edges(nodes)
      left = {}
      for n in nodes:
        for e in n.edges:
          if not e.is_dangling():
            left.setdefault(frozenset((id(e.node1), id(e.node2))), set()).add(id(e))
      ctx.check(set(left) == set(groups) and all(len(v) == 1 for v in left.values()), "one edge per pair")
    same(ctx, nodes, free, before, kind)


def value_reordered(t, old, new):
  return t.transpose([next(i for i, e in enumerate(old) if e is x) for x in new])


FACTORS = {4: [(2, 2), (1, 4), (4, 1), (2, 1, 2)], 6: [(2, 3), (3, 2), (1, 6)], 8: [(2, 2, 2), (2, 4), (4, 2)]}


def split(ctx, ranks, d):
  with hash_order(ctx):
    pairs, _ = wiring(ctx, ranks)
    # dimension d on the edge that is split, 2 elsewhere
    which = ctx.pick("which", 0, len(pairs) + sum(ranks) - 2 * len(pairs) - 1)
    nodes, edges = build(ctx, ranks, pairs, lambda k: d if k == which else 2,
                         flip=lambda j: j % 2)
    free = dangling(nodes)
    if which < len(pairs):
      e = edges[which]
    else:
      e = next(x for x in free if x.dimension == d)
    before = value(nodes, free)
    shape = ctx.choice("shape", FACTORS[d])
    names = ctx.choice("names", [None, [f"s{i}" for i in range(len(shape))]])
    new = tn.split_edge(e, shape, new_edge_names=names)
    ctx.check([x.dimension for x in new] == list(shape), "dimensions of the new edges")
    ctx.check(e.is_disabled, "old edge disabled")
    if names:
      ctx.check([x.name for x in new] == names, "names")
    wellformed(ctx, nodes, "split")
    if any(e is f for f in free):
      rest = [f for f in free if f is not e]
      want = value_reordered(before, free, rest + [e])
      want = want.reshape(want.shape[:-1] + tuple(shape))
      ctx.eq(value(nodes, rest + new), want, "split dangling edge")
      back = tn.flatten_edges(new)
      wellformed(ctx, nodes, "flatten after split")
      ctx.eq(value(nodes, rest + [back]), value_reordered(before, free, rest + [e]), "flatten inverts split")
    else:
      ctx.eq(value(nodes, free), before, "split")
      if not ctx.choice("contract", [False, True]):
        tn.flatten_edges(new)
        same(ctx, nodes, free, before, "flatten inverts split")
      else:
        n1, n2 = new[0].get_nodes()
        r = tn.contract_parallel(new[0])
        live = [r] + [n for n in nodes if n is not n1 and n is not n2]
        same(ctx, live, free, before, "contract after split")


def bad_split(ctx, ranks):
  nodes, edges = build(ctx, ranks, [((0, 0), (1, 0))], lambda k: 4 if k == 0 else 2)
  free = dangling(nodes)
  before = value(nodes, free)
  shape = tuple(ctx.pick(f"s{i}", 1, 4) for i in range(2))
  if int(np.prod(shape)) == 4:
    tn.split_edge(edges[0], shape)
  else:
    ctx.raises(ValueError, lambda: tn.split_edge(edges[0], shape), "wrong factorisation")
    ctx.check(not edges[0].is_disabled, "edge still there")
  same(ctx, nodes, free, before, "split")


def slicing(ctx, kind, d):
  """slice_edge on connected, dangling and trace edges with arbitrary start and length"""
  if kind == "connected":
    ranks, pairs = (3, 2), [((0, 1), (1, 0))]
  elif kind == "trace":
    ranks, pairs = (3,), [((0, 0), (0, 2))]
  else:
    ranks, pairs = (2,), []
  nodes, edges = build(ctx, ranks, pairs, lambda k: d if k == 0 else 2, flip=lambda j: ctx.pick("flip", 0, 1))
  start, length = ctx.pick("start", -d - 2, d + 1), ctx.pick("length", -1, d + 1)
  e = edges[0] if edges else nodes[0].edges[0]
  old = [data(n).copy() for n in nodes]
  s = start + d if start < 0 else start
  ok = length > 0 and 0 <= s and s + length <= d
  if not ok:
    ctx.raises(ValueError, lambda: tn.slice_edge(e, start, length), "invalid slice")
    for n, t in zip(nodes, old):
      ctx.eq(n.tensor, t, "unchanged after rejection")
    wellformed(ctx, nodes, kind)
    return
  r = tn.slice_edge(e, start, length)
  ctx.check(r is e and e.dimension == length, "edge with the new dimension")
  for i, (n, t) in enumerate(zip(nodes, old)):
    for x, ed in enumerate(n.edges):
      if ed is e:
        t = t[(slice(None),) * x + (slice(s, s + length),)]
    ctx.eq(n.tensor, t, "restricted to the index range")
  wellformed(ctx, nodes, kind)


def scenarios(tier):
  out = []
  th = tier == "thorough"
  for r in [(2,), (3,), (3, 2), (2, 2), (4,)] + ([(4, 2), (5,)] if th else []):
    out.append(Scenario(f"reorder {r}", reorder, r, d23 if sum(r) < 5 else d2))
  for n in (1, 2):
    out.append(Scenario(f"reorder arbitrary list {n}", bad_reorder, n))
  if th:
    out.append(Scenario("reorder arbitrary list 3", bad_reorder, 3))
  for r in [(2,), (3,), (4,), (2, 2), (3, 2), (3, 3), (4, 2)] + ([(5,), (6,), (4, 3)] if th else []):
    out.append(Scenario(f"flatten_edges {r}", flatten, r, d23 if sum(r) < 5 else d2, "edges"))
  for r in [(4,), (2, 2), (3, 3), (2, 2, 2), (6,)]:
    out.append(Scenario(f"flatten_edges_between {r}", flatten, r, d2, "between"))
    out.append(Scenario(f"flatten_all_edges {r}", flatten, r, d2, "all"))
  for d in FACTORS:
    for r in [(2,), (1, 1), (2, 1), (3,), (2, 2)] + ([(3, 2), (2, 1, 1)] if th else []):
      out.append(Scenario(f"split_edge {r} d={d}", split, r, d))
  out.append(Scenario("split_edge wrong shape", bad_split, (2, 2)))
  for kind in ("connected", "trace", "dangling"):
    for d in (2, 3, 4):
      out.append(Scenario(f"slice_edge {kind} {d}", slicing, kind, d))
  return out
