"""C04: nodes and edges stay mutually consistent under every history of operations."""
import numpy as np
from runner import Scenario
import tensornetwork as tn
from tnlib import wellformed, hash_order, data, structure

BOUNDS = ("all histories of up to 3 operations (thorough 4) out of connect, disconnect, contract, contract_between, "
          "reorder_axes, reorder_edges, flatten, split and slice on 1 to 3 nodes of total rank up to 4, every choice of edge "
          "arguments among the edges seen so far in the history (also outdated and disabled ones), dimensions 2, 3 and 4; "
          "every single replacement of an edge or axis number for check_correct on 2 nodes of rank 2")
OUTSIDE = "longer histories and larger networks; failures inside a backend call (for example a reshape that runs out of memory)"


def snapshot(nodes):
  return structure(nodes), [data(n).copy() for n in nodes]


def same_graph(ctx, nodes, snap, label):
  st, ts = snap
  ctx.check(structure(nodes) == st, f"rejected {label} leaves the wiring as it was")
  for n, t in zip(nodes, ts):
    ctx.eq(data(n), t, f"rejected {label} leaves the tensors")


def current(nodes, e):
  return any(x is e for n in nodes for x in n.edges)


def step(ctx, k, nodes, pool, ops, last):
  op = ctx.choice(f"op{k}", ops)
  snap = snapshot(nodes)
  P = len(pool)
  rejected = False
  must_fail = may_fail = False
  try:
    if op == "connect":
      i = ctx.pick(f"i{k}", 0, P - 1)
      j = ctx.pick(f"j{k}", 0, P - 1)
      a, b = pool[i], pool[j]
      # an outdated dangling edge may stand for its axis as long as that axis is free
      may_fail = not current(nodes, a) or not current(nodes, b)
      must_fail = not may_fail and (a is b or not a.is_dangling() or not b.is_dangling() or a.dimension != b.dimension)
      new = tn.connect(a, b)
    elif op == "disconnect":
      e = pool[ctx.pick(f"i{k}", 0, P - 1)]
      must_fail = not current(nodes, e) or e.is_dangling()
      new = e.disconnect()
    elif op == "contract":
      e = pool[ctx.pick(f"i{k}", 0, P - 1)]
      must_fail = not current(nodes, e) or e.is_dangling()
      new = tn.contract(e)
    elif op == "between":
      i, j = ctx.pick(f"i{k}", 0, len(nodes) - 1), ctx.pick(f"j{k}", 0, len(nodes) - 1)
      must_fail = not tn.get_shared_edges(nodes[i], nodes[j])
      new = tn.contract_between(nodes[i], nodes[j])
    elif op == "between order":
      # arbitrary list of surviving edges as output order
      if len(nodes) < 2:
        return nodes, pool
      es = [x for x in nodes[0].edges + nodes[1].edges]
      m = ctx.pick(f"len{k}", 1, 3)
      lst = [es[ctx.pick(f"p{k}.{x}", 0, len(es) - 1)] for x in range(m)]
      shared = tn.get_shared_edges(nodes[0], nodes[1])
      remain = [x for x in es if x not in shared]
      must_fail = (len(lst) != len(remain) or any(x.is_trace() for x in remain) or
                   {id(x) for x in lst} != {id(x) for x in remain})
      new = tn.contract_between(nodes[0], nodes[1], allow_outer_product=True, output_edge_order=lst)
    elif op == "reorder":
      n = nodes[ctx.pick(f"i{k}", 0, len(nodes) - 1)]
      r = len(n.edges)
      p = [ctx.pick(f"p{k}.{x}", 0, r - 1) for x in range(r)] if r <= 2 else ctx.perm(f"p{k}", r)
      must_fail = sorted(p) != list(range(r))
      n.reorder_axes(p)
      new = []
    elif op == "reorder edges":
      n = nodes[ctx.pick(f"i{k}", 0, len(nodes) - 1)]
      r = len(n.edges)
      lst = [pool[ctx.pick(f"p{k}.{x}", 0, P - 1)] for x in range(r)]
      must_fail = {id(x) for x in lst} != {id(x) for x in n.edges} or any(x.is_trace() for x in n.edges)
      n.reorder_edges(lst)
      new = []
    elif op == "flatten":
      i, j = ctx.pick(f"i{k}", 0, P - 1), ctx.pick(f"j{k}", 0, P - 1)
      a, b = pool[i], pool[j]
      must_fail = a is b or not current(nodes, a) or not current(nodes, b) or set(a.get_nodes()) != set(b.get_nodes())
      new = tn.flatten_edges([a, b])
    elif op == "split":
      e = pool[ctx.pick(f"i{k}", 0, P - 1)]
      must_fail = not current(nodes, e) or e.dimension != 4
      new = tn.split_edge(e, (2, 2))
    elif op == "slice":
      e = pool[ctx.pick(f"i{k}", 0, P - 1)]
      length = ctx.pick(f"l{k}", 0, 3)
      must_fail = not current(nodes, e) or not 0 < length <= e.dimension - 1
      tn.slice_edge(e, 1, length)
      new = []
  except (ValueError, IndexError):
    rejected = True
  if must_fail and not rejected:
    ctx.fail(f"invalid {op} accepted")
  if rejected:
    if not must_fail and not may_fail:
      ctx.fail(f"valid {op} rejected")
    same_graph(ctx, nodes, snap, op)
    return None
  if isinstance(new, tn.AbstractNode):
    nodes = nodes + [new]
  wellformed(ctx, nodes, op)
  tn.check_correct(nodes, check_connections=False)
  for n in nodes:
    for e in n.edges:
      if not any(e is x for x in pool):
        pool = pool + [e]
  return nodes, pool


def history(ctx, shapes, pairs, plan):
  """plan: allowed operations at each step"""
  with hash_order(ctx, sign=None if len(plan) < 3 else 1):
    nodes = [tn.Node(ctx.tensor(f"n{i}", s), backend="numpy", name=f"n{i}") for i, s in enumerate(shapes)]
    pool = [e for n in nodes for e in n.edges]
    for (a, b) in pairs:
      pool.append(tn.connect(nodes[a[0]][a[1]], nodes[b[0]][b[1]]))
    for k, ops in enumerate(plan):
      r = step(ctx, k, nodes, pool, ops, k == len(plan) - 1)
      if r is None:
        return
      nodes, pool = r
    connected = components(nodes)
    if connected == 1:
      tn.check_correct(nodes)
    else:
      ctx.raises(ValueError, lambda: tn.check_correct(nodes), "disconnected graph")


def components(nodes):
  left, n = list(nodes), 0
  while left:
    n += 1
    stack = [left.pop()]
    while stack:
      x = stack.pop()
      for e in x.edges:
        for y in e.get_nodes():
          for z in list(left):
            if y is z:
              left = [w for w in left if w is not z]
              stack.append(z)
  return n


def corrupted(ctx):
  """check_correct rejects every graph in which an edge of a node does not refer back to the node and axis"""
  nodes = [tn.Node(ctx.tensor(f"n{i}", (2, 2)), backend="numpy") for i in range(2)]
  for w in range(ctx.pick("wired", 0, 2)):
    tn.connect(nodes[0][w], nodes[1][1 - w])
  legs = [(i, a) for i in range(2) for a in range(2)]
  kind = ctx.choice("kind", ["edge", "axis1", "axis2", "node1"])
  i, a = legs[ctx.pick("leg", 0, 3)]
  if kind == "edge":
    j, b = legs[ctx.pick("other", 0, 3)]
    nodes[i].edges[a] = nodes[j].edges[b]
  elif kind == "axis1":
    nodes[i].edges[a].axis1 = ctx.pick("value", 0, 2)
  elif kind == "axis2":
    if nodes[i].edges[a].is_dangling():
      return
    nodes[i].edges[a].axis2 = ctx.pick("value", 0, 2)
  else:
    nodes[i].edges[a].node1 = nodes[ctx.pick("value", 0, 1)]
  good = all(any(m is n and x == k for m, x in [(e.node1, e.axis1), (e.node2, e.axis2)])
             for n in nodes for k, e in enumerate(n.edges))
  if good:
    tn.check_correct(nodes, check_connections=False)
  else:
    ctx.raises(ValueError, lambda: tn.check_correct(nodes, check_connections=False), "inconsistent graph")


MUT = ["connect", "disconnect", "contract", "split", "flatten"]
ALL = MUT + ["between", "between order", "reorder", "reorder edges", "slice"]


def scenarios(tier):
  th = tier == "thorough"
  out = [Scenario("check_correct on corrupted graphs", corrupted)]
  conf = {
      "pair": ([(2, 4), (4, 2)], [((0, 1), (1, 0))]),
      "double": ([(2, 3), (3, 2)], [((0, 0), (1, 1)), ((0, 1), (1, 0))]),
      "trace": ([(2, 3, 2)], [((0, 0), (0, 2))]),
      "double trace": ([(2, 2, 2, 2)], [((0, 0), (0, 2)), ((0, 3), (0, 1))]),
      "free": ([(2, 2), (2,)], []),
      "chain": ([(2,), (2, 2), (2,)], [((0, 0), (1, 0)), ((1, 1), (2, 0))]),
  }
  for c, (shapes, pairs) in conf.items():
    for op in ALL:
      if not th and c == "double trace" and op in ("reorder", "slice", "between order", "reorder edges"):
        continue
      out.append(Scenario(f"{c}: {op}, any", history, shapes, pairs, [[op], MUT if not th and (op in ("between order", "reorder edges") or c == "double trace") else ALL]))
  small = {
      "pair1": ([(4,), (4,)], [((0, 0), (1, 0))]),
      "free1": ([(2, 2)], []),
      "trace1": ([(4, 4)], [((0, 1), (0, 0))]),
      "two": ([(2,), (2, 2)], [((0, 0), (1, 1))]),
  }
  third = MUT + ["between", "reorder"]
  for c, (shapes, pairs) in small.items():
    for op in third:
      for op2 in (third if th else MUT):
        if not th and c == "two" and op in ("between", "contract") and op2 == "connect":
          continue
        out.append(Scenario(f"{c}: {op}, {op2}, any", history, shapes, pairs, [[op], [op2], third if not th else ALL]))
        if th:
          out.append(Scenario(f"{c}: {op}, {op2}, any, any", history, shapes, pairs, [[op], [op2], MUT, MUT]))
  return out
