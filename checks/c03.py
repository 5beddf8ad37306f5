"""C03: every node contraction is the exact sum over the shared edges, and keeps the other edges."""
import numpy as np
from runner import Scenario
import tensornetwork as tn
from tnlib import value, dangling, wellformed, wiring, build, hash_order, data

BOUNDS = ("2 or 3 nodes of total rank up to 7 (thorough 8) with every wiring (trace edges, parallel edges, third-party edges), "
          "either creation direction of edges, both set-iteration orders, every output_edge_order for up to 4 free edges; "
          "dimensions 2 and 3; symbolic entries (complex where entries could be conjugated)")
OUTSIDE = "larger ranks; symmetric tensors (C15); other backends (C24)"


def dims(k):
  return 2 + (k + 1) % 2


def dims2(k):
  return 2


def after(ctx, nodes, before, free, order=None, label=""):
  """network value and surviving edges"""
  wellformed(ctx, nodes, label)
  d = dangling(nodes)
  ctx.check(len(d) == len(free) and all(any(e is f for f in d) for e in free), "dangling edges survive")
  ctx.eq(value(nodes, free), before, f"network value {label}")


def survivors(node_list, gone):
  return [e for n in node_list for e in n.edges if not any(e is g for g in gone)]


def edge_contract(ctx, ranks, dim, self_edges):
  with hash_order(ctx):
    pairs, _ = wiring(ctx, ranks, self_edges)
    if not pairs:
      return
    flips = ctx.choice("flip", [0, 1])
    nodes, edges = build(ctx, ranks, pairs, dim, flip=lambda j: flips)
    free = dangling(nodes)
    before = value(nodes, free)
    e = ctx.choice("edge", edges)
    n1, n2 = e.node1, e.node2
    involved = [n1] if n1 is n2 else [n1, n2]
    how = ctx.choice("how", ["contract", "parallel"])
    others = [n for n in nodes if not any(n is x for x in involved)]
    if how == "contract":
      expect = survivors(involved, [e])
      name = ctx.choice("name", [None, "new"])
      new = tn.contract(e, name=name)
      if name:
        ctx.check(new.name == name, "name")
      ctx.check(len(new.edges) == len(expect) and all(a is b for a, b in zip(new.edges, expect)), "axis order")
    else:
      shared = [x for x in edges if {id(x.node1), id(x.node2)} == {id(n1), id(n2)}]
      expect = survivors(involved, shared)
      new = tn.contract_parallel(e)
      ctx.check(len(new.edges) == len(expect) and all(any(a is b for b in expect) for a in new.edges), "edges survive")
      for x in shared:
        ctx.check(x.is_disabled, "contracted edges are disabled")
    after(ctx, others + [new], before, free, label=how)


def between(ctx, ranks, dim, order):
  with hash_order(ctx):
    pairs, _ = wiring(ctx, ranks)
    flips = ctx.choice("flip", [0, 1])
    nodes, edges = build(ctx, ranks, pairs, dim, flip=lambda j: flips)
    free = dangling(nodes)
    a, b = nodes[0], nodes[1]
    if ctx.choice("swap", [False, True]):
      a, b = b, a
    before = value(nodes, free)
    shared = [x for x in edges if {id(x.node1), id(x.node2)} == {id(a), id(b)}]
    expect = survivors([a, b], shared)
    if not shared:
      st = [(n.edges[:], n.tensor) for n in nodes]
      ctx.raises(ValueError, lambda: tn.contract_between(a, b), "no shared edges")
      wellformed(ctx, nodes, "after rejection")
      for n, (es, t) in zip(nodes, st):
        ctx.check(n.tensor is t and all(x is y for x, y in zip(n.edges, es)), "rejection leaves the graph")
    if order and all(x.node1 is not x.node2 for x in expect) and len(expect) <= 4:
      out = [expect[i] for i in ctx.perm("out", len(expect))]
      new = tn.contract_between(a, b, name="x", allow_outer_product=True, output_edge_order=out,
                                axis_names=[f"ax{i}" for i in range(len(out))] if out else None)
      ctx.check(len(new.edges) == len(out) and all(x is y for x, y in zip(new.edges, out)), "output_edge_order")
      if out:
        ctx.check(list(new.axis_names) == [f"ax{i}" for i in range(len(out))], "axis names")
    elif not shared:
      new = tn.contract_between(a, b, allow_outer_product=True)
      ctx.check(all(x is y for x, y in zip(new.edges, expect)), "axis order")
    else:
      how = ctx.choice("how", ["between", "matmul"])
      new = tn.contract_between(a, b) if how == "between" else a @ b
      ctx.check(len(new.edges) == len(expect) and all(x is y for x, y in zip(new.edges, expect)), "axis order")
    after(ctx, [n for n in nodes if n is not a and n is not b] + [new], before, free, label="contract_between")


def selftrace(ctx, ranks, dim):
  """contract_between(a, a), contract_trace_edges, a @ a"""
  with hash_order(ctx):
    pairs, _ = wiring(ctx, ranks)
    nodes, edges = build(ctx, ranks, pairs, dim)
    free = dangling(nodes)
    a = nodes[0]
    traces = [e for e in edges if e.node1 is a and e.node2 is a]
    before = value(nodes, free)
    expect = survivors([a], traces)
    how = ctx.choice("how", ["between", "trace_edges"])
    if not traces:
      if how == "between":
        ctx.raises(ValueError, lambda: tn.contract_between(a, a), "no trace edges")
        new = a
      else:
        new = tn.contract_trace_edges(a)
        ctx.check(new is a, "nothing to trace")
    else:
      new = tn.contract_between(a, a) if how == "between" else tn.contract_trace_edges(a)
      ctx.check(len(new.edges) == len(expect) and all(x is y for x, y in zip(new.edges, expect)), "axis order")
    after(ctx, nodes[1:] + [new], before, free, label=how)


def outer(ctx, ranks, dim):
  with hash_order(ctx):
    pairs, _ = wiring(ctx, ranks)
    nodes, edges = build(ctx, ranks, pairs, dim)
    free = dangling(nodes)
    a, b = nodes[0], nodes[1]
    before = value(nodes, free)
    expect = a.edges[:] + b.edges[:]
    new = tn.outer_product(a, b, name="prod")
    ctx.check(len(new.edges) == len(expect) and all(x is y for x, y in zip(new.edges, expect)), "axis order")
    after(ctx, nodes[2:] + [new], before, free, label="outer_product")


def outer_final(ctx, ranks):
  nodes, _ = build(ctx, ranks, [], dims)
  free = dangling(nodes)
  before = value(nodes, free)
  out = [free[i] for i in ctx.perm("out", len(free))]
  new = tn.outer_product_final_nodes(nodes, out)
  ctx.check(all(x is y for x, y in zip(new.edges, out)), "axis order")
  after(ctx, [new], before, free, label="outer_product_final_nodes")


def copynode(ctx, ranks, kinds):
  """contract_copy_node, and compute of the copy tensor itself"""
  with hash_order(ctx):
    pairs, free_legs = wiring(ctx, ranks)
    flips = ctx.choice("flip", [0, 1])
    nodes, edges = build(ctx, ranks, pairs, dims2, kinds=kinds, flip=lambda j: flips)
    cn = nodes[0]
    free = dangling(nodes)
    if any(l[0] == 0 for l in free_legs):
      ctx.raises(ValueError, lambda: tn.contract_copy_node(cn), "dangling copy node")
      return
    partners = [n for n in nodes[1:] if any(e.node1 is n or e.node2 is n for e in cn.edges)]
    if not partners:
      return
    before = value(nodes, free)
    expect = [e for e in free]
    new = tn.contract_copy_node(cn, name="c")
    rest = [n for n in nodes[1:] if not any(n is p for p in partners)]
    after(ctx, rest + [new], before, expect, label="contract_copy_node")


def scalars(ctx):
  """rank-0 nodes"""
  a = tn.Node(ctx.tensor("a", ()), backend="numpy")
  b = tn.Node(ctx.tensor("b", (2,)), backend="numpy")
  x, y = data(a).copy(), data(b).copy()
  which = ctx.choice("which", ["ab", "ba", "aa"])
  c = tn.Node(ctx.tensor("c", ()), backend="numpy")
  n1, n2 = {"ab": (a, b), "ba": (b, a), "aa": (a, c)}[which]
  want = {"ab": x * y, "ba": x * y, "aa": x * data(c)}[which]
  how = ctx.choice("how", ["outer", "between"])
  r = tn.outer_product(n1, n2) if how == "outer" else tn.contract_between(n1, n2, allow_outer_product=True)
  ctx.eq(r.tensor, want, "scalar product")
  wellformed(ctx, [r])


def nodearith(ctx):
  """node + - * / node or number"""
  a = tn.Node(ctx.tensor("a", (2, 3)), backend="numpy")
  b = tn.Node(ctx.tensor("b", (2, 3)), backend="numpy")
  s = ctx.positive("s")
  x, y = data(a).copy(), data(b).copy()
  ctx.eq((a + b).tensor, x + y, "a+b")
  ctx.eq((a - b).tensor, x - y, "a-b")
  ctx.eq((a * b).tensor, x * y, "a*b")
  ctx.eq((a * 3).tensor, x * 3, "a*3")
  ctx.eq((a + 2).tensor, x + 2, "a+2")
  ctx.eq((a - 2).tensor, x - 2, "a-2")
  ctx.eq((a / 2).tensor, x / 2, "a/2")
  ctx.eq(a.tensor, x, "operand unchanged")
  ctx.eq(b.tensor, y, "operand unchanged")


def scenarios(tier):
  out = []
  thorough = tier == "thorough"
  for r in [(2, 2), (3, 2), (3, 3), (2, 2, 2), (4, 2), (3, 2, 1), (1, 1)] + ([(3, 3, 2), (4, 4), (5, 2)] if thorough else []):
    out.append(Scenario(f"contract {r}", edge_contract, r, dims if sum(r) < 6 else dims2, True))
    out.append(Scenario(f"contract_between {r}", between, r, dims if sum(r) < 6 else dims2, False))
    if len(r) < 3 or thorough or sum(r) < 6:
      out.append(Scenario(f"contract_between order {r}", between, r, dims if sum(r) < 6 else dims2, True))
  out.append(Scenario("contract_between order (2, 2, 1)", between, (2, 2, 1), dims, True))
  for r in [(2,), (3,), (4,), (5,), (4, 1), (4, 2), (6,)] + ([(5, 2), (7,)] if thorough else []):
    out.append(Scenario(f"trace {r}", selftrace, r, dims2 if sum(r) > 4 else dims))
  for r in [(1, 1), (2, 2), (2, 1, 1), (3, 1), (2, 2, 2)]:
    out.append(Scenario(f"outer_product {r}", outer, r, dims if sum(r) < 6 else dims2))
  for r in [(1, 1, 1), (2, 1), (1, 2, 1), (0, 2)]:
    out.append(Scenario(f"outer_product_final_nodes {r}", outer_final, r))
  for r in [(2, 2), (3, 2), (2, 1, 1), (2, 2, 1), (3, 1, 2), (3, 3), (4, 2)] + ([(3, 2, 2), (4, 2, 1), (3, 1, 1, 1)] if thorough else []):
    out.append(Scenario(f"contract_copy_node {r}", copynode, r, ["copy"] + ["node"] * (len(r) - 1)))
  out.append(Scenario("contract_copy_node copies (3, 3, 2)" if thorough else "contract_copy_node copies (2, 3, 1)", copynode,
                      (3, 3, 2) if thorough else (2, 3, 1), ["copy", "copy", "node"]))
  out.append(Scenario("scalars", scalars))
  out.append(Scenario("node arithmetic", nodearith))
  return out
