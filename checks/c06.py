"""C06: every contractor returns the sum over all internal indices."""
import numpy as np
from runner import Scenario
import tensornetwork as tn
from tensornetwork import contractors
from tensornetwork.contractors.opt_einsum_paths import path_contractors
from tnlib import value, dangling, wellformed, wiring, build, hash_order, data

BOUNDS = ("networks of 1 to 4 nodes and up to 6 legs (thorough 7) with every wiring including trace edges, parallel edges, "
          "disconnected parts and scalars, every sub-collection of the nodes, every pairwise contraction path as result of a "
          "user-supplied optimizer, every order of up to 3 output edges, both set-iteration orders; up to 9 nodes for auto on "
          "chains; up to 2 copy nodes for bucket; dimensions 2 and 3; symbolic entries")
OUTSIDE = ("the path search inside opt_einsum for larger networks (any pairwise path it can return is covered by the symbolic "
           "optimizer on small networks); memory_limit, which makes opt_einsum return non-pairwise paths")


def d2(k):
  return 2


def d23(k):
  return 2 + k % 2


def boundary(nodes, sub):
  """edges of the sub-collection that are not internal to it"""
  out = []
  for n in sub:
    for e in n.edges:
      ends = [m for m in e.get_nodes() if m is not None]
      if len(ends) < 2 or not all(any(m is x for x in sub) for m in ends):
        out.append(e)
  return out


class AnyPath:
  """an optimizer that may return every pairwise path"""

  def __init__(self, ctx):
    self.ctx = ctx

  def __call__(self, inputs, output, size_dict, memory_limit=None):
    n, path = len(inputs), []
    while n > 1:
      i = self.ctx.pick(f"i{n}", 0, n - 1 if n < 4 else n - 2)
      if n < 4:
        j = self.ctx.pick(f"j{n}", 0, n - 2)
        j += j >= i
      else:
        j = self.ctx.pick(f"j{n}", i + 1, n - 1)
      path.append((i, j))
      n -= 1
    return path


def run(ctx, how, nodes, order, ignore):
  kw = dict(output_edge_order=order, ignore_edge_order=ignore)
  if how == "custom":
    return contractors.custom(nodes, AnyPath(ctx), **kw)
  if how == "contract_path":
    path = AnyPath(ctx)([0] * len(nodes), None, None)
    return path_contractors.contract_path(path, list(nodes), order)
  if how.startswith("solver+"):
    path = path_contractors.path_solver(how[7:], nodes)
    return path_contractors.contract_path(path, list(nodes), order)
  return getattr(contractors, how)(nodes, **kw)


def contractor(ctx, how, ranks, dim, sub=False, sign=None, self_edges=True, few_orders=False):
  with hash_order(ctx, sign=sign):
    pairs, _ = wiring(ctx, ranks, self_edges)
    nodes, _ = build(ctx, ranks, pairs, dim, flip=lambda j: j % 2)
    mine = nodes
    if sub:
      keep = [ctx.pick(f"keep{i}", 0, 1) for i in range(len(nodes))]
      mine = [n for n, k in zip(nodes, keep) if k]
      if not mine or len(mine) == len(nodes):
        return
    tensors = [data(n).copy() for n in nodes]
    arrays = [n.tensor for n in nodes]
    outer = boundary(nodes, mine)
    free = dangling(nodes)
    if len(set(map(id, outer))) != len(outer):
      return
    before_all = value(nodes, free)
    ids = {id(e): k for k, e in enumerate({id(e): e for n in mine for e in n.edges}.values())}
    args = []
    for n in mine:
      args += [data(n), [ids[id(e)] for e in n.edges]]
    if how in ("contract_path",) or how.startswith("solver+"):
      mode = "order"
    else:
      mode = ctx.choice("mode", ["order", "ignore"] + (["none"] if len(outer) <= 1 else ["missing"]))
    order = outer
    if mode == "order":
      if few_orders or len(outer) > 3:
        order = outer if ctx.choice("rev", [0, 1]) else outer[::-1]
      else:
        order = [outer[i] for i in ctx.perm("out", len(outer))]
    if mode == "missing":
      bad = ctx.choice("bad", [None, outer[:-1]])
      ctx.raises(ValueError, lambda: run(ctx, how, mine, bad, False), "missing output edges")
      wellformed(ctx, nodes, "after rejection")
      ctx.eq(value(nodes, free), before_all, "value after rejection")
      return
    given = list(mine)
    r = run(ctx, how, given, order if mode == "order" else None, mode == "ignore")
    got = r.edges
    if mode == "order":
      ctx.check(len(got) == len(order) and all(a is b for a, b in zip(got, order)), "edges in output_edge_order")
    else:
      ctx.check(len(got) == len(outer) and all(any(a is b for b in outer) for a in got), "edges of the result")
    ctx.eq(r.tensor, np.einsum(*args, [ids[id(e)] for e in got]), "sum over internal edges")
    rest = [n for n in nodes if not any(n is m for m in mine)]
    wellformed(ctx, rest + [r], "result")
    ctx.eq(value(rest + [r], free), before_all, "network value")
    ctx.check(len(given) == len(mine) and all(a is b for a, b in zip(given, mine)), "argument list unchanged")
    for n, t, a in zip(nodes, tensors, arrays):
      ctx.eq(a, t, "tensors unchanged")


def chain(ctx, how, n, ring):
  """larger networks, so that auto takes each of its branches"""
  with hash_order(ctx):
    ts = [tn.Node(ctx.tensor(f"t{i}", (2, 2)), backend="numpy") for i in range(n)]
    for a, b in zip(ts, ts[1:]):
      a[1] ^ b[0]
    if ring:
      ts[-1][1] ^ ts[0][0]
      order = []
    else:
      order = [ts[-1][1], ts[0][0]] if ctx.choice("rev", [0, 1]) else [ts[0][0], ts[-1][1]]
    # keep the sums small: all but three of the matrices are fixed
    for i, t in enumerate(ts):
      if i not in (0, n // 2, n - 1):
        t.tensor = np.array([[i + 1, 1], [2, i]], dtype=object if ctx.symbolic else float)
    want = value(ts, order)
    shuffled = ts[::2] + ts[1::2]
    r = getattr(contractors, how)(shuffled, output_edge_order=order)
    ctx.eq(r.tensor, want, "value")
    ctx.check(len(r.edges) == len(order) and all(a is b for a, b in zip(r.edges, order)), "edges")


def copies(ctx, how, ranks, kinds):
  """networks with copy nodes"""
  with hash_order(ctx):
    pairs, _ = wiring(ctx, ranks)
    nodes, _ = build(ctx, ranks, pairs, d2, kinds=kinds)
    free = dangling(nodes)
    before = value(nodes, free)
    if how == "bucket":
      cs = [n for n, k in zip(nodes, kinds) if k == "copy"]
      if any(e.is_dangling() or e.is_trace() for c in cs for e in c.edges):
        return
      if any(any(x is m for x in cs) for c in cs for e in c.edges for m in e.get_nodes() if m is not c):
        return
      cs = [cs[i] for i in ctx.perm("order", len(cs))]
      r = list(contractors.bucket(nodes, cs))
      wellformed(ctx, r, "bucket")
      ctx.eq(value(r, free), before, "value")
      ctx.check(len(r) <= len(nodes) - len(cs), "copy nodes are gone")
      return
    r = run(ctx, how, nodes, free, False)
    ctx.eq(r.tensor, before, "value")
    ctx.check(all(a is b for a, b in zip(r.edges, free)), "edges")


def empty(ctx):
  ctx.raises(ValueError, lambda: contractors.auto([]), "empty network")


def scenarios(tier):
  th = tier == "thorough"
  out = [Scenario("empty network", empty)]
  algos = ["optimal", "branch", "greedy", "auto"]
  nets = [(2,), (3,), (4,), (0, 1), (2, 1), (2, 2), (3, 2), (2, 2, 1), (1, 1, 1), (0, 2, 0)]
  big = [(3, 3), (2, 2, 2)] + ([(3, 2, 2), (2, 2, 2, 1)] if th else [])
  for how in algos + ["custom", "contract_path", "solver+optimal", "solver+branch", "solver+greedy", "solver+auto"]:
    for r in nets:
      if how == "solver+auto" and len(r) < 2:
        continue
      out.append(Scenario(f"{how} {r}", contractor, how, r, d23 if sum(r) < 5 else d2,
                          sign=None if sum(r) < 5 or th else 1, few_orders=sum(r) > 4))
    for r in big:
      if how in ("optimal", "greedy", "custom") or th:
        out.append(Scenario(f"{how} {r}", contractor, how, r, d2, sign=-1, few_orders=True, self_edges=sum(r) < 6 or th))
  for how in algos + ["custom"]:
    for r in [(2, 2), (2, 1, 1)] + ([(2, 2, 2)] if th or how in ("optimal", "auto") else []):
      out.append(Scenario(f"{how} part of {r}", contractor, how, r, d2, sub=True, sign=None if sum(r) < 5 else 1, few_orders=True))
  four = (1, 2, 2, 1) if th else (1, 1, 2, 0)
  out.append(Scenario(f"custom {four}", contractor, "custom", four, d2, sign=1, few_orders=True, self_edges=False))
  for how in algos:
    for n in (5, 7, 9) + ((15,) if how in ("auto", "greedy") else ()):
      for ring in (False, True):
        if how == "optimal" and n > 7:
          continue
        out.append(Scenario(f"{how} {'ring' if ring else 'chain'} of {n}", chain, how, n, ring))
  for how in ["bucket", "optimal", "auto"]:
    for r, k in [((3, 2, 1), "cnn"), ((2, 2, 1), "cnn"), ((2, 2, 2), "ccn") if how != "bucket" else ((2, 4, 2), "cnc"), ((2, 1, 1), "cnn"),
                 ((3, 3), "cn"), ((2, 2, 1, 1), "cncn")]:
      kinds = ["copy" if x == "c" else "node" for x in k]
      out.append(Scenario(f"{how} copies {r} {k}", copies, how, r, kinds))
  return out
