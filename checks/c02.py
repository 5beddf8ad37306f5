"""C02: con_order never changes ncon's value, out_order only permutes, invalid requests are rejected, inputs are untouched."""
import copy
import itertools
import numpy as np
from runner import Scenario
import tensornetwork as tn
from c01 import spec, order

BOUNDS = ("25 network templates (up to 5 tensors, 6 closed and 3 open labels, with traces, batch labels, parallel edges, "
          "disconnected parts, integer / string / mixed labels): every permutation of con_order (up to 5 closed labels, "
          "thorough 6) and of out_order; con_order / out_order lists of arbitrary symbolic integers of length n-1..n+1; "
          "all entries symbolic")
OUTSIDE = "larger networks; other backends (C24); check_network=False"

TEMPLATES = {
    "chain": [(-1, 1), (1, 2), (2, 3), (3, -2)],
    "ring": [(1, 2), (2, 3), (3, 4), (4, 1)],
    "parallel": [(-1, 1, 2, 3), (3, 2, 1, -2)],
    "trace": [(1, 1, 2), (2, 3, 3, -1)],
    "batch3": [(1, 2), (1, 3), (1, 2, 3)],
    "batch3b": [(-1, 1), (-2, 1), (1, 2, 2)],
    "batch4": [(1, 2), (1, 2), (1, -1), (1,)],
    "openbatch": [(-1, 1), (-1, 1, 2), (2, -2)],
    "openbatch3": [(-1, 1), (-1, 1), (-1, -2)],
    "twobatch": [(1, 2), (1, 2), (1, 2)],
    "star": [(1, 2, 3), (1, -1), (2, -2), (3, -3)],
    "k4": [(1, 2, 3), (1, 4, 5), (2, 4), (3, 5)],
    "disconnected": [(1, 2), (1, 2), (-2, 3), (3, -1)],
    "scalars": [(1,), (1,), (2,), (2,)],
    "single": [(1, -1), (2, -2), (3,)],
    "diag": [(1, 1, -1), (1, 2), (2, -2)],
    "outer": [(-2,), (-1,), (-3,)],
    "perm": [(-3, -1, -2)],
    "strings": [("a", "-y"), ("a", "b"), ("b", "-x")],
    "mixed": [(1, "a", -1), ("a", 2, "-z"), (1, 2, "-b")],
    "mera": [(1, 3, -1), (2, 3, 4), (4, 5, -2), (1, 2, 5)],
}


def setup(ctx, net, cplx=False):
  dims, k = {}, 0
  for ls in net:
    for l in ls:
      if l not in dims:
        dims[l] = 2 + k % 2
        k += 1
  flat = [l for ls in net for l in ls]
  if len(dims) > 4 or len(flat) > 8:
    dims = {l: 2 for l in dims}
  return [ctx.tensor(f"t{i}", tuple(dims[l] for l in ls), cplx) for i, ls in enumerate(net)]


def closed(net):
  flat = {l for ls in net for l in ls}
  return (sorted(l for l in flat if not isinstance(l, str) and l > 0) +
          sorted(l for l in flat if isinstance(l, str) and l[0] != "-"))


def snapshot(ts):
  return [(id(t), t.copy()) for t in ts]


def untouched(ctx, ts, snap):
  for t, (i, c) in zip(ts, snap):
    ctx.check(id(t) == i and t.shape == c.shape, "input list untouched")
    ctx.eq(t, c, "input tensor untouched")


def con_orders(ctx, name):
  net = TEMPLATES[name]
  ts = setup(ctx, net)
  cl = closed(net)
  con = [cl[i] for i in ctx.perm("con", len(cl))]
  net_in = [list(ls) for ls in net]
  net_c, con_c = copy.deepcopy(net_in), list(con)
  snap = snapshot(ts)
  tl = list(ts)
  res = tn.ncon(tl, net_in, con_order=con, backend="numpy")
  ctx.eq(res, spec(ts, net, order(net)), "value independent of con_order")
  ctx.check(net_in == net_c and con == con_c and len(tl) == len(ts), "label lists untouched")
  untouched(ctx, tl, snap)


def out_orders(ctx, name):
  net = TEMPLATES[name]
  ts = setup(ctx, net)
  op = order(net)
  out = [op[i] for i in ctx.perm("out", len(op))]
  cl = closed(net)
  rot = ctx.pick("rot", 0, max(len(cl) - 1, 0))
  con = (cl[rot:] + cl[:rot])[::-1]
  out_c = list(out)
  use_con = ctx.choice("use_con", [False, True])
  res = tn.ncon(ts, net, con_order=con if use_con else None, out_order=out, backend="numpy")
  ctx.eq(res, spec(ts, net, out), "axis k carries the k-th label of out_order")
  ctx.check(out == out_c, "out_order untouched")


def arbitrary_con(ctx, name, n):
  """con_order is a list of n arbitrary integers: correct value if it lists the closed labels, ValueError otherwise"""
  net = TEMPLATES[name]
  ts = setup(ctx, net)
  cl = closed(net)
  m = max(cl) + 1
  con = [ctx.label(f"c{i}", -1, m) for i in range(n)]
  try:
    res = tn.ncon(ts, [[ctx.const_label(l) for l in ls] for ls in net], con_order=con, backend="numpy")
  except ValueError:
    res = None
  used = [sum(bool(c == l) for c in con) for l in cl]
  valid = n == len(cl) and all(u == 1 for u in used)
  ctx.check((res is not None) == valid, "accepted exactly when con_order lists the closed labels")
  if res is not None:
    ctx.eq(res, spec(ts, net, order(net)), "value")


def arbitrary_out(ctx, name, n):
  net = TEMPLATES[name]
  ts = setup(ctx, net)
  op = order(net)
  m = min(op) - 1
  out = [ctx.label(f"o{i}", m, 1) for i in range(n)]
  try:
    res = tn.ncon(ts, [[ctx.const_label(l) for l in ls] for ls in net], out_order=out, backend="numpy")
  except ValueError:
    res = None
  valid = n == len(op)
  perm = []
  for o in out:
    hits = [l for l in op if bool(o == l)]
    valid = valid and len(hits) == 1
    perm += hits
  valid = valid and len(set(perm)) == n
  ctx.check((res is not None) == valid, "accepted exactly when out_order lists the open labels")
  if res is not None:
    ctx.eq(res, spec(ts, net, perm), "value")


def dims_rejected(ctx, name):
  """a dimension mismatch on any axis of any closed label is rejected"""
  net = TEMPLATES[name]
  flat = [(i, j) for i, ls in enumerate(net) for j in range(len(ls))]
  dims = [ctx.pick(f"d{i}", 1, 2) for i in range(len(flat))]
  shapes = [[] for _ in net]
  for (i, j), d in zip(flat, dims):
    shapes[i].append(d)
  ts = [ctx.tensor(f"t{i}", tuple(s)) for i, s in enumerate(shapes)]
  bydim = {}
  for (i, j), d in zip(flat, dims):
    bydim.setdefault(net[i][j], set()).add(d)
  isopen = lambda l: l[0] == "-" if isinstance(l, str) else l < 0
  bad = any(len(s) > 1 for l, s in bydim.items() if not isopen(l))
  badopen = any(len(s) > 1 for l, s in bydim.items() if isopen(l))
  if badopen:
    return  # mismatching open batch labels are not checked by ncon (outside the claim)
  if bad:
    ctx.raises(ValueError, lambda: tn.ncon(ts, net, backend="numpy"), "dimension mismatch rejected")
  else:
    ctx.eq(tn.ncon(ts, net, backend="numpy"), spec(ts, net, order(net)), "dimensions 1 and 2")


def structure_rejected(ctx):
  a, b = ctx.tensor("a", (2, 2)), ctx.tensor("b", (2, 2))
  k = ctx.pick("case", 0, 7)
  bad = [
      ([a, b], [(1, -1)]),
      ([a], [(1, -1), (1, -2)]),
      ([a, b], [(1, -1, 2), (1, -2)]),
      ([a, b], [(1,), (1, -2)]),
      ([a, b], [(0, -1), (0, -2)]),
      ([a, b], [("a b", -1), ("a b", -2)]),
      ([a, b], [("a!", -1), ("a!", -2)]),
      ([a, b], [("-x-", 1), (1, -2)]),
  ][k]
  ctx.raises(ValueError, lambda: tn.ncon(bad[0], bad[1], backend="numpy"), f"case {k} rejected")


def tensors(ctx, name):
  """tn.Tensor arguments: same value, arguments untouched"""
  net = TEMPLATES[name]
  ts = setup(ctx, net, True)
  args = [tn.Tensor(t, backend="numpy") for t in ts]
  snap = snapshot(ts)
  con = [closed(net)[i] for i in ctx.perm("con", len(closed(net)))]
  res = tn.ncon(args, net, con_order=con, backend="numpy")
  ctx.check(isinstance(res, tn.Tensor), "Tensor result")
  ctx.eq(res.array, spec(ts, net, order(net)), "value")
  untouched(ctx, [a.array for a in args], snap)


def scenarios(tier):
  out = []
  for name, net in TEMPLATES.items():
    n = len(closed(net))
    if n <= 5:
      out.append(Scenario(f"con_order {name}", con_orders, name))
    out.append(Scenario(f"out_order {name}", out_orders, name))
  for name in ("trace", "batch3", "twobatch", "single", "openbatch", "diag"):
    n = len(closed(TEMPLATES[name]))
    for k in range(max(1, n - 1), n + 2):
      out.append(Scenario(f"arbitrary con_order {name} {k}", arbitrary_con, name, k))
  for name in ("openbatch", "outer", "trace", "perm"):
    n = len(order(TEMPLATES[name]))
    for k in range(max(1, n - 1), n + 2):
      out.append(Scenario(f"arbitrary out_order {name} {k}", arbitrary_out, name, k))
  for name in ("trace", "batch3b", "parallel", "strings", "scalars", "chain"):
    out.append(Scenario(f"dimensions {name}", dims_rejected, name))
  out.append(Scenario("structure rejected", structure_rejected, validate=8))
  for name in ("chain", "batch3", "mixed", "trace"):
    out.append(Scenario(f"Tensor {name}", tensors, name))
  return out
