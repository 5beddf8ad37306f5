"""C07: splitting a node and recontracting reproduces the tensor."""
import numpy as np
from runner import Scenario
import tensornetwork as tn
from tnlib import value, dangling, wellformed, wiring, build, hash_order, data

BOUNDS = ("a node of rank 1 to 4 in every wiring with 0 or 1 neighbour of rank up to 2, every ordered bipartition of its edges "
          "(also empty sides), real and complex symbolic entries, dimensions 1 to 3; truncation to every number of singular values of "
          "spectra of length up to 4 with symbolic entries")
OUTSIDE = "larger ranks and dimensions; other backends and symmetric tensors (C16); rounding errors"
ASSUMPTIONS = ["numpy.linalg.svd/qr satisfy their contracts (product, isometry, order), which the executor uses instead of LAPACK"]


def d2(k):
  return 2


def d23(k):
  return 2 + k % 2


def d12(k):
  return 1 + k % 2


def dag_product(t, n_last=None, first=False):
  """contract all but the bond axis with the conjugate"""
  m = t.reshape(-1, t.shape[-1]) if not first else t.reshape(t.shape[0], -1).T
  return np.conj(m).T @ m


def eye(n):
  return np.eye(n)


def sides(ctx, node, empty=True):
  """ordered bipartition"""
  es = node.edges
  p = ctx.perm("order", len(es))
  cut = ctx.pick("cut", 0 if empty else 1, len(es) - (0 if empty else 1))
  es = [es[i] for i in p]
  return es[:cut], es[cut:]


def same_edges(a, b):
  return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def split(ctx, how, ranks, dim, cplx, names=False):
  with hash_order(ctx, sign=1):
    pairs, _ = wiring(ctx, ranks, self_edges=False)
    nodes, edges = build(ctx, ranks, pairs, dim, cplx, flip=lambda j: j % 2)
    node = nodes[0]
    node.add_axis_names([f"x{i}" for i in range(ranks[0])])
    free = dangling(nodes)
    before = value(nodes, free)
    left, right = sides(ctx, node)
    l0, r0 = left[:], right[:]
    old = node.edges[:]
    lname = [f"x{next(i for i, e in enumerate(old) if e is x)}" for x in left]
    rname = [f"x{next(i for i, e in enumerate(old) if e is x)}" for x in right]
    kw = dict(left_name="L", right_name="R") if names else {}
    if how == "full":
      if names:
        kw.update(middle_name="M", left_edge_name="le", right_edge_name="re")
      l, m, r, t = tn.split_node_full_svd(node, left, right, **kw)
      new = [l, m, r]
      ctx.check(l.edges[-1] is m.edges[0] and m.edges[1] is r.edges[0], "middle node connected")
    else:
      if names:
        kw.update(edge_name="bond")
      f = {"svd": tn.split_node, "qr": tn.split_node_qr, "rq": tn.split_node_rq}[how]
      res = f(node, left, right, **kw)
      l, r = res[:2]
      t = res[2] if how == "svd" else np.zeros(0)
      new = [l, r]
      ctx.check(l.edges[-1] is r.edges[0], "bond")
    ctx.check(len(t) == 0, "nothing truncated")
    ctx.check(same_edges(l.edges[:-1], left) and same_edges(r.edges[1:], right), "edges on the requested side in order")
    ctx.check(same_edges(left, l0) and same_edges(right, r0), "arguments unchanged")
    if names:
      ctx.check(l.name == "L" and r.name == "R", "names")
      b = ["le", "re"] if how == "full" else ["bond", "bond"]
      ctx.check(list(l.axis_names) == lname + [b[0]] and list(r.axis_names) == [b[1]] + rname, "axis names")
      ctx.check(l.edges[-1].name == b[0] and r.edges[0].name == b[1], "edge names")
    wellformed(ctx, nodes[1:] + new, how)
    ctx.eq(value(nodes[1:] + new, free), before, "network value")
    wellformed(ctx, [node], "split node is detached")
    k = data(l).shape[-1]
    if how in ("qr", "full"):
      ctx.eq(dag_product(data(l)), eye(k), "left factor isometric")
    if how in ("rq", "full"):
      ctx.eq(dag_product(data(r), first=True), eye(data(r).shape[0]), "right factor isometric")
    if how == "full":
      s = data(m)
      off = s * (1 - np.eye(len(s)))
      ctx.eq(off, np.zeros(s.shape), "middle node diagonal")
      for i in range(len(s)):
        ctx.check(s[i, i] >= 0, "singular values non-negative")
        if i:
          ctx.check(s[i - 1, i - 1] >= s[i, i], "singular values sorted")
    if how == "svd":
      # both factors carry the same weight: L^dagger L = R R^dagger
      ctx.eq(dag_product(data(l)), np.conj(dag_product(data(r), first=True)), "weights split evenly")


def truncated(ctx, how, ldims, rdims, cplx):
  """truncation by max_singular_values: the rest of the spectrum is removed, nothing else"""
  m, n = int(np.prod(ldims)), int(np.prod(rdims))
  sv = ctx.spectrum("s", min(m, n))
  for a, b in zip(sv, sv[1:]):
    ctx.assume(a > b + 0.125)
  a, u, s, v = ctx.known_svd("A", m, n, sv, cplx)
  perm = ctx.perm("p", len(ldims) + len(rdims)) if len(ldims) + len(rdims) < 4 else list(range(len(ldims + rdims)))
  t = a.reshape(tuple(ldims) + tuple(rdims)).transpose(perm)
  node = tn.Node(t, backend="numpy")
  inv = [perm.index(i) for i in range(len(perm))]
  left = [node.edges[i] for i in inv[:len(ldims)]]
  right = [node.edges[i] for i in inv[len(ldims):]]
  k = ctx.pick("keep", 1, len(sv) + 1)
  kept = min(k, len(sv))
  f = tn.split_node if how == "svd" else tn.split_node_full_svd
  res = f(node, left, right, max_singular_values=k)
  trun = res[-1]
  ctx.eq(trun, np.array(sv[kept:], dtype=object if ctx.symbolic else float), "discarded values")
  want = ((u[:, :kept] * s[:kept]) @ v[:kept]).reshape(tuple(ldims) + tuple(rdims))
  ctx.eq(value(list(res[:-1]), left + right), want, "kept part")
  if how == "full":
    ctx.eq(np.diagonal(data(res[1])), np.array(sv[:kept], dtype=object if ctx.symbolic else float), "kept values")
  ctx.check(data(res[0]).shape[-1] == kept and data(res[-2]).shape[0] == kept, "bond dimension")


def truncated_err(ctx, how, rel):
  """max_truncation_err: discarded values are exactly those missing from the factors"""
  sv = ctx.spectrum("s", 2)
  ctx.assume(sv[0] > sv[1] + 0.125)
  ctx.assume(sv[1] > 0.125)
  err = ctx.real("err")
  lim = err * sv[0] if rel else err
  for x in sv:
    ctx.assume((lim > x + 0.0625) | (lim < x - 0.0625))
  ctx.assume(err > 0)
  ctx.assume(lim < sv[0] - 0.0625)  # something is kept
  a, u, s, v = ctx.known_svd("A", 2, 3, sv, True)
  node = tn.Node(a, backend="numpy")
  f = tn.split_node if how == "svd" else tn.split_node_full_svd
  res = f(node, [node.edges[0]], [node.edges[1]], max_truncation_err=err, relative=rel)
  kept = data(res[0]).shape[-1]
  ctx.check(kept == 2 or sv[1] <= lim, "discarded only what the limit allows")
  ctx.check(kept == 1 or sv[1] > lim, "discarded all that the limit allows")
  ctx.eq(res[-1], np.array(sv[kept:], dtype=object if ctx.symbolic else float), "discarded values")
  ctx.eq(value(list(res[:-1]), [res[0].edges[0], res[-2].edges[-1]]), (u[:, :kept] * s[:kept]) @ v[:kept], "kept part")


def both_limits(ctx, how, n, rel):
  """max_singular_values and max_truncation_err together: as many values as the stricter of the two allows"""
  sv = ctx.spectrum("s", n)
  for a, b in zip(sv, sv[1:]):
    ctx.assume(a > b + 0.125)
  ctx.assume(sv[-1] > 0.125)
  a, u, s, v = ctx.known_svd("A", n, n, sv, False)
  k = ctx.pick("keep", 1, n)
  j = ctx.pick("allowed by the error", 0, n - 1)   # how many values may be discarded
  total = lambda xs: sum((x * x for x in xs), 0 * sv[0])
  err2 = total(sv[n - j:]) + (sv[n - j - 1] * sv[n - j - 1]) * 0.5
  err = err2.sqrt() if ctx.symbolic else np.sqrt(err2)
  if rel:
    err = err / sv[0]
  node = tn.Node(a, backend="numpy")
  f = tn.split_node if how == "svd" else tn.split_node_full_svd
  res = f(node, [node.edges[0]], [node.edges[1]], max_singular_values=k, max_truncation_err=err, relative=rel)
  kept = min(k, n - j)
  ctx.check(data(res[0]).shape[-1] == kept, "number of values kept")
  ctx.eq(res[-1], np.array(sv[kept:], dtype=object if ctx.symbolic else float), "discarded values")
  ctx.eq(value(list(res[:-1]), [res[0].edges[0], res[-2].edges[-1]]), (u[:, :kept] * s[:kept]) @ v[:kept], "kept part")


def rejected(ctx, how):
  """edges that do not belong to the node, or are missing, are refused and leave the network as it was"""
  nodes, edges = build(ctx, (3, 2), [((0, 0), (1, 0))], d2)
  node = nodes[0]
  free = dangling(nodes)
  before = value(nodes, free)
  pool = node.edges + [nodes[1].edges[1]]
  nl, nr = ctx.pick("nl", 0, 2), ctx.pick("nr", 0, 2)
  left = [pool[ctx.pick(f"l{i}", 0, 3)] for i in range(nl)]
  right = [pool[ctx.pick(f"r{i}", 0, 3)] for i in range(nr)]
  if len(left + right) == 3 and {id(e) for e in left + right} == {id(e) for e in node.edges}:
    return
  f = {"svd": tn.split_node, "qr": tn.split_node_qr, "rq": tn.split_node_rq, "full": tn.split_node_full_svd}[how]
  ctx.raises((ValueError, IndexError), lambda: f(node, left, right), "wrong edges")
  wellformed(ctx, nodes, "after rejection")
  ctx.eq(value(nodes, free), before, "value after rejection")


def scenarios(tier):
  th = tier == "thorough"
  out = []
  for how in ("svd", "qr", "rq", "full"):
    cfgs = [((1,), d23), ((2,), d23), ((3,), d12), ((2, 1), d23), ((3, 1), d12)]
    if how in ("qr", "rq") or th:
      cfgs += [((3,), d2), ((2, 2), d2), ((4,), d12)]
    else:
      cfgs += [((3,), lambda k: [2, 2, 1][k]), ((2, 2), d12)]
    for i, (r, d) in enumerate(cfgs):
      for cplx in (False, True):
        if cplx and sum(r) > 3 and not th:
          continue
        out.append(Scenario(f"split {how} {r} {'complex' if cplx else 'real'} #{i}", split, how, r, d, cplx,
                            names=i % 2 == 1))
    out.append(Scenario(f"rejected {how}", rejected, how))
  for how in ("svd", "full"):
    for l, r in [((2,), (2,)), ((2,), (3,)), ((3,), (2,)), ((2, 2), (3,)), ((3,), (1, 3)), ((4,), (4,)), ((2, 2), (2, 2))]:
      for cplx in (False, True):
        out.append(Scenario(f"truncated {how} {l} {r} {'complex' if cplx else 'real'}", truncated, how, l, r, cplx))
    for rel in (False, True):
      for n in (2, 3):
        out.append(Scenario(f"both limits {how} {n} relative={rel}", both_limits, how, n, rel))
      out.append(Scenario(f"truncation error {how} relative={rel}", truncated_err, how, rel))
  return out
