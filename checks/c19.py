"""C19: MPS observables."""
import numpy as np
import tensornetwork as tn
from runner import Scenario
import mpslib as ml
import shims
from c18 import scalar, one

BOUNDS = ("FiniteMPS of 1 to 4 sites (thorough: 5), physical dimension 2 (also 3 and 1 for short chains), bond dimension up to 2; arbitrary "
          "tensors (no recorded centre, boundary bonds of dimension 1 and 2) or arbitrary canonical tensors at every centre; arbitrary "
          "operators (not Hermitian); every list of up to 3 sites in any order with repetitions for the environments and local operators "
          "(thorough: 4 sites), every site1 and list of up to 3 sites for correlators; the transfer operator in both directions at every "
          "site; NumPy, JAX and TensorFlow")
OUTSIDE = ("rounding; InfiniteMPS environments (they need the dominant eigenvector, C30); sites outside the chain for correlators; that "
           "contracting isometries gives the identity is itself checked by the solver for chains of 2 to 4 sites and then used as a lemma")
BACKENDS = ("numpy", "jax", "tensorflow")
shims.preload(BACKENDS)


def left(ts, site, ops=None, start=None):
  """sum over everything left of `site`: entry [a, b] for bra bond b; ops {site: matrix} between bra (row) and ket (column)"""
  e = np.eye(ts[0].shape[0]) if start is None else start[1]
  for k in range(0 if start is None else start[0], site):
    e = step_left(ts[k], e, (ops or {}).get(k))
  return e


def step_left(t, e, o=None):
  x = np.tensordot(e, t, ([0], [0]))  # b s c
  if o is not None:
    x = np.moveaxis(np.tensordot(o, x, ([1], [1])), 0, 1)
  return np.tensordot(x, np.conj(t), ([0, 1], [0, 1]))


def step_right(t, e, o=None):
  x = np.tensordot(t, e, ([2], [0]))  # a s b
  if o is not None:
    x = np.moveaxis(np.tensordot(o, x, ([1], [1])), 0, 1)
  return np.tensordot(x, np.conj(t), ([1, 2], [1, 2]))


def right(ts, site, start=None):
  n = len(ts)
  e = np.eye(ts[-1].shape[2]) if start is None else start[1]
  for k in range((n - 1) if start is None else start[0], site, -1):
    e = step_right(ts[k], e)
  return e


def lemma(ctx, n, d, D, cplx):
  """environments of isometric tensors are identities"""
  ts = ml.tensors(ctx, n, d, D, n, cplx)
  for i in range(n + 1):
    ctx.eq(left(ts, i), np.eye(ts[i].shape[0] if i < n else ts[-1].shape[2]), "left environment of left isometric tensors")
  ts = ml.tensors(ctx, n, d, D, -1, cplx, prefix="B")
  for i in range(-1, n):
    ctx.eq(right(ts, i), np.eye(ts[i].shape[2] if i >= 0 else ts[0].shape[0]), "right environment of right isometric tensors")


def exact_left(ts, c, site):
  """left environment, left isometric tensors contracted by the lemma"""
  if c is not None and site <= c:
    return np.eye(ts[site].shape[0])
  if c is not None:
    return left(ts, site, None, (c, np.eye(ts[c].shape[0])))
  return left(ts, site)


def exact_right(ts, c, site):
  if c is not None and site >= c:
    return np.eye(ts[site].shape[2])
  if c is not None:
    return right(ts, site, (c, np.eye(ts[c].shape[2])))
  return right(ts, site)


def mps(ctx, n, d, D, cplx, brute, bonds=None):
  c = ctx.choice("recorded centre", [None] + (list(range(n)) if bonds is None else []))
  ts = ml.tensors(ctx, n, d, D, c, cplx, bonds)
  return c, ts, (None if brute else c)


def sites_of(ctx, n, k, lo=0, hi=None):
  hi = n - 1 if hi is None else hi
  m = ctx.pick("number of sites", 0, k)
  return [ctx.pick(f"site{i}", lo, hi) for i in range(m)]


def envs(ctx, name, n, d, D, cplx, brute, k, bonds=None):
  c, ts, e = mps(ctx, n, d, D, cplx, brute, bonds)
  side = ctx.choice("side", ["left", "right"])
  sites = sites_of(ctx, n, k, 0 if side == "left" else -1, n if side == "left" else n - 1)
  given = list(sites)
  with shims.on(ctx, name) as B:
    m = ml.make([B.arr(t) for t in ts], c, name)
    r = m.left_envs(sites) if side == "left" else m.right_envs(sites)
    r = {int(x): B.out(y) for x, y in r.items()}
    new = [B.out(t) for t in m.tensors]
  ctx.check(sites == given, "site list unchanged")
  ctx.check(sorted(r) == sorted(set(sites)), "one environment for each site")
  for s in set(sites):
    if side == "left":
      x = exact_left(ts, e, s) if s < n else step_left(ts[-1], exact_left(ts, e, n - 1))
    else:
      x = exact_right(ts, e, s) if s >= 0 else step_right(ts[0], exact_right(ts, e, 0))
    ctx.eq(r[s], x, "environment")
  for a, b in zip(new, ts):
    ctx.eq(a, b, "tensors unchanged")


def local(ctx, name, n, d, D, cplx, brute, k, bonds=None):
  c, ts, e = mps(ctx, n, d, D, cplx, brute, bonds)
  sites = sites_of(ctx, n, k)
  ops = [ctx.tensor(f"op{i}", (d, d), cplx) for i in range(len(sites))]
  with shims.on(ctx, name) as B:
    m = ml.make([B.arr(t) for t in ts], c, name)
    r = m.measure_local_operator([B.arr(o) for o in ops], sites)
    r = [scalar(ctx, B.out(x)) for x in r]
    if sites:
      ctx.raises(ValueError, lambda: m.measure_local_operator([B.arr(o) for o in ops], sites[1:]), "one operator for each site")
  ctx.check(len(r) == len(sites), "one value for each site")
  for x, s, o in zip(r, sites, ops):
    l = step_left(ts[s], exact_left(ts, e, s), o)
    ctx.eq(one(ctx, x), one(ctx, np.sum(l * exact_right(ts, e, s))), "expectation value")


def correlator(ctx, name, n, d, D, cplx, brute, k, bonds=None):
  c, ts, e = mps(ctx, n, d, D, cplx, brute, bonds)
  s1 = ctx.pick("site1", 0, n - 1)
  sites = sites_of(ctx, n, k)
  o1, o2 = ctx.tensor("op1", (d, d), cplx), ctx.tensor("op2", (d, d), cplx)
  with shims.on(ctx, name) as B:
    m = ml.make([B.arr(t) for t in ts], c, name)
    r = m.measure_two_body_correlator(B.arr(o1), B.arr(o2), s1, sites)
    r = [scalar(ctx, B.out(x)) for x in r]
    ctx.raises(ValueError, lambda: m.measure_two_body_correlator(B.arr(o1), B.arr(o2), -1, sites), "site1 out of range")
    ctx.raises(ValueError, lambda: m.measure_two_body_correlator(B.arr(o1), B.arr(o2), n, sites), "site1 out of range")
  ctx.check(len(r) == len(sites), "one value for each site")
  for x, s in zip(r, sites):
    ops = {s1: o1, s: o2} if s != s1 else {s: o1 @ o2}
    lo, hi = min(s1, s), max(s1, s)
    l = exact_left(ts, e, lo)
    for j in range(lo, hi + 1):
      l = step_left(ts[j], l, ops.get(j))
    ctx.eq(one(ctx, x), one(ctx, np.sum(l * exact_right(ts, e, hi))), "correlator")


def transfer(ctx, name, n, d, D, cplx):
  ts = ml.tensors(ctx, n, d, D, None, cplx, [2, 1, 2, 3, 2][:n + 1])
  s = ctx.pick("site", 0, n - 1)
  dirn = ctx.choice("direction", [1, "l", "left", -1, "r", "right", 0, "up"])
  is_left = dirn in (1, "l", "left")
  z = ts[s].shape[0 if is_left else 2]
  x = ctx.tensor("x", (z, z), cplx)
  with shims.on(ctx, name) as B:
    m = ml.make([B.arr(t) for t in ts], None, name)
    if dirn in (0, "up"):
      ctx.raises(ValueError, lambda: m.apply_transfer_operator(s, dirn, B.arr(x)), "unknown direction")
      return
    r = B.out(m.apply_transfer_operator(s, dirn, B.arr(x)))
  ctx.eq(r, step_left(ts[s], x) if is_left else step_right(ts[s], x), "transfer operator")


def connector(ctx, name, n, cplx):
  """get_tensor absorbs the connector matrix on the last site"""
  ts = ml.tensors(ctx, n, 2, 2, None, cplx, [2] * (n + 1))
  cm = ctx.tensor("C", (2, 2), cplx)
  with shims.on(ctx, name) as B:
    m = ml.make([B.arr(t) for t in ts], None, name)
    m.connector_matrix = B.arr(cm)
    for s in range(n):
      ctx.eq(B.out(m.get_tensor(s)), np.tensordot(ts[s], cm, 1) if s == n - 1 else ts[s], "tensor")
    ctx.raises(IndexError, lambda: m.get_tensor(n), "site out of range")
    ctx.raises(ValueError, lambda: m.get_tensor(-1), "site out of range")


def scenarios(tier):
  out = []
  th = tier == "thorough"

  def add(what, fn, *args, **kw):
    out.append(Scenario(f"{what} " + " ".join(str(a) if not isinstance(a, bool) else ("y" if a else "n") for a in args), fn, *args, **kw))

  for n in (2, 3, 4):
    for cplx in (False, True):
      add("lemma", lemma, n, 2, 2, cplx)
  for b in BACKENDS:
    for cplx in (False, True):
      full = b == "numpy" or th
      add("connector", connector, b, 3, cplx)
      add("transfer", transfer, b, 3 if full else 2, 2, 2, cplx)
      for fn, what in ((envs, "environments"), (local, "local"), (correlator, "correlator")):
        add(what, fn, b, 1, 2, 1, cplx, True, 2)
        add(what, fn, b, 2, 2, 2, cplx, True, 2)
        if full or (b == "jax" and not cplx):
          add(what, fn, b, 3, 2, 2, cplx, False, 3 if fn is not correlator or th else 2)
        if full:
          add(what, fn, b, 4, 2, 2, cplx, False, 3 if th else 2)
          add(what, fn, b, 2, 2, 2, cplx, True, 1, [2, 1, 2])
          add(what, fn, b, 2, 3, 2, cplx, False, 1)
          add(what, fn, b, 3, 1, 1, cplx, True, 3)
          if th:
            add(what, fn, b, 5, 2, 2, cplx, False, 2)
  return out
