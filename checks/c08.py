"""C08: SVD truncation keeps as few singular values as the limits allow."""
import numpy as np
import tensornetwork as tn
from runner import Scenario
import shims

BOUNDS = ("spectra of up to 4 symbolic values (3 for symbolic error limits with all ties excluded; ties and zero values with exact "
          "spectra), every error limit >= 0 as a symbolic real, absolute and relative, every max_singular_values from 1 to one "
          "more than the rank; matrices from 1x1 to 4x4 and tensors of order 2 to 4 about every pivot; NumPy, JAX and TensorFlow "
          "backends and the tn.linalg wrapper")
OUTSIDE = "rounding; PyTorch (not installed) and symmetric backend (C16); negative error limits"
ASSUMPTIONS = ["the library's svd satisfies its contract: A = U diag(S) V, isometric factors, S descending and non-negative",
               "jax.numpy and TensorFlow functions compute what lib/shims.py models (each validated path runs the real library)"]
BACKENDS = ("numpy", "jax", "tensorflow")
shims.preload(BACKENDS)


def call(B, api, t, pivot, **kw):
  if api == "wrapper":
    out = tn.linalg.linalg.svd(tn.Tensor(t, backend=B.backend), pivot, **kw)
    return [x.array for x in out]
  return B.backend.svd(t, pivot, **kw)


def verify(ctx, B, res, u, s, v, kept, shape, pivot):
  uu, ss, vv, rest = [B.out(x) for x in res]
  ctx.check(uu.shape == tuple(shape[:pivot]) + (kept,) and ss.shape == (kept,) and vv.shape == (kept,) + tuple(shape[pivot:])
            and rest.shape == (len(s) - kept,), "shapes")
  ctx.eq(ss, np.array(s[:kept], dtype=object if ctx.symbolic else float), "kept values are the largest")
  ctx.eq(rest, np.array(s[kept:], dtype=object if ctx.symbolic else float), "discarded values returned")
  m = int(np.prod(shape[:pivot]))
  ctx.eq((uu.reshape(m, kept) * ss) @ vv.reshape(kept, v.shape[1]), (u[:, :kept] * np.array(s[:kept])) @ v[:kept], "kept part")


def maxsv(ctx, name, api, shape, pivot, cplx):
  m, n = int(np.prod(shape[:pivot])), int(np.prod(shape[pivot:]))
  k = min(m, n)
  s = ctx.spectrum("s", k)
  for a, b in zip(s, s[1:]):
    ctx.assume(a > b + 0.125)
  a, u, s, v = ctx.known_svd("A", m, n, s, cplx)
  with shims.on(ctx, name) as B:
    lim = ctx.pick("max", 0, k + 1)
    piv = ctx.choice("negative pivot", [pivot, pivot - len(shape)])
    kw = dict(max_singular_values=lim) if lim else {}
    t = B.arr(a.reshape(shape))
    res = call(B, api, t, piv, **kw)
    verify(ctx, B, res, u, s, v, min(lim, k) if lim else k, shape, pivot)
    ctx.eq(B.out(t).reshape(m, n), a, "input unchanged")


def error(ctx, name, api, m, n, rel, with_max, cplx):
  k = min(m, n)
  s = ctx.spectrum("s", k)
  for a, b in zip(s, s[1:]):
    ctx.assume(a > b + 0.125)
  err = ctx.real("err")
  ctx.assume(err >= 0)
  ctx.assume(err <= 64)
  ctx.assume(s[0] <= 64)
  lim2 = err * err * (s[0] * s[0] if rel else 1)
  tail = []
  for i in range(k):
    tot = 0
    for x in s[i:]:
      tot = tot + x * x
    ctx.assume((lim2 > tot + 0.0625) | (lim2 < tot - 0.0625))
    tail.append(tot)
  need = k
  for i in range(k - 1, -1, -1):
    if tail[i] < lim2:
      need = i
  lim = ctx.pick("max", 1, k) if with_max else None
  kw = dict(max_truncation_error=err, relative=rel)
  if with_max:
    kw["max_singular_values"] = lim
  a, u, s, v = ctx.known_svd("A", m, n, s, cplx)
  with shims.on(ctx, name) as B:
    res = call(B, api, B.arr(a), 1, **kw)
    verify(ctx, B, res, u, s, v, min(need, lim or k), (m, n), 1)


def ties(ctx, name, api):
  """exact spectra: equality of the discarded norm with the limit, equal and zero values"""
  t = ctx.choice("scale", [1.0, 2.0, 0.25])
  spec, e, rel, need = ctx.choice("case", [
      ([12.0, 4.0, 3.0], 5.0, False, 1),  # the norm of (4, 3) is the limit
      ([12.0, 4.0, 3.0], 3.0, False, 2),
      ([12.0, 4.0, 3.0], 13.0, False, 0),
      ([12.0, 4.0, 3.0], 4.999, False, 2),
      ([12.0, 4.0, 3.0], 5.001, False, 1),
      ([12.0, 4.0, 3.0], 0.0, False, 3),
      ([8.0, 4.0, 3.0], 0.375, True, 2),
      ([8.0, 4.0, 3.0], 0.625, True, 1),
      ([8.0, 4.0, 3.0], 0.374, True, 3),
      ([4.0, 4.0, 3.0], 0.0, True, 3),
      ([4.0, 2.0, 0.0], 0.0, False, 2),
      ([4.0, 0.0, 0.0], 0.0, True, 1),
      ([0.0, 0.0, 0.0], 0.0, False, 0),
      ([0.0, 0.0, 0.0], 0.5, True, 0),
      ([4.0, 4.0, 4.0], 3.0, False, 3),
      ([3.0, 3.0, 3.0], 4.5, False, 1),
      ([4.0, 3.0, 0.0], 3.0, False, 1),
      ([4.0, 3.0, 0.0], 5.0, False, 0),
  ])
  lim = ctx.pick("max", 0, 3)
  s = [x * t for x in spec]
  a, u, s, v = ctx.diag_svd("D", s)
  with shims.on(ctx, name) as B:
    kw = dict(max_truncation_error=e if rel else e * t, relative=rel)
    if lim:
      kw["max_singular_values"] = lim
    res = call(B, api, B.arr(a), 1, **kw)
    verify(ctx, B, res, u, s, v, min(need, lim or 3), (3, 3), 1)


def node_truncation(ctx, how):
  """the same through split_node"""
  t = ctx.choice("scale", [1.0, 2.0])
  e, rel, need = ctx.choice("case", [(5.0, False, 1), (3.0, False, 2), (4.5, False, 2), (0.25, True, 2), (0.5, True, 1), (0.2, True, 3)])
  a, u, s, v = ctx.diag_svd("D", [12.0 * t, 4.0 * t, 3.0 * t])
  node = tn.Node(a, backend="numpy")
  f = tn.split_node if how == "svd" else tn.split_node_full_svd
  lim = ctx.pick("max", 0, 3)
  res = f(node, [node[0]], [node[1]], max_singular_values=lim or None, max_truncation_err=e if rel else e * t, relative=rel)
  kept = min(need, lim or 3)
  ctx.check(res[0].shape[-1] == kept, "kept")
  ctx.eq(res[-1], np.array(s[kept:], dtype=object if ctx.symbolic else float), "discarded")


def scenarios(tier):
  out = []
  th = tier == "thorough"
  for b in BACKENDS:
    for api in ("backend", "wrapper"):
      cases = [((1, 1), 1), ((2, 2), 1), ((2, 3), 1), ((3, 2), 1), ((4, 4), 1), ((2, 3, 2), 1), ((2, 3, 2), 2), ((2, 2, 2, 2), 2), ((1, 3, 2, 1), 2)]
      if api == "wrapper":
        cases = cases[2:4] + cases[5:7]
      for shape, p in cases:
        for cplx in (False, True):
          if cplx and not th and (shape in ((4, 4), (2, 2, 2, 2)) or api == "wrapper"):
            continue
          out.append(Scenario(f"max_singular_values {b} {api} {shape} {p} {'c' if cplx else 'r'}", maxsv, b, api, shape, p, cplx))
      for m, n in [(1, 1), (2, 2), (2, 3), (3, 3)] if api == "backend" else [(2, 3)]:
        for rel in (False, True):
          for wm in (False, True):
            out.append(Scenario(f"error {b} {api} {m}x{n} rel={rel} max={wm}", error, b, api, m, n, rel, wm, n == 3 and m < 3))
      out.append(Scenario(f"ties {b} {api}", ties, b, api))
  for how in ("svd", "full"):
    out.append(Scenario(f"split {how}", node_truncation, how))
  return out
