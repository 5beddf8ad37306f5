"""C18: moving the centre of an MPS."""
import numpy as np
import tensornetwork as tn
from runner import Scenario
from sym import S
import mpslib as ml
import shims

BOUNDS = ("FiniteMPS of 1 to 4 sites (thorough: 5), physical dimension 2 (also 1 and 3 for short chains), bond dimension up to 2 (3 for "
          "two sites), arbitrary real or complex tensors satisfying the canonical form at every centre (one move from an arbitrary "
          "canonical state: the invariant is inductive, so histories of moves of any length are covered), every target, normalize "
          "on/off/default, QR and SVD moves, truncating SVD moves; canonicalize and the constructor from arbitrary tensors of up to 3 "
          "sites (thorough: 4) with every recorded centre; moves of a centre recorded by hand on arbitrary tensors (2 and 3 sites); NumPy and JAX backends (TensorFlow: 2 sites)")
OUTSIDE = ("rounding; larger chains; the zero state; the normalised state after moves of two or more sites in chains of four (covered without normalisation); InfiniteMPS.canonicalize (C30); that the "
           "norm of a canonical state is the norm of its centre tensor is used as a lemma (checked by isometry of the other tensors)")
ASSUMPTIONS = ["LAPACK's qr and svd satisfy their contracts"]
BACKENDS = ("numpy", "jax", "tensorflow")
shims.preload(BACKENDS)


def scalar(ctx, x):
  x = np.asarray(x, dtype=object if ctx.symbolic else None)
  if x.size != 1:
    ctx.fail("norm is a scalar", str(x.shape))
  return x.reshape(())[()]


def one(ctx, x):
  return ctx.array_of([x])


def zero(ctx, t):
  """the zero state cannot be normalised"""
  return all(isinstance(x, (int, float, S)) and not S.lift(x).t for x in t.ravel()) if ctx.symbolic else not np.any(t) or not np.isfinite(t).all()


def nonneg(ctx, z):
  ctx.check(z >= 0 if ctx.symbolic else np.real(z) >= 0 and abs(np.imag(z)) < 1e-12, "norm not negative")


def move(ctx, name, n, d, D, cplx, options, bonds=None):
  """one move of an arbitrary canonical MPS (the invariant is inductive: covers every history of moves)"""
  ctx.nonzero_svd()
  c = ctx.pick("centre", 0, n - 1)
  site = ctx.pick("site", 0, n - 1)
  normalize = ctx.choice("normalize", [None, False, True])
  ts = ml.tensors(ctx, n, d, D, c, cplx, bonds)
  psi = ml.state(ts)
  orig = [ctx.contents(t) for t in ts]
  with shims.on(ctx, name) as B:
    given = [B.arr(t) for t in ts]
    m = ml.make(given, c, name)
    kw = dict(options)
    if normalize is not None:
      kw["normalize"] = normalize
    z = m.position(site, **kw)
    new = [B.out(t) for t in m.tensors]
    z = scalar(ctx, B.out(z))
    for t, o in zip(given, orig):
      ctx.eq(B.out(t), o, "the arrays the MPS was made from are not modified")
  ctx.check(m.center_position == site, "centre is the requested site")
  for i, t in enumerate(new):
    if not min(c, site) <= i <= max(c, site):
      ctx.eq(t, orig[i], "tensors outside the move keep their value")
  ml.canonical(ctx, new, site)
  nonneg(ctx, z)
  got = ml.state(new)
  if normalize is False:
    ctx.eq(got, psi, "state unchanged")
    ctx.eq(one(ctx, z * z), one(ctx, ml.norm2(new[site])), "returns the norm of the centre tensor")
  elif not zero(ctx, new[site]):
    if abs(c - site) <= 1:
      ctx.eq(got * z, psi, "state divided by the returned norm")
    elif n < 4:
      proportional(ctx, got, psi)
    ctx.eq(one(ctx, ml.norm2(new[site])), np.ones(1), "normalised")


def proportional(ctx, got, psi):
  g, p = np.asarray(got).ravel(), np.asarray(psi).ravel()
  ctx.eq(g * p[0], p * g[0], "state unchanged up to normalisation")


def truncating(ctx, name, n, d, D, cplx, how):
  """moves that may discard singular values keep the canonical form"""
  ctx.nonzero_svd()
  c = ctx.pick("centre", 0, n - 1)
  site = ctx.pick("site", 0, n - 1)
  normalize = ctx.choice("normalize", [False, True])
  ts = ml.tensors(ctx, n, d, D, c, cplx)
  with shims.on(ctx, name) as B:
    m = ml.make([B.arr(t) for t in ts], c, name)
    kw = {"D": dict(D=1), "err": dict(max_truncation_err=0.5), "both": dict(D=1, max_truncation_err=0.25)}[how]
    z = m.position(site, normalize=normalize, **kw)
    new = [B.out(t) for t in m.tensors]
    z = scalar(ctx, B.out(z))
  ctx.check(m.center_position == site, "centre is the requested site")
  ml.canonical(ctx, new, site)
  if "D" in kw:
    for i in range(min(c, site), max(c, site)):
      ctx.check(new[i].shape[2] <= 1 and new[i + 1].shape[0] == new[i].shape[2], "bond dimension limited")
  if normalize:
    if not zero(ctx, new[site]):
      ctx.eq(one(ctx, ml.norm2(new[site])), np.ones(1), "normalised")
  else:
    ctx.eq(one(ctx, z * z), one(ctx, ml.norm2(new[site])), "returns the norm of the centre tensor")


def manual(ctx, name, n, d, D, cplx):
  """moving a centre that was recorded by hand on arbitrary tensors (as the error message of `position` recommends)"""
  ctx.nonzero_svd()
  c = ctx.pick("centre", 0, n - 1)
  site = ctx.pick("site", 0, n - 1)
  normalize = ctx.choice("normalize", [False, True])
  ts = ml.tensors(ctx, n, d, D, None, cplx)
  psi = ml.state(ts)
  with shims.on(ctx, name) as B:
    m = ml.make([B.arr(t) for t in ts], c, name)
    z = scalar(ctx, B.out(m.position(site, normalize=normalize)))
    new = [B.out(t) for t in m.tensors]
  ctx.check(m.center_position == site, "centre is the requested site")
  for i, t in enumerate(new):
    if not min(c, site) <= i <= max(c, site):
      ctx.eq(t, ts[i], "tensors outside the move keep their value")
  lo, hi = min(c, site), max(c, site)
  ml.canonical(ctx, new[lo:hi + 1], site - lo)
  if not normalize:
    ctx.eq(ml.state(new), psi, "state unchanged")
    ctx.eq(one(ctx, z * z), one(ctx, ml.norm2(new[site])), "returns the norm of the centre tensor")
  elif not zero(ctx, new[site]):
    if abs(c - site) <= 1:
      ctx.eq(ml.state(new) * z, psi, "state divided by the returned norm")
    ctx.eq(one(ctx, ml.norm2(new[site])), np.ones(1), "normalised")


def canonicalize(ctx, name, n, d, D, cplx):
  """canonicalize without normalisation: arbitrary tensors"""
  c = ctx.choice("recorded centre", [None] + list(range(n)))
  ts = ml.tensors(ctx, n, d, D, None, cplx)
  psi = ml.state(ts)
  with shims.on(ctx, name) as B:
    m = ml.make([B.arr(t) for t in ts], c, name)
    z = scalar(ctx, B.out(m.canonicalize(normalize=False)))
    new = [B.out(t) for t in m.tensors]
  site = 0 if c is None else c
  ctx.check(m.center_position == site, "centre")
  ml.canonical(ctx, new, site)
  ctx.eq(ml.state(new), psi, "state unchanged")
  nonneg(ctx, z)
  ctx.eq(one(ctx, z * z), one(ctx, ml.norm2(new[site])), "returns the norm")


def constructor(ctx, name, n, d, D, cplx, how):
  """construction and canonicalize with normalisation: arbitrary tensors"""
  c = ctx.choice("centre", [None] + list(range(n)))
  ts = ml.tensors(ctx, n, d, D, None, cplx)
  orig = [ctx.contents(t) for t in ts]
  psi = ml.state(ts)
  with shims.on(ctx, name) as B:
    given = [B.arr(t) for t in ts]
    if how == "init":
      m = tn.FiniteMPS(given, center_position=c, backend=name)
    else:
      m = ml.make(given, c, name)
      m.canonicalize()
    new = [B.out(t) for t in m.tensors]
    for t, o in zip(given, orig):
      ctx.eq(B.out(t), o, "the arrays the MPS was made from are not modified")
  site = 0 if c is None else c
  ctx.check(m.center_position == site, "centre")
  ml.canonical(ctx, new, site)
  proportional(ctx, ml.state(new), psi)
  ctx.eq(one(ctx, ml.norm2(new[site])), np.ones(1), "normalised")


def rejected(ctx, name, n):
  ts = ml.tensors(ctx, n, 2, 2, None, False)
  c = ctx.choice("recorded centre", [None] + list(range(n)))
  site = ctx.pick("site", -2, n + 1)
  err = ctx.choice("err", [None, 1.0, 1.5])
  m = ml.make([t for t in ts], c, name)
  if c is not None and 0 <= site < n and err is None:
    return
  ctx.raises(ValueError, lambda: m.position(site, max_truncation_err=err), "invalid move")
  ctx.check(m.center_position == c and all(a is b for a, b in zip(m.tensors, ts)), "a refused move changes nothing")
  if c is not None and not 0 <= site < n:
    ctx.raises(ValueError, lambda: tn.FiniteMPS(ts, center_position=site, backend=name), "centre out of range")
    ctx.raises(ValueError, lambda: tn.FiniteMPS(ts, center_position=c, canonicalize=False, backend=name), "centre of a non-canonical MPS")


def deviations(ctx, name, n, d, D, cplx):
  """check_orthonormality and check_canonical report the deviation from isometry"""
  c = ctx.pick("recorded centre", 0, n - 1)
  ts = ml.tensors(ctx, n, d, D, None, cplx)
  with shims.on(ctx, name) as B:
    m = ml.make([B.arr(t) for t in ts], c, name)
    total = 0
    for i, t in enumerate(ts):
      l, p, r = t.shape
      for which in ("left", "r"):
        a = t.reshape(l * p, r)
        b = t.reshape(l, p * r)
        dev = np.conj(a.T) @ a - np.eye(r) if which == "left" else b @ np.conj(b.T) - np.eye(l)
        x = scalar(ctx, B.out(m.check_orthonormality(which, i)))
        ctx.eq(one(ctx, x * x), one(ctx, ml.norm2(dev)), "deviation from isometry")
        if (which == "left" and i < c) or (which == "r" and i > c):
          total = total + ml.norm2(dev)
    if n > 1:
      x = scalar(ctx, B.out(m.check_canonical()))
      ctx.eq(one(ctx, x * x), one(ctx, total), "deviation from the canonical form")
    ctx.raises(ValueError, lambda: m.check_orthonormality("x", 0), "unknown side")


def scenarios(tier):
  out = []
  th = tier == "thorough"

  def add(what, fn, *args, **kw):
    out.append(Scenario(f"{what} " + " ".join(str(a) if not isinstance(a, bool) else ("c" if a else "r") for a in args), fn, *args, **kw))

  for b in BACKENDS:
    sizes = [(1, 2, 1), (2, 2, 2), (3, 2, 2), (4, 2, 2), (2, 3, 3)] + ([(5, 2, 2), (4, 1, 2), (3, 3, 3)] if th else [])
    for n, d, D in sizes:
      if b != "numpy" and not th and n > (3 if b == "jax" else 2):
        continue
      for cplx in (False, True):
        add("move", move, b, n, d, D, cplx, {})
        if n > 1 and n < 4 and b != "jax":
          add("svd move", move, b, n, d, D, cplx, {"max_truncation_err": 0.0})
        if n > 1 and n < 4:
          add("loose D", move, b, n, d, D, cplx, {"D": 5})
        if n in (2, 3) and D == 2:
          for how in ("D", "err", "both"):
            if b == "jax" and how != "D":
              continue  # jitted: truncation by error is not available
            add("truncating", truncating, b, n, d, D, cplx, how)
        if n <= (4 if th else 3) and D < 3:
          add("canonicalize", canonicalize, b, n, d, D, cplx)
          if n < 3:
            for how in ("init", "canonicalize"):
              add("normalised", constructor, b, n, d, D, cplx, how)
        if 1 < n <= 3 and D < 3:
          add("manual centre", manual, b, n, d, D, cplx)
        if n <= 3 and D < 3:
          add("deviation", deviations, b, n, d, D, cplx)
  add("rejected", rejected, "numpy", 3)
  return out
