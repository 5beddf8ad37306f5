"""C20: gates on an MPS."""
import numpy as np
import tensornetwork as tn
from runner import Scenario
import mpslib as ml
import shims
from c18 import scalar, one

BOUNDS = ("FiniteMPS of 2 to 4 sites, physical dimension 2 (also 3 for two sites, 1), bond dimension up to 2, arbitrary tensors with no "
          "recorded centre or arbitrary canonical tensors for every recorded centre; arbitrary (not unitary) real or complex one- and "
          "two-site gates at every site; every center_position option; without truncation (QR/RQ), with limits that discard nothing, and "
          "with truncation at the centre; NumPy and JAX, TensorFlow for two sites")
OUTSIDE = ("rounding; a non-unitary one-site gate away from the recorded centre (the documentation says that it destroys the canonical "
           "form); which singular values a limit keeps (C08)")
ASSUMPTIONS = ["LAPACK's qr and svd satisfy their contracts"]
BACKENDS = ("numpy", "jax", "tensorflow")
shims.preload(BACKENDS)


def prep(ctx, n, d, D, cplx):
  c = ctx.choice("recorded centre", [None] + list(range(n)))
  return c, ml.tensors(ctx, n, d, D, c, cplx)


def act1(psi, g, s):
  return np.moveaxis(np.tensordot(g, psi, ([1], [s + 1])), 0, s + 1)


def act2(psi, g, s):
  """g[out1, out2, in1, in2]"""
  r = np.tensordot(g, psi, ([2, 3], [s + 1, s + 2]))
  return np.moveaxis(r, [0, 1], [s + 1, s + 2])


def one_site(ctx, name, n, d, D, cplx):
  c, ts = prep(ctx, n, d, D, cplx)
  psi = ml.state(ts)
  orig = [ctx.contents(t) for t in ts]
  s = ctx.pick("site", 0, n - 1)
  kind = ctx.choice("gate", ["any", "unitary"])
  g = ctx.tensor("g", (d, d), cplx) if kind == "any" else ctx.isometry("g", d, d, cplx)
  g0 = ctx.contents(g)
  with shims.on(ctx, name) as B:
    given = [B.arr(t) for t in ts]
    m = ml.make(given, c, name)
    gg = B.arr(g)
    m.apply_one_site_gate(gg, s)
    new = [B.out(t) for t in m.tensors]
    for t, o in zip(given, orig):
      ctx.eq(B.out(t), o, "the arrays the MPS was made from are not modified")
    ctx.eq(B.out(gg), g0, "gate unchanged")
    ctx.raises(ValueError, lambda: m.apply_one_site_gate(gg, n), "site out of range")
    ctx.raises(ValueError, lambda: m.apply_one_site_gate(gg, -1), "site out of range")
    ctx.raises(ValueError, lambda: m.apply_one_site_gate(m.tensors[0], 0), "rank of the gate")
  ctx.eq(ml.state(new), act1(psi, g, s), "state")
  for i, t in enumerate(new):
    if i != s:
      ctx.eq(t, orig[i], "other tensors keep their value")
  if m.center_position is not None and (kind == "unitary" or s == c):
    ctx.check(0 <= m.center_position < n, "centre in range")
    ml.canonical(ctx, new, m.center_position, "after a gate: ")


def two_site(ctx, name, n, d, D, cplx, how):
  ctx.nonzero_svd()
  c, ts = prep(ctx, n, d, D, cplx)
  psi = ml.state(ts)
  orig = [ctx.contents(t) for t in ts]
  s = ctx.pick("site1", 0, n - 2)
  if how != "qr" and c not in (s, s + 1):
    return
  cp = ctx.choice("center_position", [None, s, s + 1])
  g = ctx.tensor("g", (d, d, d, d), cplx)
  kw = {"qr": {}, "loose": dict(max_singular_values=20), "D": dict(max_singular_values=1),
        "err": dict(max_truncation_err=0.5, relative=True), "zero": dict(max_truncation_err=0.0),
        "abs": dict(max_truncation_err=0.25)}[how]
  with shims.on(ctx, name) as B:
    given = [B.arr(t) for t in ts]
    m = ml.make(given, c, name)
    if cp is not None:
      kw["center_position"] = cp
    tw = m.apply_two_site_gate(B.arr(g), s, s + 1, **kw)
    new = [B.out(t) for t in m.tensors]
    tw = np.asarray(B.out(tw)).ravel()
    for t, o in zip(given, orig):
      ctx.eq(B.out(t), o, "the arrays the MPS was made from are not modified")
  for i, t in enumerate(new):
    if i not in (s, s + 1):
      ctx.eq(t, orig[i], "other tensors keep their value")
  a, b = new[s], new[s + 1]
  ctx.check(a.shape[2] == b.shape[0] and a.shape[:2] == ts[s].shape[:2] and b.shape[1:] == ts[s + 1].shape[1:], "shapes")
  theta = np.tensordot(np.tensordot(ts[s], ts[s + 1], 1), g, ([1, 2], [2, 3])).transpose(0, 2, 3, 1)
  if how in ("qr", "loose"):
    ctx.eq(ml.state(new), act2(psi, g, s), "state")
    for x in tw:
      ctx.eq(one(ctx, x), np.zeros(1), "nothing was discarded")
  else:
    ctx.check(a.shape[2] + len(tw) == min(theta.shape[0] * d, d * theta.shape[3]), "kept and discarded values")
    if how == "D":
      ctx.check(a.shape[2] == 1, "bond dimension limited")
  # the recorded centre
  site = s if cp is None else cp
  if c is None or c not in (s, s + 1):
    ctx.check(m.center_position is None, "no centre is recorded")
  else:
    ctx.check(m.center_position is None or 0 <= m.center_position < n, "centre in range")
    ctx.check(m.center_position == site, "centre is the requested one")
  if m.center_position is not None:
    ml.canonical(ctx, new, m.center_position, "after a gate: ")

def weight(ctx, name, cplx, how):
  """truncation: the gate makes an arbitrary two-site tensor with known singular values"""
  k = 3 if how == "rank3" else 2
  svals = ctx.spectrum("s", k)
  for x, y in zip(svals, svals[1:]):
    ctx.assume(x - y > 0.001)  # ties leave the factors undetermined
  ctx.assume(svals[0] > 0.001)
  mat, u, s, v = ctx.known_svd("M", k, k, svals, cplx)
  a0 = np.eye(k).reshape(1, k, k)
  a1 = np.eye(k).reshape(k, k, 1)
  if ctx.symbolic:
    import sym
    a0, a1 = sym.arr(a0), sym.arr(a1)
  elif cplx:
    a0, a1 = a0.astype(np.complex128), a1.astype(np.complex128)
  g = ctx.tensor("g", (k, k, k, k), cplx)
  for i in range(k):
    g[:, :, i, i] = mat if i == 0 else mat * 0
  c = ctx.choice("recorded centre", [0, 1])
  cp = ctx.choice("center_position", [None, 0, 1])
  kw = ctx.choice("limit", [dict(max_singular_values=1), dict(max_singular_values=2), dict(max_singular_values=1, max_truncation_err=0.25),
                            dict(max_truncation_err=0.5, relative=True), dict(max_truncation_err=0.25), {}])
  with shims.on(ctx, name) as B:
    m = ml.make([B.arr(a0), B.arr(a1)], c, name)
    tw = np.asarray(B.out(m.apply_two_site_gate(B.arr(g), 0, 1, center_position=cp, **kw))).ravel()
    a, b = [B.out(t) for t in m.tensors]
  kept = a.shape[2]
  got = a.reshape(k, kept) @ b.reshape(kept, k)
  if not kw:
    ctx.eq(got, mat, "nothing is discarded without limits")
    return
  ctx.check(kept + len(tw) == k, "kept and discarded values")
  if "max_singular_values" in kw:
    ctx.check(kept <= kw["max_singular_values"], "number of values limited")
  err = np.sum(np.asarray(tw) ** 2) if len(tw) else 0
  if "max_truncation_err" in kw:
    lim = kw["max_truncation_err"] * (svals[0] if kw.get("relative") else 1)
    if kept < kw.get("max_singular_values", k):
      ctx.check(err <= lim * lim * (1 if ctx.symbolic else 1 + 1e-9), "no more discarded than the limit")
  elif kept < min(k, kw["max_singular_values"]):
    ctx.fail("discarded only because of a limit", str(kept))
  ctx.eq(got, (u[:, :kept] * s[:kept]) @ v[:kept], "the largest singular values are kept")
  for x, y in zip(tw, s[kept:]):
    ctx.eq(one(ctx, x), one(ctx, y), "discarded values are returned")


def rejected(ctx, n):
  ts = ml.tensors(ctx, n, 2, 2, None, False)
  c = ctx.choice("recorded centre", [None] + list(range(n)))
  m = ml.make([t for t in ts], c, "numpy")
  s1 = ctx.pick("site1", -1, n)
  s2 = ctx.pick("site2", -1, n)
  cp = ctx.choice("center_position", [None, 0, 1, n])
  trunc = ctx.choice("limit", [{}, dict(max_singular_values=2), dict(max_truncation_err=0.5)])
  rank = ctx.choice("rank", [4, 3])
  g = ctx.tensor("g", (2,) * rank)
  ok = (rank == 4 and 0 <= s1 and s2 == s1 + 1 and s2 < n and cp in (None, s1, s2) and (not trunc or c in (s1, s2)))
  if ok:
    return
  ctx.raises(ValueError, lambda: m.apply_two_site_gate(g, s1, s2, center_position=cp, **trunc), "invalid gate")
  ctx.check(m.center_position == c and all(a is b for a, b in zip(m.tensors, ts)), "a refused gate changes nothing")


def scenarios(tier):
  out = []
  th = tier == "thorough"

  def add(what, fn, *args, **kw):
    out.append(Scenario(f"{what} " + " ".join(str(a) if not isinstance(a, bool) else ("c" if a else "r") for a in args), fn, *args, **kw))

  for b in BACKENDS:
    for n, d, D in [(2, 2, 2), (3, 2, 2), (4, 2, 2), (2, 3, 3), (3, 1, 2)]:
      if b != "numpy" and not th and n > (3 if b == "jax" else 2):
        continue
      for cplx in (False, True):
        add("one-site", one_site, b, n, d, D, cplx)
        add("two-site", two_site, b, n, d, D, cplx, "qr")
        if n <= 3 and d < 3:
          for how in ("loose", "D", "err", "zero", "abs"):
            add("two-site", two_site, b, n, d, D, cplx, how)
    for cplx in (False, True):
      for how in ("rank2", "rank3"):
        add("weight", weight, b, cplx, how)
  add("rejected", rejected, 3)
  return out
