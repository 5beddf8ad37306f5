"""C27: Krylov solvers."""
import warnings
import numpy as np
import scipy.sparse.linalg as spl
import tensornetwork as tn
from tensornetwork.backends.numpy.numpy_backend import NumPyBackend
from tensornetwork.backends.symmetric.symmetric_backend import SymmetricBackend
from tensornetwork.block_sparse import caching
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor
from tensornetwork.linalg import krylov
import sym
from sym import S
from runner import Scenario
import bslib

BOUNDS = ("eigsh_lanczos: every real symmetric operator on a space of 1 to 3 dimensions (4 and 5 in the Krylov basis) and every complex Hermitian one on 2 dimensions, every "
          "start vector for which the Krylov space has 1 to 5 dimensions (either it breaks down exactly or every norm is at least delta), "
          "one Krylov step more or as many as the dimension, with and without re-orthogonalisation, ndiag 1 or 20, 1 to 3 eigenpairs, "
          "vectors of rank 1 and 2; NumPy and symmetric backends and tensornetwork.linalg.krylov on both. eigs and gmres: every linear operator "
          "on 4 dimensions; transfer_matrix_eigs: every InfiniteMPS with one or two sites and bond dimension 1 or 2")
OUTSIDE = ("rounding (loss of orthogonality); Krylov spaces stopped before they are exhausted; operators between exact breakdown and delta; "
           "ARPACK and scipy's gmres themselves; the JAX solvers, which cannot run with the installed JAX (C32)")
ASSUMPTIONS = ["LAPACK's eigh satisfies its contract", "scipy's eigs returns eigenpairs of the LinearOperator it is given and gmres a vector "
               "that solves the system when it reports 0"]
TIMEOUT = 60

NB = NumPyBackend()
SB = SymmetricBackend()
DELTA = 1e-8


def sqrt(ctx, x):
  return x.sqrt() if ctx.symbolic else np.sqrt(x)


def one_minus(ctx, name):
  """(c, s) with c^2 + s^2 = 1 and s >= 0"""
  if not ctx.symbolic:
    c = ctx.real(name)
    if abs(c) > 1:
      c = np.float64(1 / c)
    return c, np.sqrt(1 - c * c)
  c = ctx.real(name)
  ctx.assume(c * c <= 1)
  return c, (1 - c * c).sqrt()


def phase(ctx, name):
  """a complex number of absolute value 1"""
  if not ctx.symbolic:
    z = ctx.complex(name)
    return z / abs(z)
  e = ctx.eng
  v = e.newvar(name, True, base=False)
  c = e.T.conj[v]
  e.T.inv[v] = c
  e.T.inv[c] = v
  re, im = e.z3var(v)
  e.assume(re * re + im * im == 1)
  return S.var(v)


def zeros(ctx, shape, cplx):
  if ctx.symbolic:
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
      a[i] = S.const(0)
    return a
  return np.zeros(shape, dtype=complex if cplx else float)


def frame(ctx, n, cplx=False):
  """every orthogonal (unitary) matrix up to a factor of its first column that the start vector carries"""
  q = zeros(ctx, (n, n), cplx)
  for i in range(n):
    q[i, i] = q[i, i] + 1
  if n == 1:
    return q
  if cplx:
    c, s = one_minus(ctx, "c01")
    u, w = phase(ctx, "u"), phase(ctx, "w")
    q[0, 0], q[1, 0] = c + 0 * u, s * u
    q[0, 1], q[1, 1] = -s * w * np.conj(u), c * w
    return q
  rots = [(0, 1), (0, 2), (1, 2)] if n == 3 else [(0, 1)]
  for k, (i, j) in enumerate(rots):
    c, s = one_minus(ctx, f"c{k}")
    a, b = q[:, i].copy(), q[:, j].copy()
    q[:, i] = a * c + b * s
    q[:, j] = b * c - a * s
  for j in range(1, n):
    if ctx.choice(f"sign{j}", [1, -1]) < 0:
      q[:, j] = -q[:, j]
  return q


def problem(ctx, n, steps, cplx=False, generic=True):
  """(Q, T, start vector): the operator is Q T Q^dagger, the Krylov space of the start vector has `steps` dimensions"""
  q = frame(ctx, n, cplx) if generic else frame_id(ctx, n)
  t = zeros(ctx, (n, n), cplx)
  for i in range(n):
    t[i, i] = ctx.real(f"a{i}") + t[i, i]
  for i in range(n - 1):
    if i + 1 == steps:
      continue
    b = ctx.positive(f"b{i}")
    ctx.assume(b >= 2 * DELTA)
    t[i, i + 1] = b + 0 * t[i, i + 1]
    t[i + 1, i] = b + 0 * t[i + 1, i]
  z = ctx.positive("z")
  v = q[:, 0] * z
  if cplx:
    v = v * phase(ctx, "zp")
  elif ctx.choice("signz", [1, -1]) < 0:
    v = -v
  return q, t, v


def frame_id(ctx, n):
  q = zeros(ctx, (n, n), False)
  for i in range(n):
    q[i, i] = q[i, i] + 1
  return q


def dag(q):
  return np.conj(q).T


def matvec(x, q, t):
  """an operator that leaves everything it is given alone"""
  return np.dot(q, np.dot(t, np.dot(dag(q), x.reshape(-1)))).reshape(x.shape)


def unit(ctx):
  if ctx.symbolic:
    ctx.eng.unit_norms = [S.const(1)]


def pairs(ctx, vals, vecs, apply, n_expected, complete_vals=None):
  ctx.check(len(vals) == n_expected and len(vecs) == n_expected, "number of eigenpairs")
  for i, v in enumerate(vecs):
    ctx.eq(apply(v), v * vals[i], "A v = lambda v")
    ctx.eq(np.sum(v * np.conj(v)), one(ctx), "eigenvectors are normalised")
  for i in range(len(vals) - 1):
    ctx.check(real(vals[i]) <= real(vals[i + 1]) + (0 if ctx.symbolic else 1e-9), "lowest first")
  if complete_vals is not None:
    for i in range(len(vals)):
      ctx.eq(vals[i], complete_vals[i], "the lowest eigenvalues of the operator")


def one(ctx):
  return S.const(1) if ctx.symbolic else 1.0


def real(x):
  return x.real


def tri_vals(ctx, t, steps):
  """eigenvalues of the operator on the Krylov space, ascending"""
  return np.linalg.eigh(t[:steps, :steps])[0]


def dense(ctx, n, steps, cplx, numeig, reorth, ndiag, extra, api, generic=True, shape=None):
  unit(ctx)
  q, t, v = problem(ctx, n, steps, cplx, generic)
  shape = shape or (n,)
  v = v.reshape(shape)
  v0, q0, t0 = ctx.contents(v.copy()), q.copy(), t.copy()
  kw = dict(num_krylov_vecs=max(n if steps == n else steps, numeig) + (extra if steps < n else 0), numeig=numeig,
            reorthogonalize=reorth, ndiag=ndiag, tol=0, delta=DELTA)
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    if api == "backend":
      vals, vecs = NB.eigsh_lanczos(matvec, [q, t], v, **kw)
    elif api == "keep":
      def lazy(x, q, t):
        r = matvec(x, q, t)
        kept.append((r, r.copy()))
        return r
      kept = []
      vals, vecs = NB.eigsh_lanczos(lazy, [q, t], v, **kw)
      for r, c in kept:
        ctx.eq(r, c, "arrays the operator returned and still owns are not modified")
    else:
      def op(x, q, t):
        return tn.Tensor(matvec(x.array, q.array, t.array), backend="numpy")
      vals, ts = krylov.eigsh_lanczos(op, backend=None, args=[tn.Tensor(q, backend="numpy"), tn.Tensor(t, backend="numpy")],
                                      x0=tn.Tensor(v, backend="numpy"), **kw)
      for x in ts:
        ctx.check(isinstance(x, tn.Tensor) and x.backend.name == "numpy", "tensors")
      vecs = [x.array for x in ts]
  ctx.eq(v, v0, "the initial state is not modified")
  ctx.eq(q, q0, "arguments unchanged")
  ctx.eq(t, t0, "arguments unchanged")
  for x in vecs:
    ctx.check(np.shape(x) == shape, "shape of the eigenvectors")
  pairs(ctx, vals, vecs, lambda x: matvec(x, q, t), min(numeig, steps), tri_vals(ctx, t, steps))


def identity(ctx, n, what):
  """operators that return what they were given"""
  unit(ctx)
  z = ctx.positive("z")
  v = zeros(ctx, (n,), False)
  k = ctx.pick("unit vector", 0, n - 1)
  v[k] = v[k] + z
  v0 = v.copy()
  if what == "identity":
    vals, vecs = NB.eigsh_lanczos(lambda x: x, [], v, num_krylov_vecs=n)
  else:
    p = zeros(ctx, (n,), False)
    p[0] = p[0] + 1
    p0 = p.copy()
    # projector on the first unit vector that hands out its own array when it can
    vals, vecs = NB.eigsh_lanczos(lambda x, p: p if bool(x[0] == 1) else p * x[0], [p], v, num_krylov_vecs=n)
    ctx.eq(p, p0, "arguments unchanged")
  ctx.eq(v, v0, "the initial state is not modified")
  lam = 1.0 if what == "identity" or k == 0 else 0.0
  ref = zeros(ctx, (1, 1), False)
  ref[0, 0] = ref[0, 0] + lam
  ctx.eq(vals[0], np.linalg.eigh(ref)[0][0], "eigenvalue")
  w = vecs[0]
  ctx.eq(np.outer(w, v0), np.outer(v0, w), "eigenvector of an operator that returns its input or an array it owns")


def history(ctx, n):
  """the second call does not see the first"""
  unit(ctx)
  q, t, v = problem(ctx, n, n)
  w = ctx.real("w")
  a = np.dot(q, np.dot(t, dag(q)))

  def op(x, m):
    return tn.Tensor(np.dot(m.array, x.array), backend="numpy")
  x0 = tn.Tensor(v, backend="numpy")
  v0 = v.copy()
  kw = dict(num_krylov_vecs=n, delta=DELTA)
  e1, u1 = krylov.eigsh_lanczos(op, args=[tn.Tensor(a, backend="numpy")], x0=x0, **kw)
  shifted = a.copy()
  for i in range(n):
    shifted[i, i] = shifted[i, i] + w
  tb = t.copy()
  for i in range(n):
    tb[i, i] = tb[i, i] + w
  first = [u.array.copy() for u in u1]
  e2, u2 = krylov.eigsh_lanczos(op, args=[tn.Tensor(shifted, backend="numpy")], x0=x0, **kw)
  ctx.eq(x0.array, v0, "the initial state is not modified")
  ctx.eq(u1[0].array, first[0], "earlier results keep their value")
  pairs(ctx, e1, [u.array for u in u1], lambda x: matvec(x, q, t), 1, tri_vals(ctx, t, n))
  pairs(ctx, e2, [u.array for u in u2], lambda x: matvec(x, q, tb), 1, tri_vals(ctx, tb, n))


def rejected(ctx):
  v = ctx.tensor("v", (3,))
  v0 = v.copy()
  w = bslib.World(ctx, "U1")
  d = ctx.tensor("d", (3,))
  x = BlockSparseTensor(d, [w.charge("0,0,0")], [False])
  for be, s, what in ((NB, v, "numpy"), (SB, x, "symmetric")):
    op = lambda y: y
    ctx.raises(ValueError, lambda: be.eigsh_lanczos(op, [], s, num_krylov_vecs=1, numeig=2, reorthogonalize=True), what + ": too few vectors")
    ctx.raises(ValueError, lambda: be.eigsh_lanczos(op, [], s, num_krylov_vecs=3, numeig=2, reorthogonalize=False), what + ": not orthogonal")
    ctx.raises(ValueError, lambda: be.eigsh_lanczos(op, []), what + ": no initial state")
    ctx.raises(ValueError, lambda: be.eigs(op, []), what + ": no initial state")
    ctx.raises(ValueError, lambda: be.eigs(op, [], s, num_krylov_vecs=3, numeig=2), what + ": too few vectors")
    ctx.raises(ValueError, lambda: be.eigs(op, [], s, which="LI"), what + ": which")
    ctx.raises(ValueError, lambda: be.gmres(op, s, tol=-1.0, num_krylov_vectors=1), what + ": tolerance")
    ctx.raises(ValueError, lambda: be.gmres(op, s, atol=-1.0, num_krylov_vectors=1), what + ": tolerance")
    ctx.raises(ValueError, lambda: be.gmres(op, s, num_krylov_vectors=0), what + ": no vectors")
    ctx.raises(TypeError, lambda: be.eigsh_lanczos(op, [], [1.0]), what + ": type")
  ctx.eq(v, v0, "refused calls change nothing")
  ctx.raises(ValueError, lambda: NB.gmres(lambda y: y, v, x0=v[:2]), "shape of the guess")
  T = tn.Tensor(v, backend="numpy")
  ctx.raises(ValueError, lambda: krylov.eigsh_lanczos(lambda y: y), "neither backend nor state")
  ctx.raises(TypeError, lambda: krylov.eigsh_lanczos(lambda y: y, backend="numpy", x0=v), "plain array")
  ctx.raises(ValueError, lambda: krylov.eigsh_lanczos(lambda y: y, backend="symmetric", x0=T), "other backend")
  ctx.raises(TypeError, lambda: krylov.eigsh_lanczos(lambda y, a: y, x0=T, args=[v]), "plain argument")
  ctx.raises(TypeError, lambda: krylov.gmres(lambda y: y, v), "plain b")


# -- block sparse ------------------------------------------------------------------------------------------------------
def sdense(ctx, t):
  return bslib.dense(ctx, t)


def symm(ctx, kind, steps, numeig, reorth, api):
  unit(ctx)
  w = bslib.World(ctx, "U1") if kind != "z2" else bslib.World(ctx, "Z2")
  n = 2
  q, t, v = problem(ctx, n, steps)
  mat = np.dot(q, np.dot(t, dag(q)))
  kw = dict(num_krylov_vecs=n if steps == n else max(steps, numeig) + 1, numeig=numeig, reorthogonalize=reorth, delta=DELTA, tol=0)
  extra = ctx.real("other block")
  if kind in ("vector", "z2"):
    i = w.charge("0,1,0")
    W = BlockSparseTensor(block(ctx, mat, extra), [i, i], [False, True])
    x = BlockSparseTensor(v, [i], [False])

    def op(y, W):
      return SB.tensordot(W, y, ([1], [0]))
  else:
    # a matrix with one element in each of two sectors, stored with its legs transposed
    i = w.charge("0,1")
    j = w.charge("1,0")
    x = BlockSparseTensor(v, [i, j], [False, True]).transpose([1, 0])
    ref = x.copy()
    W = BlockSparseTensor(zeros(ctx, (1,), False) + 1, [w.charge("0"), w.charge("0")], [False, True])

    def op(y, W):
      z = y.transpose([1, 0]).contiguous()
      return BlockSparseTensor(np.dot(mat, z.data), z._charges, z._flows, check_consistency=False).transpose([1, 0])
  before, wb = sdense(ctx, x), W.data.copy()
  status = caching.get_caching_status()
  if api == "backend":
    vals, vecs = SB.eigsh_lanczos(op, [W], x, **kw)
  else:
    def wrapped(a, b):
      return tn.Tensor(op(a.array, b.array), backend="symmetric")
    vals, ts = krylov.eigsh_lanczos(wrapped, args=[tn.Tensor(W, backend="symmetric")], x0=tn.Tensor(x, backend="symmetric"), **kw)
    vecs = [a.array for a in ts]
  ctx.check(caching.get_caching_status() == status, "caching status restored")
  ctx.eq(sdense(ctx, x), before, "the initial state is not modified")
  ctx.eq(W.data, wb, "arguments unchanged")
  ctx.check(len(vals) == len(vecs) == min(numeig, steps), "number of eigenpairs")
  ref = tri_vals(ctx, t, steps)
  for k, u in enumerate(vecs):
    du, au = sdense(ctx, u), sdense(ctx, op(u, W))
    ctx.check(du.shape == before.shape, "shape of the eigenvectors")
    ctx.eq(au, du * vals[k], "A v = lambda v")
    ctx.eq(np.sum(du * np.conj(du)), one(ctx), "eigenvectors are normalised")
    ctx.eq(vals[k], ref[k], "the lowest eigenvalues of the operator")


def block(ctx, mat, extra):
  """stored entries of a matrix with charges 0,1,0 on both legs: row by row"""
  d = zeros(ctx, (5,), False)
  d[0], d[1], d[2], d[3], d[4] = mat[0, 0], mat[0, 1], extra, mat[1, 0], mat[1, 1]
  return d


def symm_raises(ctx):
  """an operator that fails leaves the caching status and the initial state as they were"""
  w = bslib.World(ctx, "U1")
  i = w.charge("0,1,0,0,0")
  v = ctx.tensor("v", (4,))
  x = BlockSparseTensor(v, [i], [False])
  before = v.copy()
  state = ctx.choice("caching", [True, False])
  old = caching.get_caching_status()
  caching.set_caching_status(state)
  try:
    def bad(y):
      raise RuntimeError("operator")
    which = ctx.choice("solver", ["lanczos", "eigs", "gmres"])
    if which == "lanczos":
      nz(ctx, v)
      ctx.raises(RuntimeError, lambda: SB.eigsh_lanczos(bad, [], x, num_krylov_vecs=2), "operator that raises")
    elif which == "eigs":
      with scipy_stub(ctx):
        ctx.raises(RuntimeError, lambda: SB.eigs(bad, [], x, num_krylov_vecs=4, numeig=1), "operator that raises")
    else:
      with scipy_stub(ctx):
        ctx.raises(RuntimeError, lambda: SB.gmres(bad, x, num_krylov_vectors=2), "operator that raises")
    ctx.check(caching.get_caching_status() == state, "caching status restored")
    ctx.eq(x.data, before, "the initial state is not modified")
  finally:
    caching.set_caching_status(old)


def nz(ctx, v):
  if ctx.symbolic:
    ctx.assume(v[0] >= 1)


# -- scipy ---------------------------------------------------------------------------------------------------------------
class scipy_stub:
  """eigs and gmres of scipy as their documented contracts over the operator they are given"""

  def __init__(self, ctx):
    self.ctx = ctx
    self.calls = []

  def __enter__(self):
    self.old = spl.eigs, spl.gmres
    if self.ctx.symbolic:
      spl.eigs, spl.gmres = self.eigs, self.gmres
      self.ctx.eng.stubbed = True
      self.ctx.eng.stats.stubs.add("scipy.sparse.linalg.eigs: A U = U eta for the LinearOperator A")
      self.ctx.eng.stats.stubs.add("scipy.sparse.linalg.gmres: A x = b when info is 0")
    else:
      spl.eigs, spl.gmres = self.rec_eigs, self.rec_gmres
    return self

  def __exit__(self, *a):
    spl.eigs, spl.gmres = self.old

  def rec_eigs(self, A, k=6, **kw):
    self.calls.append(dict(kw, k=k))
    return self.old[0](A, k=k, **kw)

  def rec_gmres(self, A, b, x0=None, **kw):
    self.calls.append(dict(kw))
    return self.old[1](A, b, x0, **kw)

  def eigs(self, A, k=6, M=None, sigma=None, which="LM", v0=None, ncv=None, maxiter=None, tol=0, **kw):
    self.calls.append(dict(k=k, which=which, ncv=ncv, maxiter=maxiter, tol=tol))
    eng = self.ctx.eng
    n = A.shape[0]
    if v0 is not None and np.size(v0) != n:
      raise ValueError("v0")
    eta = np.empty(k, dtype=object)
    u = np.empty((n, k), dtype=object)
    for j in range(k):
      eta[j] = S.var(eng.newvar(f"eta{j}", True))
      for i in range(n):
        u[i, j] = S.var(eng.newvar(f"U{i}{j}", True))
      au = A.matvec(u[:, j].copy())
      for i in range(n):
        p = sym.arr(au)[i] - eta[j] * u[i, j]
        lead = next(iter((eta[j] * u[i, j]).t))
        eng.hyp(p, lead, "A U = U eta")
    return eta, u

  def gmres(self, A, b, x0=None, tol=1e-5, rtol=None, restart=None, maxiter=None, M=None, atol=None, **kw):
    self.calls.append(dict(tol=tol if rtol is None else rtol, restart=restart, maxiter=maxiter, atol=atol))
    eng = self.ctx.eng
    n = A.shape[0]
    if np.shape(b) not in ((n,), (n, 1)) or (x0 is not None and np.size(x0) != n):
      raise ValueError("shapes")
    x = np.empty(n, dtype=object)
    cplx = any(not y.is_real() for y in sym.arr(b))
    for i in range(n):
      x[i] = S.var(eng.newvar(f"x{i}", cplx))
    self.info = self.ctx.choice("info", [0, 3])
    ax = sym.arr(A.matvec(x.copy()))
    if self.info == 0:
      for i in range(n):
        p = ax[i] - b[i]
        lead = max(ax[i].t, key=lambda m: (len(m), m)) if ax[i].t else ()
        eng.hyp(p, lead, "A x = b")
    self.x = x
    return x.copy(), self.info


def eigs(ctx, backend, api, k, cplx):
  a = ctx.tensor("A", (4, 4), cplx)
  which = ctx.choice("which", ["LM", "LR", "SR", "SM"])
  with scipy_stub(ctx) as sp:
    if backend == "numpy":
      v = ctx.tensor("v", (2, 2), cplx)
      v0, a0 = v.copy(), a.copy()

      def op(x, m):
        return np.tensordot(m.reshape(2, 2, 2, 2), x, ([2, 3], [0, 1]))
      if api == "backend":
        eta, us = NB.eigs(op, [a], v, num_krylov_vecs=4, numeig=k, which=which)
      else:
        eta, ts = krylov.eigs(lambda x, m: tn.Tensor(op(x.array, m.array), backend="numpy"), args=[tn.Tensor(a, backend="numpy")],
                              x0=tn.Tensor(v, backend="numpy"), num_krylov_vecs=4, numeig=k, which=which)
        us = [t.array for t in ts]
      ctx.eq(v, v0, "the initial state is not modified")
      ctx.eq(a, a0, "arguments unchanged")
      ctx.check(len(us) == k and len(eta) == k, "number of eigenpairs")
      for e, u in zip(eta, us):
        ctx.check(np.shape(u) == (2, 2), "shape of the eigenvectors")
        ctx.eq(op(u, a), u * e, "A v = lambda v")
    else:
      w = bslib.World(ctx, "U1")
      i, j = w.charge("0,1"), w.charge("1,0,0")
      # charges (0,1) x (1,0,0): entries (0,1),(0,2),(1,0); legs handed over transposed
      m3 = np.concatenate([a[:3, :3], a[:3, 3:] * 0], axis=1)[:, :3] if backend == "sym3" else a
      j = w.charge("1,0,0") if backend == "sym3" else w.charge("1,0,0,1")
      n = m3.shape[0]
      v = ctx.tensor("v", (n,), cplx)
      x = BlockSparseTensor(v, [i, j], [False, True])
      if ctx.choice("legs", ["stored", "transposed"]) == "transposed":
        x = x.transpose([1, 0])
        perm = [1, 0]
      else:
        perm = [0, 1]
      before = sdense(ctx, x)

      def op(y):
        z = y.transpose(perm).contiguous()
        return BlockSparseTensor(np.dot(m3, z.data), z._charges, z._flows, check_consistency=False).transpose(perm)
      status = caching.get_caching_status()
      eta, us = SB.eigs(op, [], x, num_krylov_vecs=n, numeig=k, which=which)
      ctx.check(caching.get_caching_status() == status, "caching status restored")
      ctx.eq(sdense(ctx, x), before, "the initial state is not modified")
      ctx.check(len(us) == k and len(eta) == k, "number of eigenpairs")
      for e, u in zip(eta, us):
        du = sdense(ctx, u)
        ctx.check(du.shape == before.shape, "shape of the eigenvectors")
        ctx.eq(sdense(ctx, op(u)), du * e, "A v = lambda v")
    for c in sp.calls:
      ctx.check(c.get("which") == which and c.get("k") == k, "the requested eigenvalues")


def gmres(ctx, backend, api, cplx, guess):
  n = 4
  a = ctx.tensor("A", (n, n), cplx)
  for i in range(n):
    a[i, i] = a[i, i] + 8
  with scipy_stub(ctx) as sp:
    kw = dict(tol=1e-11, atol=1e-12, num_krylov_vectors=4, maxiter=50)
    if backend == "numpy":
      b = ctx.tensor("b", (2, 2), cplx)
      x0 = ctx.tensor("g", (2, 2), cplx) if guess else None
      b0, g0, a0 = b.copy(), x0.copy() if guess else None, a.copy()

      def op(x, m):
        return np.tensordot(m.reshape(2, 2, 2, 2), x, ([2, 3], [0, 1]))
      if api == "backend":
        x, info = NB.gmres(op, b, [a], x0=x0, **kw)
      else:
        x, info = krylov.gmres(lambda x, m: tn.Tensor(op(x.array, m.array), backend="numpy"), tn.Tensor(b, backend="numpy"),
                               A_args=[tn.Tensor(a, backend="numpy")], x0=None if x0 is None else tn.Tensor(x0, backend="numpy"), **kw)
        x = x.array
      ctx.eq(b, b0, "b unchanged")
      ctx.eq(a, a0, "arguments unchanged")
      if guess:
        ctx.eq(x0, g0, "the initial guess is not modified")
      ctx.check(np.shape(x) == (2, 2), "shape of the solution")
      if info == 0:
        ctx.eq(op(x, a), b, "A x = b")
    else:
      w = bslib.World(ctx, "U1")
      i, j = w.charge("0,1"), w.charge("1,0,0,1")
      bt = BlockSparseTensor(ctx.tensor("b", (n,), cplx), [i, j], [False, True])
      gt = BlockSparseTensor(ctx.tensor("g", (n,), cplx), [i, j], [False, True])
      perm = [0, 1]
      how = ctx.choice("legs", ["stored", "transposed", "guess stored differently"])
      if how == "transposed":
        bt, gt, perm = bt.transpose([1, 0]), gt.transpose([1, 0]), [1, 0]
      elif how != "stored":
        bt, gt, perm = bt.transpose([1, 0]).contiguous(), gt.transpose([1, 0]), [1, 0]
      b0, g0 = sdense(ctx, bt), sdense(ctx, gt)

      def op(y):
        z = y.transpose(perm).contiguous()
        return BlockSparseTensor(np.dot(a, z.data), z._charges, z._flows, check_consistency=False).transpose(perm)
      with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x, info = SB.gmres(op, bt, x0=gt, **kw)
      ctx.eq(sdense(ctx, bt), b0, "b unchanged")
      ctx.eq(sdense(ctx, gt), g0, "the initial guess is not modified")
      dx = sdense(ctx, x)
      ctx.check(dx.shape == b0.shape, "shape of the solution")
      if info == 0:
        ctx.eq(sdense(ctx, op(x)), b0, "A x = b")
    if ctx.symbolic:
      ctx.check(info == sp.info, "convergence is reported")
    for c in sp.calls:
      ctx.check(c.get("tol", c.get("rtol")) <= kw["tol"] and c.get("atol") <= kw["atol"], "the requested tolerance")


def transfer(ctx, sites, D, guess, cplx):
  d = 2
  ts = [ctx.tensor(f"A{i}", (D, d, D), cplx) for i in range(sites)]
  direction = ctx.choice("direction", ["left", "right", 1, -1])
  orig = [t.copy() for t in ts]
  m = tn.InfiniteMPS(ts, backend="numpy")
  x0 = None
  if guess:
    x0 = ctx.tensor("g", (D, D), cplx)
    x0f = x0.copy()
    if D == 1 and ctx.symbolic:
      ctx.assume(x0[0, 0] >= 1)
  if D == 1 and ctx.symbolic:
    eta = S.const(1)
    for t in ts:
      eta = eta * np.sum(t * np.conj(t))
    ctx.eng.unit_norms = [S.const(1), eta]
  if not guess and ctx.symbolic:
    old = NB.__class__.randn
    NB.__class__.randn = lambda self, shape, dtype=None, seed=None: ctx.tensor("random", shape, cplx) + 0
  try:
    with scipy_stub(ctx):
      eta, dens = m.transfer_matrix_eigs(direction, initial_state=x0)
  finally:
    if not guess and ctx.symbolic:
      NB.__class__.randn = old
  if guess:
    ctx.eq(x0, x0f, "the initial state is not modified")
  for t, o in zip(m.tensors, orig):
    ctx.eq(t, o, "tensors unchanged")
  ctx.check(np.shape(dens) == (D, D), "shape of the eigenvector")
  out = dens
  for t in (orig if direction in ("left", 1) else orig[::-1]):
    if direction in ("left", 1):
      out = np.einsum("ab,asc,bsd->cd", out, t, np.conj(t))
    else:
      out = np.einsum("cd,asc,bsd->ab", out, t, np.conj(t))
  ctx.eq(out, dens * eta, "eigenvector of the transfer operator")


def scenarios(tier):
  out = []

  def add(name, fn, *a, **k):
    out.append(Scenario(name, fn, *a, **k))
  for n in (1, 2, 3):
    for steps in range(1, n + 1):
      for numeig, reorth in ((1, False), (1, True), (2, True), (3, True)):
        if numeig > n:
          continue
        for ndiag in (1, 20):
          if ndiag == 1 and (steps < 2 or n == 3 and numeig == 1 and reorth):
            continue
          add(f"lanczos n={n} steps={steps} numeig={numeig} reorth={reorth} ndiag={ndiag}", dense, n, steps, False, numeig, reorth, ndiag, 1,
              "backend")
  for steps in (1, 2):
    for numeig, reorth in ((1, False), (2, True)):
      add(f"lanczos complex steps={steps} numeig={numeig} reorth={reorth}", dense, 2, steps, True, numeig, reorth, 20, 1, "backend")
  for steps in (2, 3, 4):
    add(f"lanczos n=4 standard frame steps={steps}", dense, 4, steps, False, 2, True, 20, 1, "backend", False, (2, 2))
  for api in ("linalg", "keep"):
    for steps in (1, 2):
      add(f"lanczos {api} steps={steps}", dense, 2, steps, False, 1, False, 20, 1, api, True, (2, 1))
  add("lanczos identity", identity, 3, "identity")
  add("lanczos projector", identity, 3, "projector")
  add("lanczos twice", history, 2)
  for kind in ("vector", "matrix", "z2"):
    for steps in (1, 2):
      for numeig, reorth in ((1, False), (2, True)):
        add(f"symmetric lanczos {kind} steps={steps} numeig={numeig}", symm, kind, steps, numeig, reorth, "backend")
  add("symmetric lanczos linalg", symm, "vector", 2, 1, False, "linalg")
  add("rejected", rejected)
  for steps in (3, 4, 5):
    for numeig in (1, 3):
      add(f"lanczos n=5 standard frame steps={steps} numeig={numeig}", dense, 5, steps, False, numeig, True, 1, 1, "backend", False)
  add("symmetric solvers, operator raises", symm_raises)
  for k in (1, 2):
    for cplx in (False, True):
      add(f"eigs numpy k={k} cplx={cplx}", eigs, "numpy", "backend", k, cplx)
  add("eigs linalg", eigs, "numpy", "linalg", 1, False)
  for k in (1, 2):
    add(f"eigs symmetric k={k}", eigs, "sym4", "backend", k, False)
  for cplx in (False, True):
    for guess in (False, True):
      add(f"gmres numpy cplx={cplx} guess={guess}", gmres, "numpy", "backend", cplx, guess)
  add("gmres linalg", gmres, "numpy", "linalg", False, True)
  for cplx in (False, True):
    add(f"gmres symmetric cplx={cplx}", gmres, "sym", "backend", cplx, True)
  for sites in (1, 2):
    for D in (1, 2):
      for guess in (False, True):
        add(f"transfer matrix sites={sites} D={D} guess={guess}", transfer, sites, D, guess, False)
  add("transfer matrix complex", transfer, 1, 2, True, True)
  return out
