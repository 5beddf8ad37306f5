"""C30: InfiniteMPS in Schmidt canonical form."""
import warnings
import numpy as np
import scipy.sparse.linalg as spl
import tensornetwork as tn
from tensornetwork.backends.numpy.numpy_backend import NumPyBackend
import sym
import stubs
import z3
from sym import S, Unsupported
from runner import Scenario

BOUNDS = ("InfiniteMPS with unit cells of 1 to 3 sites and bond dimension 1, and of 1 and 2 sites with bond and physical dimension 2: every state "
          "of the family A^0 = diag(a, b), A^1 = antidiag(c, d) (all Schmidt values, all phases) in the gauges diag * unitary at the boundary of "
          "the cell and diag inside it, every scale, real and complex, with and without a connector matrix from an earlier canonicalisation (so "
          "repeated canonicalisation is covered), every position of the centre (unitary 1 when it is not at the first site), D = 1, 2 or unlimited, truncation "
          "thresholds 1e-12 and 0.5, cutoffs, initial guesses; LAPACK's eigenvectors and singular vectors up to arbitrary phases; NumPy backend")
OUTSIDE = ("rounding; bond dimension above 2; singular fixed points (pseudo inverse of zero eigenvalues); degenerate leading eigenvalues; convergence of ARPACK; "
           "the JAX and TensorFlow backends, which have no usable eigs")
ASSUMPTIONS = ["LAPACK's eigh, svd and qr satisfy their contracts", "ARPACK returns the eigenvector of the transfer operator that belongs to the positive fixed point"]
NB = NumPyBackend
D = 2


def num(ctx, x):
  return S.const(x) if ctx.symbolic else x


def bounded(ctx, name, lo=0.2, hi=2.0):
  x = ctx.positive(name)
  if ctx.symbolic:
    ctx.assume(x >= lo)
    ctx.assume(x <= hi)
    return x
  return x if lo <= x <= hi else lo + (hi - lo) * (x % 1)


def zeros(ctx, *shape):
  a = np.empty(shape, dtype=object)
  for i in np.ndindex(*shape):
    a[i] = S.const(0)
  return a if ctx.symbolic else np.zeros(shape, dtype=complex)


def diag(ctx, xs):
  a = zeros(ctx, len(xs), len(xs))
  for i, x in enumerate(xs):
    a[i, i] = a[i, i] + x
  return a


def dag(a):
  return np.conj(np.transpose(a))


def unit4(ctx, name, n=2):
  """positive numbers x_i with sum x_i^4 = 1, the first one at least as large as the second or the other way round"""
  x = bounded(ctx, name, 0.2, 0.97)
  if not ctx.symbolic:
    return [x, (1 - x**4)**0.25]
  e = ctx.eng
  v = e.newvar(name + "'", nonneg=True)
  y = S.var(v)
  z = e.z3var(v)[0]
  e.assume(z >= 0.2)   # the relation between the two is a hypothesis for the proofs only: more paths than exist are explored
  e.assume(z <= 1)
  e.hyp(y * y * y * y + x * x * x * x - 1, (v,) * 4, "eigenvalues of norm 1")
  return [x, y]


def phase(ctx, name, cplx):
  """a number of absolute value 1"""
  if not cplx:
    return num(ctx, ctx.choice("sign of " + name, [1, -1]))
  if not ctx.symbolic:
    z = ctx.complex(name)
    return z / abs(z)
  e = ctx.eng
  v = e.newvar(name, True, base=True)
  c = e.T.conj[v]
  e.T.inv[v] = c
  e.T.inv[c] = v
  re, im = e.z3var(v)
  e.lazy[str(re)] = e.lazy[str(im)] = re * re + im * im == 1
  return S.var(v)


def rotation(ctx, cplx, name="w"):
  """every unitary 2 x 2 matrix up to phases of its columns"""
  c = ctx.real(name)
  if ctx.symbolic:
    ctx.assume(c <= 1)
    ctx.assume(c >= -1)
    s = (1 - c * c).sqrt()
  else:
    c = 1 / c if abs(c) > 1 else c
    s = np.sqrt(1 - c * c)
  f = phase(ctx, name + "p", cplx) if cplx else num(ctx, 1)
  w = zeros(ctx, 2, 2)
  w[0, 0], w[0, 1] = c, -s * np.conj(f)
  w[1, 0], w[1, 1] = s * f, c
  return w


def canonical(ctx, lam, cplx, k):
  """left canonical site tensor (a, s, b) whose right fixed point is diag(lam^2)"""
  kap = bounded(ctx, f"k{k}", 0.3, 0.9)
  c, d = kap * lam[0], kap * lam[1]
  root = (lambda x: x.sqrt()) if ctx.symbolic else np.sqrt
  a, b = root(1 - d * d), root(1 - c * c)
  t = zeros(ctx, 2, 2, 2)
  t[0, 0, 0] = a * (phase(ctx, f"pa{k}", cplx) if k == 0 else num(ctx, 1))
  t[1, 0, 1] = b + t[1, 0, 1]
  t[0, 1, 1] = c * (phase(ctx, f"pc{k}", cplx) if cplx else num(ctx, -1))
  t[1, 1, 0] = d + t[1, 1, 0]
  return t


class lapack:
  """scipy's eigs and LAPACK's eigh and svd replaced by decompositions that the solver verifies to satisfy the contracts"""

  def __init__(self, ctx, fixed=(), bases=(), cplx=False, scale=None, simple=False):
    self.scale = scale
    self.ctx, self.fixed, self.bases, self.cplx = ctx, fixed, bases, cplx
    self.norms = []
    if simple:
      self.ph = [num(ctx, x) for x in (1, -1, -1)]
    elif cplx:
      self.ph = [phase(ctx, f"column{i}", cplx) for i in range(3)]
    else:
      self.ph = [num(ctx, x) for x in ctx.choice("signs of the columns", [(1, -1, -1), (-1, 1, 1), (1, 1, -1)])]

  def __enter__(self):
    self.old = spl.eigs, np.linalg.eigh, np.linalg.svd, NB.randn, NB.eps, np.linalg.norm
    if self.ctx.symbolic:
      e = self.ctx.eng
      spl.eigs, np.linalg.eigh, np.linalg.svd = self.eigs, self.eigh, self.svd
      NB.randn = lambda _, shape, dtype=None, seed=None: self.ctx.tensor("random", shape, self.cplx) + 0
      eps = self.old[4]
      np.linalg.norm = self.norm
      e.gram, e.frobenius = True, {}
      NB.eps = lambda b, dtype: eps(b, np.float64 if dtype == object else dtype)
      e.stubbed = True
      e.stats.stubs.add("scipy.sparse.linalg.eigs: the eigenvector of the LinearOperator with positive fixed point, up to a factor (verified by the solver)")
      e.stats.stubs.add("numpy.linalg.eigh, svd: factors verified by the solver, columns up to phases")
    return self

  def __exit__(self, *a):
    spl.eigs, np.linalg.eigh, np.linalg.svd, NB.randn, NB.eps, np.linalg.norm = self.old

  def norm(self, x, *a, **k):
    r = self.old[5](x, *a, **k)
    if isinstance(r, S):
      self.norms.append(r)
    return r

  def zero(self, xs):
    xs = [S.lift(x) for x in xs]
    xs = [x for x in xs if x.t]
    if not xs:
      return True
    if any(x.is_const() for x in xs):
      return False
    return self.ctx.eng.prove_zero([(x, S({})) for x in xs]) == z3.unsat

  def eigs(self, A, k=6, M=None, sigma=None, which="LM", v0=None, ncv=None, maxiter=None, tol=0, **kw):
    if k != 1:
      raise Unsupported("number of eigenvalues")
    if which not in ("LM", "LR"):
      raise Unsupported("not the dominant eigenvalue")
    e = self.ctx.eng
    etas = [S.const(1), self.scale]
    for x in self.norms:   # norms that were divided out before
      etas.append(etas[-1] * x.reciprocal())
    for eta, x in ((z * z, x) for x in self.fixed for z in reversed(etas)):
      ax = sym.arr(A.matvec(x.reshape(-1).copy()))
      if self.zero(ax - sym.arr(x.reshape(-1) * eta)):
        z = S.var(e.newvar("z", self.cplx))
        e.assume_nonzero(z)
        return sym.arr(np.array([S.lift(eta)], dtype=object)), sym.arr((x * z).reshape(-1, 1))
    raise Unsupported("eigenvector of an operator that is not a transfer matrix of the state")

  def order(self, ws, descending):
    """permutation that sorts positive values"""
    flip = self.lower(ws[1], ws[0]) if not descending else self.lower(ws[0], ws[1])
    return [1, 0] if flip else [0, 1]

  def lower(self, a, b):
    """a < b; positive factors that both share are dropped"""
    if not self.ctx.symbolic:
      return a < b
    a, b = S.lift(a), S.lift(b)
    ms = [list(m) for x in (a, b) for m in x.t]
    e = self.ctx.eng
    for v in set(ms[0]) if ms else ():
      while v in e.nonneg and all(v in m for m in ms):
        for m in ms:
          m.remove(v)
    out = []
    i = 0
    for x in (a, b):
      t = S({})
      for _, c in x.t.items():
        t = t + S({tuple(ms[i]): c})
        i += 1
      out.append(t)
    for r in (2, 4):   # equal powers of positive values
      if all(len(x.t) == 1 and list(x.t.values()) == [1] and all(len(m) == r and len(set(m)) == 1 and m[0] in e.nonneg for m in x.t) for x in out):
        out = [S.var(next(iter(x.t))[0]) for x in out]
        break
    return bool(out[0] < out[1])

  def phases(self):
    """arbitrary phases of the columns"""
    return [num(self.ctx, 1), self.ph.pop()]

  def eigh(self, a, UPLO="L"):
    if not stubs._obj(a):
      return self.old[1](a, UPLO)
    a = sym.arr(a)
    if a.shape == (1, 1):
      return sym.arr(np.array([a[0, 0].real], dtype=object)), sym.arr(np.array([[self.ph.pop()]], dtype=object))
    for v in self.bases:
      x = np.dot(dag(v), np.dot(a, v))
      if self.zero([x[0, 1], x[1, 0]]) and self.zero([x[0, 0] - x[0, 0].conjugate(), x[1, 1] - x[1, 1].conjugate()]):
        w = [x[0, 0].real, x[1, 1].real]
        p = self.order(w, False)
        ph = self.phases()
        return (sym.arr(np.array([w[i] for i in p], dtype=object)),
                sym.arr(np.stack([v[:, i] * f for i, f in zip(p, ph)], axis=1)))
    raise Unsupported("eigh of a matrix that is not a fixed point")

  def svd(self, a, full_matrices=True, compute_uv=True, hermitian=False):
    if not stubs._obj(a):
      return self.old[2](a, full_matrices=full_matrices)
    a = sym.arr(a)
    if a.shape == (1, 1):
      s, f = abs(a[0, 0]), self.ph.pop()
      return (sym.arr(np.array([[a[0, 0] * s.reciprocal() * f]], dtype=object)), sym.arr(np.array([s], dtype=object)),
              sym.arr(np.array([[f.conjugate()]], dtype=object)))
    if a.shape != (2, 2):
      raise Unsupported("svd")
    for perm in ((0, 1), (1, 0)):
      if not self.zero([a[i, 1 - perm[i]] for i in range(2)]):
        continue
      es = [a[i, perm[i]] for i in range(2)]
      es = [self.simple(x) for x in es]
      s = [abs(x) for x in es]
      p = self.order(s, True)
      ph = self.phases()
      u, v = zeros(self.ctx, 2, 2), zeros(self.ctx, 2, 2)
      for j, i in enumerate(p):
        f = es[i] * s[i].reciprocal()
        u[i, j] = f * ph[j]
        v[j, perm[i]] = ph[j].conjugate()
      return u, sym.arr(np.array([s[i] for i in p], dtype=object)), v
    raise Unsupported("svd of a matrix that is not a product of the fixed points")

  def simple(self, x):
    return x


def transfer(t, m, left):
  if left:
    return np.einsum("ab,asc,bsd->cd", m, t, np.conj(t))
  return np.einsum("cd,asc,bsd->ab", m, t, np.conj(t))


def family(ctx, n, cplx, simple=False):
  """(tensors of the unit cell, state in canonical form, left and right fixed point, their basis, eigenvalue, lam)"""
  u, v = unit4(ctx, "u"), unit4(ctx, "v")
  lam = [u[i] * v[i] for i in range(2)]
  can = [canonical(ctx, lam, cplx, k) for k in range(n)]
  w = diag(ctx, [num(ctx, 1)] * 2) if simple else rotation(ctx, cplx)
  inv = lambda x: inverse(ctx, x)
  ts = [c for c in can]
  left = np.dot(w, diag(ctx, [inv(x) for x in u]))
  right = np.dot(diag(ctx, u), dag(w))
  ts[0] = np.tensordot(left, ts[0], 1)
  ts[-1] = np.tensordot(ts[-1], right, 1)
  for k in range(n - 1):
    m = [bounded(ctx, f"m{k}{i}") for i in range(2)]
    ts[k] = np.tensordot(ts[k], diag(ctx, m), 1)
    ts[k + 1] = np.tensordot(diag(ctx, [inv(x) for x in m]), ts[k + 1], 1)
  l = np.dot(w, np.dot(diag(ctx, [a * a for a in u]), dag(w)))
  r = np.dot(w, np.dot(diag(ctx, [a * a for a in v]), dag(w)))
  if not cplx and not ctx.symbolic:
    ts, l, r = [np.real(t) for t in ts], np.real(l), np.real(r)
  return ts, can, (l, r, np.conj(l), np.conj(r)), (w, np.conj(w)), lam, (u, v)


def cell(ts):
  x = ts[0]
  for t in ts[1:]:
    x = np.tensordot(x, t, 1)
  return x.reshape(x.shape[0], -1, x.shape[-1])


def words(c, n):
  """traces of the products of up to n matrices: invariant under gauge transformations"""
  ms = [c[:, s, :] for s in range(c.shape[1])]
  out, cur = [], [None]
  for _ in range(n):
    cur = [m if p is None else np.dot(p, m) for p in cur for m in ms]
    out.append([np.trace(p) for p in cur])
  return out


def prepared(ctx, n, cplx, connector, center):
  simple = center not in (0, None)
  ts, can, fixed, bases, lam, ends = family(ctx, n, cplx, simple)
  given = [t.copy() for t in ts]
  con = None
  if connector:
    m = [bounded(ctx, f"con{i}") for i in range(2)]
    given[-1] = np.tensordot(given[-1], diag(ctx, m), 1)
    con = diag(ctx, [inverse(ctx, x) for x in m])
  scale = bounded(ctx, "g")
  given[0] = given[0] * scale
  if ctx.symbolic:
    ctx.eng.unit_norms = [inverse(ctx, x[0] * x[0] + x[1] * x[1]) for x in ends] + [(lam[0] * lam[0] + lam[1] * lam[1]).sqrt()]
  else:
    given = [np.asarray(t if cplx else np.real(t), dtype=complex if cplx else float) for t in given]
    con = con if con is None else np.asarray(con if cplx else np.real(con), dtype=complex if cplx else float)
  mps = tn.InfiniteMPS([t.copy() for t in given], center_position=center, connector_matrix=con, backend="numpy")
  return mps, given, can, lam, lapack(ctx, fixed, bases, cplx, scale, simple)


def inverse(ctx, x):
  return x.reciprocal() if ctx.symbolic else 1 / x


def quiet(f, *a, **k):
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    return f(*a, **k)


def array(ctx, xs):
  return np.array(xs, dtype=object if ctx.symbolic else None)


def schmidt_form(ctx, mps, n, dims, light=False):
  """left isometric tensors, a connector that is the inverse Schmidt matrix; returns (unit cell, Schmidt values)"""
  out = [np.asarray(mps.get_tensor(k)) for k in range(n)]
  for t in out:
    m = t.reshape(-1, t.shape[-1])
    ctx.eq(np.dot(dag(m), m), diag(ctx, [num(ctx, 1)] * m.shape[1]), "site tensors are left isometric")
  ctx.check([t.shape[0] for t in out] + [out[-1].shape[2]] == dims, "bond dimensions")
  ctx.check(mps.center_position == n - 1, "centre at the last site")
  c = np.asarray(mps.connector_matrix)
  k = dims[-1]
  ctx.eq(c, diag(ctx, [c[i, i] for i in range(k)]), "the connector is diagonal")
  s = [inverse(ctx, c[i, i]) for i in range(k)]
  ctx.eq(array(ctx, sum(x * x for x in s)), array(ctx, num(ctx, 1)), "Schmidt values are normalised")
  if light:
    return None, s
  new = cell(out)
  sq = diag(ctx, [x * x for x in s])
  ctx.eq(transfer(new, sq, False), sq, "the squared Schmidt values are the right fixed point")
  return new, s


def run(ctx, n, cplx, connector=False, center=0, **kw):
  mps, given, can, lam, la = prepared(ctx, n, cplx, connector, center)
  with la:
    quiet(mps.canonicalize, **kw)
  light = center not in (0, None)
  new, s = schmidt_form(ctx, mps, n, [2] * (n + 1), light)
  a, b = s
  ctx.eq(array(ctx, [a * a + b * b, a * a * b * b]) * (lam[0] * lam[0] + lam[1] * lam[1])**2,
         array(ctx, [(lam[0] * lam[0] + lam[1] * lam[1])**2, lam[0] * lam[0] * lam[1] * lam[1]]), "the Schmidt values of the state")
  if not ctx.symbolic:
    ctx.check(np.real(a) >= np.real(b) > 0, "Schmidt values descend")
  else:
    ctx.check(la.lower(b, a) or bool(a == b), "Schmidt values descend")
  for x, y in zip(words(new, 2), words(cell(can), 2)) if not light else ():
    ctx.eq(array(ctx, x), array(ctx, y), "the same state")


def product(ctx, n, cplx, connector):
  """bond dimension 1"""
  ts = []
  for i in range(n):
    t = rotation(ctx, cplx, f"w{i}")[:, 0] * bounded(ctx, f"g{i}") * phase(ctx, f"p{i}", cplx)
    t = t.reshape(1, 2, 1)
    ts.append(t if ctx.symbolic or cplx else np.real(t))
  con = None
  if connector:
    con = diag(ctx, [bounded(ctx, "con")])
    con = con if ctx.symbolic or cplx else np.real(con)
  mps = tn.InfiniteMPS([t.copy() for t in ts], center_position=0, connector_matrix=con, backend="numpy")
  with lapack(ctx, (), (), cplx):
    if ctx.symbolic:
      g = ctx.tensor("guess", (1,), False)
      ctx.assume(g[0] >= 0.5)
      l, r = g + 0, g + 0
    else:
      l, r = None, None
    quiet(mps.canonicalize, left_initial_state=l, right_initial_state=r)
  new, s = schmidt_form(ctx, mps, n, [1] * (n + 1))
  old = cell(ts).ravel()
  ctx.eq(np.outer(new.ravel(), old), np.outer(old, new.ravel()), "the same state")


def truncated(ctx, cplx, how):
  """only the largest Schmidt value is kept"""
  mps, given, can, lam, la = prepared(ctx, 1, cplx, False, 0)
  with la:
    big = 0 if la.lower(lam[1], lam[0]) else 1
    keep = "truncation_threshold" in how and la.lower(lam[big] * how["truncation_threshold"], lam[1 - big])
    quiet(mps.canonicalize, **how)
  if keep:
    schmidt_form(ctx, mps, 1, [2, 2])
    return
  t = np.asarray(mps.get_tensor(0))
  ctx.check(t.shape == (1, 2, 1), "bond dimension")
  ctx.check(np.shape(mps.connector_matrix) == (1, 1), "shape of the connector")
  ref = can[0][big, :, big]
  ctx.eq(np.outer(t.ravel(), ref), np.outer(ref, t.ravel()), "projected on the largest Schmidt vector")


def guesses(ctx, cplx):
  """initial guesses of the eigenvectors, as matrices or vectors, are not modified"""
  mps, given, can, lam, la = prepared(ctx, 1, cplx, False, 0)
  l = ctx.tensor("l", (2, 2), cplx)
  r = ctx.tensor("r", (4,), cplx)
  l0, r0 = ctx.contents(l.copy()), ctx.contents(r.copy())
  with la:
    quiet(mps.canonicalize, left_initial_state=l, right_initial_state=r)
  ctx.eq(l, l0, "the guess is not modified")
  ctx.eq(r, r0, "the guess is not modified")
  schmidt_form(ctx, mps, 1, [2, 2])


def rejected(ctx):
  a = ctx.tensor("a", (2, 2, 2))
  m = tn.InfiniteMPS([a], backend="numpy")
  for f in (m.left_envs, m.right_envs):
    ctx.raises(NotImplementedError, lambda: f([0]), "environments")
  ctx.raises(NotImplementedError, lambda: m.save("x"), "save")
  ctx.raises(ValueError, lambda: tn.InfiniteMPS.random([2], [2, 3], np.float64), "boundary dimensions differ")
  ctx.raises(ValueError, lambda: tn.InfiniteMPS.random([2, 2], [2, 2], np.float64), "number of dimensions")


def scenarios(tier):
  out = []

  def add(name, fn, *a, **k):
    out.append(Scenario(name, fn, *a, **k))
  for cplx in (False, True):
    c = "complex" if cplx else "real"
    for n in (1, 2, 3):
      for con in (False, True):
        add(f"product {c} sites={n} connector={con}", product, n, cplx, con)
    for n in (1, 2):
      for con in (False, True):
        for center in (0, None) + ((1,) if n == 2 and not cplx else ()):
          if center == 1 and con and tier == "quick":
            continue
          add(f"two {c} sites={n} connector={con} centre={center}", run, n, cplx, con, center)
    add(f"truncated {c} D", truncated, cplx, dict(D=1))
    add(f"truncated {c} threshold", truncated, cplx, dict(truncation_threshold=0.5, D=None))
    add(f"cutoff {c}", run, 1, cplx, True, 0, pseudo_inverse_cutoff=1e-9, D=2, truncation_threshold=1e-12)
    add(f"guesses {c}", guesses, cplx)
  add("rejected", rejected)
  return out
