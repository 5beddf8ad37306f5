"""Environment stubs: numpy functions that end in LAPACK (or cannot run on object arrays).

On object arrays they return fresh unknowns constrained only by their documented contract; on ordinary arrays they call the
original.  Every stub is listed in the evidence of the run that used it.
"""
import itertools
import numpy as np
import sym
from sym import S, Unsupported

_ORIG = {}


def _obj(a):
  return isinstance(a, np.ndarray) and a.dtype == object


def _use(eng, what):
  eng.stats.stubs.add(what)
  eng.stubbed = True


def _key(a):
  return (a.shape, tuple(x.key() for x in a.ravel()))


def _vararr(eng, name, shape, cplx):
  a = np.empty(shape, dtype=object)
  for i in np.ndindex(*shape):
    a[i] = S.var(eng.newvar(f"{name}{list(i)}", cplx))
  return a


def _lead(*xs):
  out = []
  for x in xs:
    (m, _), = x.t.items()
    out.extend(m)
  return tuple(sorted(out))


def _isometry(eng, u, label, square):
  """u^dagger u = 1 (and u u^dagger = 1 when square)"""
  m, k = u.shape
  for a in range(k):
    for b in range(k):
      p = S({(): -1}) if a == b else S({})
      for i in range(m):
        p = p + u[i, a].conjugate() * u[i, b]
      eng.hyp(p, _lead(u[0, a].conjugate(), u[0, b]), label)
  if square:
    for a in range(m):
      for b in range(m):
        p = S({(): -1}) if a == b else S({})
        for i in range(k):
          p = p + u[a, i] * u[b, i].conjugate()
        eng.hyp(p, _lead(u[a, 0], u[b, 0].conjugate()), label + " (square)")


def _product(eng, a, terms, label, reverse=True):
  """a_ij == sum_k prod(terms)"""
  m, n = a.shape
  for i in range(m):
    for j in range(n):
      p = S({})
      lead = None
      for t in terms(i, j):
        q = S({(): 1})
        for x in t:
          q = q * x
        if lead is None and q.t:
          lead = next(iter(q.t))
        p = p + q
      p = p - a[i, j]
      if lead is None:
        lead = ()
      eng.hyp(p, lead, label)


def register_svd(eng, a, svals, cplx):
  k = _key(sym.arr(a))
  eng.cache_stub[("svd", k)] = _make_svd(eng, sym.arr(a), cplx, svals)


def known_svd(eng, name, m, n, svals, cplx):
  """matrix U S V assembled from unknown isometries; its svd stub returns exactly these factors"""
  k = min(m, n)
  u = _vararr(eng, f"{name}U", (m, k), cplx)
  v = _vararr(eng, f"{name}V", (k, n), cplx)
  s = np.empty(k, dtype=object)
  for i in range(k):
    s[i] = S.lift(svals[i])
  _isometry(eng, u, "U isometric", m == k)
  _isometry(eng, v.T.copy(), "V isometric", n == k)
  a = (u * s) @ v
  eng.cache_stub[("svd", _key(a))] = (u, s, v)
  eng.known_svds.append((name, a, (u, s, v)))
  eng.stubbed = True
  return a, u, s, v


def _make_svd(eng, a, cplx, svals=None):
  m, n = a.shape
  k = min(m, n)
  c = next(eng.fresh)
  u = _vararr(eng, f"U{c}", (m, k), cplx)
  v = _vararr(eng, f"V{c}", (k, n), cplx)
  if svals is None:
    s = np.empty(k, dtype=object)
    for i in range(k):
      s[i] = S.var(eng.newvar(f"S{c}[{i}]", False, nonneg=True))
    for i in range(k - 1):
      eng.assume(s[i] >= s[i + 1])
    if k and getattr(eng, "nonzero_svd", False):
      eng.assume(s[0] > 0)
  else:
    s = np.empty(k, dtype=object)
    for i in range(k):
      s[i] = S.lift(svals[i])
  # degenerate shapes: entries of V and U stay unknown, A = U S V as a hypothesis
  _product(eng, a, lambda i, j: [(u[i, l], s[l], v[l, j]) for l in range(k)], "A = U diag(S) V")
  _isometry(eng, u, "U isometric", m == k)
  _isometry(eng, v.T.copy(), "V isometric", n == k)
  return u, s, v


def _is_cplx(a):
  return not all(x.is_real() for x in a.ravel())


def svd(a, full_matrices=True, compute_uv=True, hermitian=False):
  if not _obj(a):
    return _ORIG["svd"](a, full_matrices=full_matrices, compute_uv=compute_uv, hermitian=hermitian)
  eng = sym.ENG
  _use(eng, "numpy.linalg.svd: A=U S V, U and V isometric, S sorted non-negative")
  a = sym.arr(a)
  if a.ndim != 2:
    raise Unsupported("svd of a stack")
  if 0 in a.shape:
    if full_matrices:
      raise Unsupported("full_matrices svd of an empty matrix")
    return (np.empty((a.shape[0], 0), dtype=object), np.empty((0,), dtype=object), np.empty((0, a.shape[1]), dtype=object))
  u, s, v = _svd(eng, a)
  if not compute_uv:
    return s.copy()
  if full_matrices:
    u = _complete(eng, u)
    v = _complete(eng, v.T.copy()).T
  from collections import namedtuple
  return namedtuple("SVDResult", "U S Vh")(u.copy(), s.copy(), v.copy())


def _svd(eng, a):
  """the factors of a; rows and columns of known matrices may have been exchanged, or the matrix transposed"""
  key = ("svd", _key(a))
  if key in eng.cache_stub:
    return eng.cache_stub[key]
  flat = lambda x: [e.key() for e in x.ravel()]
  have = sorted(map(repr, flat(a)))
  conj = np.frompyfunc(lambda e: e.conjugate(), 1, 1)
  for what, b, (u, s, v) in list(eng.known_svds):
    if sorted(b.shape) != sorted(a.shape):
      continue
    for bb, uu, vv in ((b, u, v), (b.T, v.T, u.T), (conj(b), conj(u), conj(v)), (conj(b.T), conj(v.T), conj(u.T))):
      if bb.shape != a.shape or sorted(map(repr, flat(bb))) != have:
        continue
      for rp in itertools.permutations(range(a.shape[0])):
        for cp in itertools.permutations(range(a.shape[1])):
          if _key(bb[list(rp)][:, list(cp)]) == key[1]:
            eng.cache_stub[key] = (uu[list(rp)], s, vv[:, list(cp)])
            return eng.cache_stub[key]
  eng.cache_stub[key] = _make_svd(eng, a, _is_cplx(a))
  return eng.cache_stub[key]


def _complete(eng, u):
  """extend a matrix with orthonormal columns to a unitary one"""
  m, k = u.shape
  if m == k:
    return u
  key = ("complete", _key(u))
  if key not in eng.cache_stub:
    c = next(eng.fresh)
    full = np.empty((m, m), dtype=object)
    full[:, :k] = u
    full[:, k:] = _vararr(eng, f"F{c}", (m, m - k), _is_cplx(u))
    _isometry(eng, full, "full_matrices: unitary", True)
    eng.cache_stub[key] = full
  return eng.cache_stub[key]


def pinv(a, rcond=None, hermitian=False, **kw):
  if not _obj(a):
    return _ORIG["pinv"](a, rcond, hermitian, **kw)
  eng = sym.ENG
  _use(eng, "numpy.linalg.pinv: the four Penrose conditions (or the factors of a known singular value decomposition with the cutoff applied)")
  a = sym.arr(a)
  if a.ndim != 2:
    raise Unsupported("pinv of a stack")
  m, n = a.shape
  conj = np.frompyfunc(lambda e: e.conjugate(), 1, 1)
  if ("svd", _key(a)) in eng.cache_stub:
    u, s, v = _svd(eng, a)
    x = np.zeros((n, m), dtype=object) + S({})
    cut = s[0] * (1e-15 if rcond is None else rcond)
    for k in range(len(s)):
      if s[k] > cut:
        x = x + np.outer(conj(v[k]), conj(u[:, k])) * (S.lift(1) / s[k])
    return x
  key = ("pinv", _key(a), repr(rcond))
  if key not in eng.cache_stub:
    c = next(eng.fresh)
    x = _vararr(eng, f"Y{c}", (n, m), _is_cplx(a))

    def triple(p, q, r, what):
      """p q r = p for matrices"""
      for i in range(p.shape[0]):
        for j in range(p.shape[1]):
          t = -p[i, j]
          lead = None
          for k in range(q.shape[0]):
            for l in range(q.shape[1]):
              z = p[i, k] * q[k, l] * r[l, j]
              lead = lead if lead is not None or not z.t else max(z.t, key=len)
              t = t + z
          if lead is not None:
            eng.hyp(t, lead, what)

    triple(a, x, a, "A X A = A")
    triple(x, a, x, "X A X = X")
    for p, q in ((a, x), (x, a)):
      for i in range(p.shape[0]):
        for j in range(i + 1):
          t = S({})
          for k in range(p.shape[1]):
            t = t + p[i, k] * q[k, j] - (p[j, k] * q[k, i]).conjugate()
          if t.t:
            eng.hyp(t, max(t.t, key=len), "A X and X A are Hermitian")
    eng.cache_stub[key] = x
  return eng.cache_stub[key].copy()


def qr(a, mode="reduced", real_diagonal=False):
  if not _obj(a):
    return _ORIG["qr"](a, mode)
  eng = sym.ENG
  _use(eng, "numpy.linalg.qr: A=Q R, Q isometric, R upper triangular")
  a = sym.arr(a)
  if a.ndim != 2 or mode not in ("reduced", "complete", "r"):
    raise Unsupported("qr mode")
  m, n = a.shape
  k = m if mode == "complete" else min(m, n)
  key = ("qr", _key(a), k, real_diagonal)
  if key not in eng.cache_stub:
    cplx = _is_cplx(a)
    c = next(eng.fresh)
    q = _vararr(eng, f"Q{c}", (m, k), cplx)
    r = np.empty((k, n), dtype=object)
    for i in range(k):
      for j in range(n):
        r[i, j] = S.var(eng.newvar(f"R{c}[{i},{j}]", cplx and not (real_diagonal and i == j))) if i <= j else S({})
    _product(eng, a, lambda i, j: [(q[i, l], r[l, j]) for l in range(k)], "A = Q R")
    _isometry(eng, q, "Q isometric", m == k)
    if getattr(eng, "gram", False):
      for i in range(n):
        for j in range(n):
          p = -sum((a[l, i].conjugate() * a[l, j] for l in range(m)), S({}))
          lead = None
          for l in range(k):
            x = r[l, i].conjugate() * r[l, j]
            lead = next(iter(x.t)) if x.t and lead is None else lead
            p = p + x
          eng.hyp(p, lead, "A^dagger A = R^dagger R")
      eng.frobenius[tuple(x.key() for x in r.ravel())] = a
    eng.cache_stub[key] = (q, r)
  q, r = eng.cache_stub[key]
  if mode == "r":
    return r.copy()
  from collections import namedtuple
  return namedtuple("QRResult", "Q R")(q.copy(), r.copy())


def eigh(a, UPLO="L"):
  if not _obj(a):
    return _ORIG["eigh"](a, UPLO)
  eng = sym.ENG
  _use(eng, "numpy.linalg.eigh: A=V w V^dagger, V unitary, w real ascending (A must be Hermitian)")
  a = sym.arr(a)
  if a.ndim != 2 or a.shape[0] != a.shape[1]:
    raise np.linalg.LinAlgError("square")
  n = a.shape[0]
  # only the lower triangle is read
  low = np.empty((n, n), dtype=object)
  for i in range(n):
    for j in range(n):
      low[i, j] = a[i, j] if i > j else (a[j, i].conjugate() if j > i else a[i, i].real)
  if UPLO == "U":
    for i in range(n):
      for j in range(n):
        low[i, j] = a[i, j] if i < j else (a[j, i].conjugate() if j < i else a[i, i].real)
  key = ("eigh", _key(low))
  if key not in eng.cache_stub:
    cplx = _is_cplx(low)
    c = next(eng.fresh)
    v = _vararr(eng, f"E{c}", (n, n), cplx)
    w = np.empty(n, dtype=object)
    for i in range(n):
      w[i] = S.var(eng.newvar(f"w{c}[{i}]", False))
    for i in range(n - 1):
      eng.assume(w[i] <= w[i + 1])
    _product(eng, low, lambda i, j: [(v[i, l], w[l], v[j, l].conjugate()) for l in range(n)], "A = V w V^dagger")
    for i in range(n):
      for j in range(n):
        p = -(w[j] * v[i, j])
        lead = next(iter(p.t))
        for l in range(n):
          p = p + low[i, l] * v[l, j]
        eng.hyp(p, lead, "A V = V w")
    _isometry(eng, v, "V unitary", True)
    eng.cache_stub[key] = (w, v)
  w, v = eng.cache_stub[key]
  from collections import namedtuple
  return namedtuple("EighResult", "eigenvalues eigenvectors")(w.copy(), v.copy())


def eigvalsh(a, UPLO="L"):
  if not _obj(a):
    return _ORIG["eigvalsh"](a, UPLO)
  return eigh(a, UPLO)[0]


def eig(a):
  if not _obj(a):
    return _ORIG["eig"](a)
  eng = sym.ENG
  _use(eng, "numpy.linalg.eig: A V = V w")
  a = sym.arr(a)
  n = a.shape[0]
  key = ("eig", _key(a))
  if key not in eng.cache_stub:
    c = next(eng.fresh)
    v = _vararr(eng, f"G{c}", (n, n), True)
    w = np.empty(n, dtype=object)
    for i in range(n):
      w[i] = S.var(eng.newvar(f"g{c}[{i}]", True))
    for i in range(n):
      for j in range(n):
        p = -(w[j] * v[i, j])
        lead = next(iter(p.t))
        for l in range(n):
          p = p + a[i, l] * v[l, j]
        eng.hyp(p, lead, "A V = V w")
    eng.cache_stub[key] = (w, v)
  w, v = eng.cache_stub[key]
  return w.copy(), v.copy()


def inv(a):
  if not _obj(a):
    return _ORIG["inv"](a)
  eng = sym.ENG
  _use(eng, "numpy.linalg.inv: A X = X A = 1 (A invertible)")
  a = sym.arr(a)
  if a.ndim != 2 or a.shape[0] != a.shape[1]:
    raise np.linalg.LinAlgError("square")
  n = a.shape[0]
  if all(not a[i, j].t for i in range(n) for j in range(n) if i != j):
    x = np.zeros((n, n), dtype=object) + S({})
    for i in range(n):
      x[i, i] = a[i, i].reciprocal()
    return x
  key = ("inv", _key(a))
  if key not in eng.cache_stub:
    c = next(eng.fresh)
    x = _vararr(eng, f"X{c}", (n, n), _is_cplx(a))
    for i in range(n):
      for j in range(n):
        for left in (True, False):
          p = S({(): -1}) if i == j else S({})
          for l in range(n):
            p = p + (a[i, l] * x[l, j] if left else x[i, l] * a[l, j])
          t = a[i, 0] * x[0, j] if left else x[i, 0] * a[0, j]
          lead = max(t.t, key=len) if t.t else ()
          eng.hyp(p, lead, "inverse")
    eng.cache_stub[key] = x
  return eng.cache_stub[key].copy()


def norm(x, ord=None, axis=None, keepdims=False):
  if not (_obj(x) or isinstance(x, S)):
    return _ORIG["norm"](x, ord=ord, axis=axis, keepdims=keepdims)
  eng = sym.ENG
  x = sym.arr(x)
  if ord not in (None, 2, "fro") or (ord == 2 and x.ndim != 1):
    raise Unsupported(f"norm ord={ord}")
  eng.stats.stubs.add("numpy.linalg.norm: square root of the sum of |x|^2")
  if axis is None and getattr(eng, "gram", False):
    # R of a QR decomposition has the norm of the matrix itself
    x = eng.frobenius.get(tuple(S.lift(v).key() for v in x.ravel()), x)
  sq = x * np.conj(x)
  t = np.sum(sq, axis=axis, keepdims=keepdims)
  if getattr(eng, "unit_norms", None) and not isinstance(t, np.ndarray):
    # values (known to be >= 0) that the norm may turn out to have, decided by the solver
    import z3
    t = S.lift(t)
    for c in eng.unit_norms:
      if not t.is_const() and eng.hyps and eng.prove_zero([(t, c * c)]) == z3.unsat:
        return c
  return np.sqrt(t) if isinstance(t, np.ndarray) else S.lift(t).sqrt()


def _real(x):
  if isinstance(x, S):
    return x.real
  if _obj(x):
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
      out[i] = x[i].real
    return out
  return _ORIG["real"](x)


def _imag(x):
  if isinstance(x, S):
    return x.imag
  if _obj(x):
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
      out[i] = x[i].imag
    return out
  return _ORIG["imag"](x)


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
  if _obj(a) or _obj(b) or isinstance(a, S) or isinstance(b, S):
    aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    out = np.empty(aa.shape, dtype=object)
    for i in np.ndindex(*aa.shape):
      out[i] = S.lift(aa[i]) == S.lift(bb[i])
    return out if out.shape else out[()]
  return _ORIG["isclose"](a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
  if _obj(a) or _obj(b) or isinstance(a, S) or isinstance(b, S):
    r = _isclose(a, b)
    return all(bool(x) for x in np.asarray(r, dtype=object).ravel())
  return _ORIG["allclose"](a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)


def _sign1(x):
  x = S.lift(x)
  if x.is_real():
    if x == 0:
      return S.lift(0)
    return S.lift(1) if x > 0 else S.lift(-1)
  if x == 0:
    return S.lift(0)
  return x * abs(x).reciprocal()


def _sign(x, *a, **k):
  if isinstance(x, S):
    return _sign1(x)
  if _obj(x):
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
      out[i] = _sign1(x[i])
    return out
  return _ORIG["sign"](x, *a, **k)


def _iscomplexobj(x):
  if _obj(x):
    return not all(S.lift(v).is_real() for v in x.ravel())
  if isinstance(x, S):
    return not x.is_real()
  return _ORIG["iscomplexobj"](x)


def install():
  if _ORIG:
    return
  L = np.linalg
  for name, f in (("svd", svd), ("qr", qr), ("eigh", eigh), ("eig", eig), ("inv", inv), ("norm", norm),
                  ("eigvalsh", eigvalsh), ("pinv", pinv)):
    _ORIG[name] = getattr(L, name)
    setattr(L, name, f)
  for name, f in (("real", _real), ("imag", _imag), ("isclose", _isclose), ("allclose", _allclose),
                  ("iscomplexobj", _iscomplexobj), ("sign", _sign)):
    _ORIG[name] = getattr(np, name)
    setattr(np, name, f)
