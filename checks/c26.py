"""C26: QR and RQ about any pivot."""
import numpy as np
import tensornetwork as tn
from runner import Scenario
import shims
from sym import S

BOUNDS = ("tensors of order 1 to 4 with matrix sizes from 1x1 to 4x2, 3x3, 2x4, every pivot axis (also negative), entries arbitrary "
          "real or complex; the factors the library may return are every pair satisfying its contract, incl. any phases and zeros on "
          "the diagonal; NumPy, JAX and TensorFlow backends and the tn.linalg wrappers")
OUTSIDE = "rounding; PyTorch (not installed); symmetric tensors (C16); larger sizes"
ASSUMPTIONS = ["the library's qr satisfies its contract: A = Q R, Q isometric, R upper triangular (any phases on the diagonal); "
               "TensorFlow's R has a real diagonal"]
BACKENDS = ("numpy", "jax", "tensorflow")
shims.preload(BACKENDS)


def factor(ctx, name, api, what, shape, nonneg, cplx, rank0):
  pivot = ctx.pick("pivot", 0 if api == "backend" and len(shape) < 3 else 1, len(shape) - 1)
  neg = ctx.choice("negative pivot", [False, True]) if pivot else False
  kind = ctx.choice("default pivot", [False, True]) if pivot == len(shape) - 1 else False
  left, right = tuple(shape[:pivot]), tuple(shape[pivot:])
  m, n = int(np.prod(left)), int(np.prod(right))
  a = ctx.tensor("A", (m, n), cplx)
  if rank0:
    # a rank deficient matrix: the last rows (columns) repeat the first
    if what == "qr":
      a[:, -1] = a[:, 0] * 0 if rank0 == "zero" else a[:, 0]
    else:
      a[-1] = a[0] * 0 if rank0 == "zero" else a[0]
  t0 = a.reshape(shape)
  with shims.on(ctx, name) as B:
    t = B.arr(t0)
    f = {"backend": {"qr": B.backend.qr, "rq": B.backend.rq},
         "wrapper": {"qr": tn.linalg.linalg.qr, "rq": tn.linalg.linalg.rq}}[api][what]
    x = tn.Tensor(t, backend=B.backend) if api == "wrapper" else t
    args = [] if kind else [pivot - len(shape) if neg else pivot]
    kw = dict(non_negative_diagonal=True) if nonneg else {}
    y, z = f(x, *args, **kw)
    if api == "wrapper":
      y, z = y.array, z.array
    y, z = B.out(y), B.out(z)
    ctx.eq(B.out(t), t0, "input unchanged")
  k = min(m, n)
  ctx.check(y.shape == left + (k,) and z.shape == (k,) + right, "shapes")
  y, z = y.reshape(m, k), z.reshape(k, n)
  ctx.eq(y @ z, a, "product")
  if what == "qr":
    ctx.eq(np.conj(y.T) @ y, np.eye(k), "Q isometric")
    r = z
  else:
    ctx.eq(z @ np.conj(z.T), np.eye(k), "Q isometric")
    r = np.conj(y.T)
  low = r * (1 - np.triu(np.ones(r.shape)))
  ctx.eq(low, np.zeros(r.shape), "R triangular")
  if nonneg:
    for i in range(k):
      d = r[i, i]
      if ctx.symbolic:
        d = S.lift(d)
        ctx.eq(ctx.array_of([d.imag]), np.zeros(1), "diagonal real")
        if d.is_real():
          ctx.check(d >= 0, "diagonal not negative")
      else:
        ctx.check(abs(np.imag(d)) < 1e-9 and np.real(d) > -1e-9, "diagonal not negative")


def eigh_norm(ctx, name, n, cplx):
  """tn.linalg.eigh and norm"""
  a = ctx.tensor("A", (n, n), cplx)
  a = a + np.conj(a.T)
  with shims.on(ctx, name) as B:
    w, v = tn.linalg.linalg.eigh(tn.Tensor(B.arr(a), backend=B.backend))
    w, v = B.out(w.array), B.out(v.array)
    ctx.eq(a @ v, v * w, "eigenvectors")
    ctx.eq(np.conj(v.T) @ v, np.eye(n), "orthonormal")
    for i in range(n - 1):
      ctx.check(w[i] <= w[i + 1], "ascending")
    t = ctx.tensor("t", (2, 3), cplx)
    x = B.out(tn.linalg.linalg.norm(tn.Tensor(B.arr(t), backend=B.backend)))
    sq = np.sum(t * np.conj(t))
    x = x if ctx.symbolic and isinstance(x, S) else np.asarray(x)[()]
    ctx.eq(ctx.array_of([x * x]), ctx.array_of([sq]), "norm squared")
    ctx.check(x >= 0 if ctx.symbolic else np.real(x) >= 0, "norm not negative")


def scenarios(tier):
  out = []
  th = tier == "thorough"
  for b in BACKENDS:
    for what in ("qr", "rq"):
      for nonneg in (False, True):
        for shape in [(1, 1), (2, 2), (2, 3), (3, 2), (2, 2, 2), (3, 1, 2), (2, 1, 2, 1)] + ([(3, 3), (4, 2), (2, 4)] if th else []):
          for cplx in (False, True):
            if cplx and not th and len(shape) > 3:
              continue
            for api in ("backend", "wrapper"):
              if api == "wrapper" and (len(shape) != 3 or cplx):
                continue
              out.append(Scenario(f"{what} {b} {api} {shape} {'c' if cplx else 'r'} nonneg={nonneg}", factor, b, api, what, shape, nonneg, cplx, None))
        for z in ("zero", "same"):
          for shape in [(2, 2), (3, 2), (2, 3)]:
            out.append(Scenario(f"{what} {b} rank deficient {z} {shape} nonneg={nonneg}", factor, b, "backend", what, shape, nonneg, False, z))
    for n in (1, 2) + ((3,) if th else ()):
      for cplx in (False, True):
        out.append(Scenario(f"eigh norm {b} {n} {'c' if cplx else 'r'}", eigh_norm, b, n, cplx))
  return out
