"""C24: NumPy, JAX and TensorFlow backends compute the same functions."""
import itertools
import numpy as np
import tensornetwork as tn
from runner import Scenario
import shims
import sym
from sym import S

BOUNDS = ("every listed operation on tensors of rank 0 to 4 with dimensions 1 to 3, arbitrary real or complex entries; every axes list, "
          "permutation, slice, pivot, offset and keepdims within those shapes (negative axes included) that NumPy, JAX and TensorFlow all "
          "document; NumPy, JAX and TensorFlow backends; tensordot2 with static shapes")
OUTSIDE = ("rounding and dtype promotion; sin, cos, exp, log, expm and random numbers (transcendental or not functions of the entries); "
           "svd, qr, rq (C08, C26), Krylov solvers (C27, C32); slices that leave the tensor (JAX clamps them); PyTorch (C31); what "
           "jax.numpy and TensorFlow functions themselves compute: they are modelled in lib/shims.py and compared with the real "
           "libraries on every validated path")
ASSUMPTIONS = ["jax.numpy and TensorFlow functions compute what lib/shims.py says", "LAPACK's eigh and inverse satisfy their contracts"]
BACKENDS = ("numpy", "jax", "tensorflow")
shims.preload(BACKENDS)


def z(ctx):
  return S({}) if ctx.symbolic else 0.0


def loops(ctx, shape, f):
  """tensor of the entries f(index)"""
  out = np.empty(shape, dtype=object if ctx.symbolic else np.complex128)
  for i in np.ndindex(*shape):
    v = f(i)
    out[i] = S.lift(v) if ctx.symbolic else v
  return out


def total(ctx, xs):
  r = z(ctx)
  for x in xs:
    r = r + x
  return r


def contraction(ctx, a, b, ia, ib):
  """explicit sum over paired axes"""
  ia, ib = [i % a.ndim for i in ia], [i % b.ndim for i in ib]
  fa, fb = [i for i in range(a.ndim) if i not in ia], [i for i in range(b.ndim) if i not in ib]
  dims = [a.shape[i] for i in ia]

  def entry(k):
    def one(s):
      x, y = [0] * a.ndim, [0] * b.ndim
      for i, v in zip(ia, s):
        x[i] = v
      for i, v in zip(ib, s):
        y[i] = v
      for i, v in zip(fa, k):
        x[i] = v
      for i, v in zip(fb, k[len(fa):]):
        y[i] = v
      return a[tuple(x)] * b[tuple(y)]
    return total(ctx, [one(s) for s in np.ndindex(*dims)])
  return loops(ctx, [a.shape[i] for i in fa] + [b.shape[i] for i in fb], entry)


class Op:

  def __init__(self, ctx, B):
    self.ctx, self.B, self.be = ctx, B, B.backend
    self.n = 0
    self.given = []

  def t(self, shape, cplx=False, positive=False):
    self.n += 1
    shape = tuple(shape)
    if positive:
      a = np.empty(shape, dtype=object if self.ctx.symbolic else np.float64)
      for i in np.ndindex(*shape):
        a[i] = self.ctx.positive(f"t{self.n}{list(i)}")
      return a
    return np.asarray(self.ctx.tensor(f"t{self.n}", shape, cplx))

  def arr(self, a):
    x = self.B.arr(np.asarray(a))
    self.given.append((x, np.array(a)))
    return x

  def out(self, x):
    return np.asarray(self.B.out(x))

  def unchanged(self):
    for x, a in self.given:
      self.ctx.eq(self.out(x), a, "arguments are not modified")


PAIRS = [((2, 3), (3, 2)), ((2, 2), (2, 2)), ((2,), (2,)), ((2, 3, 2), (2, 3)), ((), (2,)), ((), ()), ((2, 1, 2), (2, 2, 1)),
         ((1,), (1, 1)), ((3,), (2, 3))]


def axes_lists(a, b):
  """every valid pairing of axes, with a sign pattern"""
  out = []
  for k in range(min(len(a), len(b)) + 1):
    for ia in itertools.permutations(range(len(a)), k):
      for ib in itertools.permutations(range(len(b)), k):
        if all(a[x] == b[y] for x, y in zip(ia, ib)):
          out.append((ia, ib))
  return out


def signed(ctx, ax, n, name):
  return [x - n if ctx.choice(f"{name}{k}", [False, True]) else x for k, x in enumerate(ax)]


def tensordot(ctx, o, cplx, pair, impl):
  sa, sb = PAIRS[pair]
  a, b = o.t(sa, cplx), o.t(sb, cplx)
  how = ctx.choice("axes", ["lists", "int"])
  f = o.be.tensordot
  if impl == "tensordot2":
    from tensornetwork.backends.tensorflow import tensordot2, tensorflow_backend
    f = lambda x, y, ax: tensordot2.tensordot(tensorflow_backend.tf, x, y, ax)
  if how == "int":
    k = ctx.pick("number", 0, min(len(sa), len(sb)))
    if sa[len(sa) - k:] != sb[:k]:
      return
    ia, ib, ax = list(range(len(sa) - k, len(sa))), list(range(k)), k
  else:
    ia, ib = ctx.choice("pairing", axes_lists(sa, sb))
    ax = [signed(ctx, ia, len(sa), "negative a"), signed(ctx, ib, len(sb), "negative b")]
    form = ctx.choice("form", ["lists", "tuples"])
    if form == "tuples":
      ax = tuple(tuple(x) for x in ax)
  got = o.out(f(o.arr(a), o.arr(b), ax))
  ctx.eq(got, contraction(ctx, a, b, ia, ib), "tensordot")


SHAPES = [(), (2,), (1,), (2, 3), (2, 1, 2), (1, 2, 2), (2, 2, 1, 2)]


def reshape(ctx, o, cplx):
  s = ctx.choice("shape", [(2, 3), (2, 1, 2), (4,), (1,), (), (2, 2, 2)])
  a = o.t(s, cplx)
  n = int(np.prod(s))
  opts = {6: [(6,), [3, 2], (1, 6), (2, 3), (-1, 2), (3, -1), (2, 1, 3)], 4: [(4,), [2, 2], (2, -1), (1, 4, 1)],
          1: [(), (1,), [1, 1], (-1,)], 8: [(4, 2), (2, 4), [2, 2, 2], (8,), (-1,)]}[n]
  new = ctx.choice("new shape", opts)
  r = o.out(o.be.reshape(o.arr(a), new))
  full = tuple(n // -int(np.prod(new)) if x == -1 else x for x in new)
  flat = [a[i] for i in np.ndindex(*s)]
  pos = {i: k for k, i in enumerate(np.ndindex(*full))}
  ctx.eq(r, loops(ctx, full, lambda i: flat[pos[i]]), "reshape in row-major order")


def transpose(ctx, o, cplx):
  s = ctx.choice("shape", [(), (2,), (2, 3), (2, 1, 3), (1, 2, 2, 3)])
  a = o.t(s, cplx)
  perm = ctx.choice("perm", ["default", "given"])
  if perm == "default":
    p = list(range(len(s)))[::-1]
    r = o.be.transpose(o.arr(a))
  else:
    p = ctx.perm("permutation", len(s))
    r = o.be.transpose(o.arr(a), p)
  want = loops(ctx, [s[i] for i in p], lambda i: a[tuple(i[p.index(k)] for k in range(len(s)))])
  ctx.eq(o.out(r), want, "transpose")


def slice_(ctx, o, cplx):
  s = ctx.choice("shape", [(3,), (2, 3), (2, 3, 2)])
  a = o.t(s, cplx)
  start = tuple(ctx.pick(f"start{k}", 0, d - 1) for k, d in enumerate(s))
  size = tuple(ctx.pick(f"size{k}", 1, d - st) for k, (d, st) in enumerate(zip(s, start)))
  r = o.out(o.be.slice(o.arr(a), start, size))
  ctx.eq(r, loops(ctx, size, lambda i: a[tuple(x + y for x, y in zip(i, start))]), "slice")
  ctx.raises(ValueError, lambda: o.be.slice(o.arr(a), start, size + (1,)), "lengths differ")


def shapes(ctx, o, cplx):
  s = ctx.choice("shape", SHAPES)
  a = o.t(s, cplx)
  x = o.arr(a)
  ctx.check(tuple(o.be.shape_tuple(x)) == s, "shape_tuple")
  ctx.check(tuple(o.be.sparse_shape(x)) == s, "sparse_shape")
  ctx.check(tuple(int(v) for v in o.be.shape_tensor(x)) == s, "shape_tensor")
  if s:
    ctx.check(int(o.be.shape_prod(o.be.shape_tensor(x))) == int(np.prod(s)), "shape_prod")
    other = ctx.choice("other shape", [(2,), (3, 1)])
    r = o.be.shape_concat([o.be.shape_tensor(x), list(other)], axis=-1)
    ctx.check(tuple(int(v) for v in r) == s + other, "shape_concat")
  ctx.eq(o.out(o.be.convert_to_tensor(x)), a, "convert_to_tensor")


def outer(ctx, o, cplx):
  sa, sb = ctx.choice("shapes", [((2,), (3,)), ((), (2, 2)), ((2, 1), (2,)), ((2, 2), ()), ((), ()), ((2, 2), (1, 2))])
  a, b = o.t(sa, cplx), o.t(sb, cplx)
  r = o.out(o.be.outer_product(o.arr(a), o.arr(b)))
  ctx.eq(r, loops(ctx, sa + sb, lambda i: a[i[:len(sa)]] * b[i[len(sa):]]), "outer product")


EINSUMS = [("ij,jk->ik", [(2, 3), (3, 2)]), ("ij,jk", [(2, 3), (3, 2)]), ("ii->", [(2, 2)]), ("ii->i", [(2, 2)]), ("ij->ji", [(2, 3)]),
           ("i,i->i", [(2,), (2,)]), ("i,j->ji", [(2,), (3,)]), ("ij->", [(2, 3)]), ("ij->j", [(2, 3)]), ("aij,ajk->aik", [(2, 1, 2), (2, 2, 2)]),
           ("ij,jk,kl->il", [(2, 2), (2, 2), (2, 1)]), ("i,i,i->", [(2,), (2,), (2,)]), ("iij->j", [(2, 2, 2)]), ("ba", [(2, 3)]),
           ("ij,ij->", [(2, 2), (2, 2)])]


def einsum(ctx, o, cplx):
  expr, ss = ctx.choice("expression", EINSUMS)
  ts = [o.t(s, cplx) for s in ss]
  kw = ctx.choice("optimize", [{}, {"optimize": True}, {"optimize": False}])
  r = o.out(o.be.einsum(expr, *[o.arr(t) for t in ts], **kw))
  ins = expr.split("->")[0].split(",")
  if "->" in expr:
    out = expr.split("->")[1]
  else:
    joined = "".join(ins)
    out = "".join(c for c in sorted(set(joined)) if joined.count(c) == 1)
  dims = {c: d for lab, s in zip(ins, ss) for c, d in zip(lab, s)}
  inner = [c for c in dims if c not in out]

  def entry(k):
    fixed = dict(zip(out, k))

    def one(s):
      v = {**fixed, **dict(zip(inner, s))}
      p = 1
      for lab, t in zip(ins, ts):
        p = t[tuple(v[c] for c in lab)] * p
      return p
    return total(ctx, [one(s) for s in np.ndindex(*[dims[c] for c in inner])])
  ctx.eq(r, loops(ctx, [dims[c] for c in out], entry), "einsum")


def norm(ctx, o, cplx):
  s = ctx.choice("shape", [(2,), (2, 2), (1, 2, 2), (1,), ()])
  a = o.t(s, cplx)
  r = o.out(o.be.norm(o.arr(a)))
  ctx.check(r.size == 1, "norm is one number")
  r = r.reshape(())[()]
  n2 = total(ctx, [a[i] * np.conj(a[i]) for i in np.ndindex(*s)])
  ctx.eq(np.array([r * r]), np.array([n2]), "norm squared")
  ctx.check(r >= 0 if ctx.symbolic else np.real(r) >= 0, "norm is not negative")


def constants(ctx, o, cplx):
  n, m = ctx.pick("N", 1, 3), ctx.choice("M", [None, 1, 2, 4])
  dt = {"tensorflow": None}.get(o.B.name)
  if o.B.name == "tensorflow":
    import tensorflow as tf
    dt = tf.complex128 if cplx else tf.float64
  else:
    dt = np.complex128 if cplx else np.float64
  kw = ctx.choice("dtype", [{}, {"dtype": dt}])
  r = o.out(o.be.eye(n, M=m, **kw) if m is not None else o.be.eye(n, **kw))
  ctx.eq(r, loops(ctx, (n, m or n), lambda i: 1 if i[0] == i[1] else 0), "eye")
  s = ctx.choice("shape", [(2,), (2, 3), (1, 2, 2), ()])
  ctx.eq(o.out(o.be.ones(s, **kw)), loops(ctx, s, lambda i: 1), "ones")
  ctx.eq(o.out(o.be.zeros(s, **kw)), loops(ctx, s, lambda i: 0), "zeros")
  if not ctx.symbolic:
    want = "complex" if cplx and kw else "float"
    for x in (o.be.ones(s, **kw), o.be.zeros(s, **kw), o.be.eye(n, **kw)):
      ctx.check(want in str(np.asarray(getattr(x, "array", x)).dtype), "dtype")


BROAD = [((2, 3), (2, 3)), ((2, 3), (3,)), ((2, 3), (1, 3)), ((2, 1), (1, 3)), ((), (2, 2)), ((2,), ()), ((2, 1, 2), (2, 2))]


def arithmetic(ctx, o, cplx, op):
  sa, sb = ctx.choice("shapes", BROAD)
  a = o.t(sa, cplx)
  b = o.t(sb, cplx) if op != "divide" else o.t(sb, positive=True)
  if cplx and op == "divide":
    b = b * (1 + 0j) if not ctx.symbolic else b
  f = {"addition": lambda x, y: x + y, "subtraction": lambda x, y: x - y, "multiply": lambda x, y: x * y, "divide": lambda x, y: x / y}[op]
  r = o.out(getattr(o.be, op)(o.arr(a), o.arr(b)))
  shape = np.broadcast_shapes(sa, sb)

  def pick(t, i):
    k = i[len(i) - t.ndim:] if t.ndim else ()
    return t[tuple(0 if d == 1 else v for d, v in zip(t.shape, k))]
  if op == "divide":
    got = r * np.broadcast_to(b, shape) if r.shape == shape else r
    ctx.eq(got, loops(ctx, shape, lambda i: pick(a, i)), op)
  else:
    ctx.eq(r, loops(ctx, shape, lambda i: f(pick(a, i), pick(b, i))), op)


def elementwise(ctx, o, cplx):
  s = ctx.choice("shape", [(2,), (2, 2), ()])
  a = o.t(s, cplx)
  ctx.eq(o.out(o.be.conj(o.arr(a))), loops(ctx, s, lambda i: np.conj(a[i])), "conj")
  n = ctx.choice("exponent", [1, 2, 3])
  if not cplx:
    r = o.out(o.be.power(o.arr(a), n if o.B.name != "tensorflow" or ctx.symbolic else float(n)))
    ctx.eq(r, loops(ctx, s, lambda i: a[i] * a[i] * (a[i] if n == 3 else 1) if n > 1 else a[i]), "power")
    r = o.out(o.be.abs(o.arr(a)))
    sg = o.out(o.be.sign(o.arr(a)))
    ctx.eq(r * r, loops(ctx, s, lambda i: a[i] * a[i]), "abs")
    ctx.eq(sg * r, a, "sign times absolute value")
    for i in np.ndindex(*s):
      ctx.check(r[i] >= 0, "absolute value is not negative")
    p = o.t(s, positive=True)
    q = o.out(o.be.sqrt(o.arr(p)))
    ctx.eq(q * q, p, "sqrt")
    for i in np.ndindex(*s):
      ctx.check(q[i] >= 0, "sqrt is not negative")


def broadcast(ctx, o, cplx):
  s = ctx.choice("shape", [(2,), (2, 2), (2, 3), (3, 2), (2, 1, 2), (2, 2, 1, 2)])
  a = o.t(s, cplx)
  v, w = o.t((s[-1],), cplx), o.t((s[0],), cplx)
  r = o.out(o.be.broadcast_right_multiplication(o.arr(a), o.arr(v)))
  ctx.eq(r, loops(ctx, s, lambda i: a[i] * v[i[-1]]), "broadcast right")
  l = o.out(o.be.broadcast_left_multiplication(o.arr(w), o.arr(a)))
  ctx.eq(l, loops(ctx, s, lambda i: a[i] * w[i[0]]), "broadcast left")
  bad = o.t((2, 2), cplx)
  ctx.raises(ValueError, lambda: o.be.broadcast_right_multiplication(o.arr(a), o.arr(bad)), "only vectors")
  ctx.raises(ValueError, lambda: o.be.broadcast_left_multiplication(o.arr(bad), o.arr(a)), "only vectors")


def sum_(ctx, o, cplx):
  s = ctx.choice("shape", [(2,), (2, 3), (2, 1, 2)])
  a = o.t(s, cplx)
  axis = ctx.choice("axis", [None] + [c for k in range(1, len(s) + 1) for c in itertools.permutations(range(len(s)), k)])
  keep = ctx.choice("keepdims", [None, False, True])
  kw = {} if keep is None else {"keepdims": keep}
  if axis is not None:
    neg = [x - len(s) if ctx.choice(f"negative{k}", [False, True]) else x for k, x in enumerate(axis)]
    kw["axis"] = ctx.choice("form", [tuple, list])(neg)
  elif ctx.choice("axis given", [True, False]):
    kw["axis"] = None
  if o.B.name == "jax" and isinstance(kw.get("axis"), list):
    kw["axis"] = tuple(kw["axis"])
  r = o.out(o.be.sum(o.arr(a), **kw))
  gone = range(len(s)) if axis is None else axis
  rest = [k for k in range(len(s)) if k not in gone]

  def entry(i):
    fix = dict(zip(rest, i))
    idx = [[fix[k]] if k in fix else range(s[k]) for k in range(len(s))]
    return total(ctx, [a[j] for j in itertools.product(*idx)])
  want = loops(ctx, [s[k] for k in rest], entry)
  if keep:
    want = want.reshape([1 if k in gone else d for k, d in enumerate(s)])
  ctx.eq(r, want, "sum")


def matmul(ctx, o, cplx):
  sa, sb = ctx.choice("shapes", [((2, 3), (3, 2)), ((1, 2), (2, 1)), ((2, 2, 3), (2, 3, 1)), ((2, 1, 2), (2, 3)), ((2, 2), (2, 2, 1)),
                                 ((2, 1, 1, 2), (1, 2, 2, 1))])
  a, b = o.t(sa, cplx), o.t(sb, cplx)
  r = o.out(o.be.matmul(o.arr(a), o.arr(b)))
  bs = np.broadcast_shapes(sa[:-2], sb[:-2])

  def at(t, i, x, y):
    k = i[len(i) - (t.ndim - 2):] if t.ndim > 2 else ()
    return t[tuple(0 if d == 1 else v for d, v in zip(t.shape, k)) + (x, y)]
  ctx.eq(r, loops(ctx, bs + (sa[-2], sb[-1]), lambda i: total(ctx, [at(a, i[:-2], i[-2], k) * at(b, i[:-2], k, i[-1]) for k in range(sa[-1])])),
         "matmul")
  v = o.t((2,), cplx)
  ctx.raises(ValueError, lambda: o.be.matmul(o.arr(v), o.arr(b)), "vectors are rejected")
  ctx.raises(ValueError, lambda: o.be.matmul(o.arr(a), o.arr(v)), "vectors are rejected")


def diag(ctx, o, cplx):
  tf_ = o.B.name == "tensorflow"
  s = ctx.choice("shape", [(2, 2), (2, 3), (3, 2), (2, 2, 3), (1, 3), (2, 1, 2, 2)])
  a = o.t(s, cplx)
  nd = len(s)
  pairs = [(-2, -1)] + [(i, j) for i in range(-nd, nd) for j in range(-nd, nd) if i % nd != j % nd and nd < 4]
  ax = ctx.choice("axes", pairs)
  off = ctx.choice("offset", [0, 1, -1, 2, -2])
  x, y = ax[0] % nd, ax[1] % nd
  rest = [k for k in range(nd) if k not in (x, y)]
  n = max(0, min(s[x], s[y] - off) if off >= 0 else min(s[x] + off, s[y]))
  kw = {}
  if ax != (-2, -1):
    kw.update(axis1=ax[0], axis2=ax[1])
  if off or ctx.choice("offset given", [True, False]):
    kw["offset"] = off

  def at(i, k):
    j = [0] * nd
    for p, v in zip(rest, i):
      j[p] = v
    j[x], j[y] = (k, k + off) if off >= 0 else (k - off, k)
    return a[tuple(j)]
  batch = [s[k] for k in rest]
  if n > 0 and not (tf_ and ax != (-2, -1)):
    r = o.out(o.be.diagonal(o.arr(a), **kw))
    ctx.eq(r, loops(ctx, batch + [n], lambda i: at(i[:-1], i[-1])), "diagonal")
  if not (tf_ and (off or s[x] != s[y])):
    r = o.out(o.be.trace(o.arr(a), **kw))
    ctx.eq(r, loops(ctx, batch, lambda i: total(ctx, [at(i, k) for k in range(n)])), "trace")


def diagflat(ctx, o, cplx):
  s = ctx.choice("shape", [(2,), (1,), (2, 2), (3,), (1, 2)])
  a = o.t(s, cplx)
  k = ctx.choice("k", [None, 0, 1, -1, 2, -2])
  r = o.out(o.be.diagflat(o.arr(a)) if k is None else o.be.diagflat(o.arr(a), k=k))
  k = k or 0
  flat = [a[i] for i in np.ndindex(*s)]
  n = len(flat) + abs(k)
  ctx.eq(r, loops(ctx, (n, n), lambda i: flat[min(i)] if i[1] - i[0] == k and min(i) < len(flat) else 0), "diagflat")


def pivot(ctx, o, cplx):
  s = ctx.choice("shape", [(2,), (2, 3), (2, 1, 2), (1, 2, 2, 3)])
  a = o.t(s, cplx)
  p = ctx.pick("pivot_axis", -len(s), len(s))
  q = ctx.choice("given", [True, False])
  if not q:
    p = -1
  m = o.out(o.be.pivot(o.arr(a), pivot_axis=p) if q else o.be.pivot(o.arr(a)))
  k = p % len(s) if p < len(s) else len(s)
  l, r = int(np.prod(s[:k])), int(np.prod(s[k:]))
  flat = [a[i] for i in np.ndindex(*s)]
  ctx.eq(m, loops(ctx, (l, r), lambda i: flat[i[0] * r + i[1]]), "pivot")
  ctx.raises(ValueError, lambda: o.be.pivot(o.arr(a), pivot_axis=len(s) + 1), "pivot out of range")


def item(ctx, o, cplx):
  s = ctx.choice("shape", [(), (1,), (1, 1), (1, 1, 1)])
  a = o.t(s, cplx)
  r = o.out(o.be.item(o.arr(a)))
  ctx.eq(r.reshape(-1), a.reshape(-1), "item")
  ctx.check(r.shape == (), "item is a number")
  b = o.t((2,), cplx)
  ctx.raises(ValueError, lambda: o.be.item(o.arr(b)), "more than one entry")


def inverse(ctx, o, cplx):
  n = ctx.pick("n", 1, 2)
  a = o.t((n, n), cplx)
  x = o.out(o.be.inv(o.arr(a)))
  ctx.eq(x @ a, np.eye(n), "inverse")
  t = o.t((2, 2, 2), cplx)
  ctx.raises(ValueError, lambda: o.be.inv(o.arr(t)), "only matrices")


def eigh(ctx, o, cplx):
  n = ctx.pick("n", 1, 3)
  m = o.t((n, n), cplx)
  h = m + np.conj(m.T)
  w, v = o.be.eigh(o.arr(h))
  w, v = o.out(w), o.out(v)
  ctx.eq((v * w) @ np.conj(v.T), h, "eigenvectors are columns and belong to the eigenvalues")
  ctx.eq(np.conj(v.T) @ v, np.eye(n), "orthonormal")


def index_update(ctx, o, cplx):
  s = ctx.choice("shape", [(2,), (3,), (2, 2)])
  a = o.t(s, cplx)
  v = o.t((), cplx)
  mask = np.zeros(s, dtype=bool)
  for i in np.ndindex(*s):
    mask[i] = ctx.choice(f"mask{list(i)}", [False, True])
  x = o.B.arr(a)
  r = o.out(o.be.index_update(x, mask, o.arr(v) if ctx.symbolic else o.B.arr(v)))
  ctx.eq(r, loops(ctx, s, lambda i: v[()] if mask[i] else a[i]), "index_update")


def scenarios(tier):
  out = []

  def add(what, fn, b, cplx, *args):
    def run(ctx):
      with shims.on(ctx, b) as B:
        o = Op(ctx, B)
        fn(ctx, o, cplx, *args)
        o.unchanged()
    out.append(Scenario(f"{what} {b} {'c' if cplx else 'r'}" + "".join(f" {x}" for x in args), run))

  for b in BACKENDS:
    for cplx in (False, True):
      for k in range(len(PAIRS)):
        add("tensordot", tensordot, b, cplx, k, "backend")
        if b == "tensorflow" and k != 4 and k != 5:
          add("tensordot", tensordot, b, cplx, k, "tensordot2")
      for fn in (reshape, transpose, slice_, shapes, outer, einsum, norm, constants, elementwise, broadcast, sum_, matmul, diag,
                 diagflat, pivot, item, inverse, eigh, index_update):
        add(fn.__name__.strip("_"), fn, b, cplx)
      for op in ("addition", "subtraction", "multiply", "divide"):
        add("arithmetic", arithmetic, b, cplx, op)
  return out
