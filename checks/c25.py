"""C25: the Tensor API, ncon builders and node linear algebra."""
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork.linalg import node_linalg, initialization
from runner import Scenario
import shims
import sym
from sym import S
import c24
from c24 import Op, loops, total

BOUNDS = ("tn.Tensor methods, operators (Tensor with Tensor, with numbers and reflected) and functions, ncon builders of up to three tensors "
          "and node conj/transpose/kron/norm/eye/zeros/ones on tensors of rank 0 to 4 with dimensions 1 to 3, arbitrary real or complex "
          "entries, every permutation, axes list, slice, pivot and offset within those shapes; NumPy, JAX and TensorFlow backends given by "
          "name, object or default; every pair of different backends for the refusals")
OUTSIDE = "rounding, dtype promotion; sin, cos, exp, log, expm, random tensors; svd, qr, rq (C08, C26); PyTorch (C31)"
ASSUMPTIONS = ["jax.numpy and TensorFlow functions compute what lib/shims.py says", "LAPACK's eigh and inverse satisfy their contracts"]
BACKENDS = ("numpy", "jax", "tensorflow")
shims.preload(BACKENDS)


class Api:
  """the backend functions as the Tensor API offers them (methods or functions: `ctx` chooses)"""

  def __init__(self, ctx, name):
    self.ctx, self.name = ctx, name

  def both(self, label, *fs):
    return fs[self.ctx.pick(f"via {label}", 0, len(fs) - 1)]

  def tensordot(self, a, b, axes):
    return tn.tensordot(a, b, axes)

  def reshape(self, a, s):
    return self.both("reshape", lambda: tn.reshape(a, s), lambda: a.reshape(s))()

  def transpose(self, a, perm=None):
    return self.both("transpose", lambda: tn.linalg.operations.transpose(a, perm) if perm is not None else tn.linalg.operations.transpose(a),
                     lambda: a.transpose(perm=perm), lambda: a.transpose() if perm is None else a.transpose(perm),
                     lambda: a.T if perm is None else a.transpose(perm))()

  def slice(self, a, start, size):
    return tn.take_slice(a, start, size)

  def outer_product(self, a, b):
    return tn.outer(a, b)

  def einsum(self, expr, *ts, optimize=True):
    return tn.linalg.operations.einsum(expr, *ts, optimize=optimize)

  def norm(self, a):
    return tn.norm(a) if isinstance(a, tn.Node) else tn.linalg.linalg.norm(a)

  def eye(self, n, M=None, **kw):
    return tn.eye(n, M=M, backend=self.name, **kw)

  def ones(self, s, **kw):
    return tn.ones(s, backend=self.name, **kw)

  def zeros(self, s, **kw):
    return tn.zeros(s, backend=self.name, **kw)

  def addition(self, a, b):
    return a + b

  def subtraction(self, a, b):
    return a - b

  def multiply(self, a, b):
    return a * b

  def divide(self, a, b):
    return a / b

  def matmul(self, a, b):
    return a @ b

  def diagonal(self, a, **kw):
    return tn.diagonal(a, **kw)

  def trace(self, a, **kw):
    if self.ctx.symbolic and isinstance(a.array, np.ndarray) and not np.diagonal(
        a.array, kw.get("offset", 0), kw.get("axis1", -2), kw.get("axis2", -1)).shape[-1]:
      # numpy's sum of no objects is the Python number 0 (of no floats: an array)
      return a.backend.trace(a.array, **kw)
    return tn.trace(a, **kw)

  def diagflat(self, a, **kw):
    return tn.diagflat(a, **kw)

  def pivot(self, a, **kw):
    return tn.pivot(a, **kw)

  def inv(self, a):
    return tn.inv(a)

  def eigh(self, a):
    return tn.eigh(a)

  def conj(self, a):
    return self.both("conj", lambda: tn.linalg.operations.conj(a), lambda: a.conj(), lambda: a.conjugate())()

  def sqrt(self, a):
    return tn.sqrt(a)

  def abs(self, a):
    return tn.abs(a)

  def sign(self, a):
    return tn.sign(a)

  def power(self, a, n):
    p = a
    for _ in range(int(n) - 1):
      p = p * a
    return p


class TOp(Op):

  def __init__(self, ctx, B):
    super().__init__(ctx, B)
    self.be = Api(ctx, B.name)
    self.tensors = []

  def wrap(self, x):
    how = self.n % 3
    with tn.DefaultBackend(self.B.name):
      return tn.Tensor(x, backend=None if how == 0 else self.B.name if how == 1 else self.B.backend)

  def arr(self, a):
    x = self.wrap(super().arr(a))
    self.tensors.append((x, np.array(a)))
    return x

  def out(self, x):
    if isinstance(x, tn.Tensor):
      r = np.asarray(self.B.out(x.array))
      self.ctx.check(x.backend.name == self.B.name, "the result has the backend of the operands")
      self.ctx.check(tuple(x.shape) == r.shape and x.ndim == r.ndim and int(x.size) == int(np.prod(r.shape)), "shape, ndim and size")
      return r
    return np.asarray(self.B.out(x))

  def unchanged(self):
    super().unchanged()
    for x, a in self.tensors:
      self.ctx.eq(self.out(x), a, "operands are not modified")


def methods(ctx, o, cplx):
  """H, hconj, flatten, ravel, squeeze, copy"""
  s = ctx.choice("shape", [(), (2,), (1,), (2, 3), (2, 1, 2), (1, 2, 1), (1, 1)])
  a = o.t(s, cplx)
  x = o.arr(a)
  n = int(np.prod(s))
  rev = list(range(len(s)))[::-1]
  ctx.eq(o.out(x.H), np.conj(a).transpose(rev), "H")
  ctx.eq(o.out(x.T), a.transpose(rev), "T")
  if s:
    p = ctx.perm("perm", len(s))
    f = ctx.choice("hconj", [lambda: x.hconj(p), lambda: x.hconj(perm=p), lambda: tn.hconj(x, p)])
    ctx.eq(o.out(f()), np.conj(a).transpose(p), "hconj")
  ctx.eq(o.out(x.hconj()), np.conj(a).transpose(rev), "hconj")
  ctx.eq(o.out(tn.hconj(x)), np.conj(a).transpose(rev), "hconj")
  ctx.eq(o.out(x.ravel()), a.reshape(n), "ravel")
  f = x.flatten()
  ctx.eq(o.out(f), a.reshape(n), "flatten")
  ctx.eq(o.out(x.squeeze()), a.reshape([d for d in s if d != 1]), "squeeze")
  c = x.copy()
  ctx.check(c is not x, "copy is a new Tensor")
  ctx.eq(o.out(c), a, "copy")
  ctx.check(tn.shape(x) == s and tuple(x.shape) == s, "shape")
  if o.B.name == "numpy":
    ctx.check(x.dtype == x.array.dtype, "dtype")
    if n:
      ctx.check(not np.shares_memory(c.array, x.array) and not np.shares_memory(f.array, x.array), "copies are independent")


def numbers(ctx, o, cplx):
  """arithmetic with numbers on either side"""
  s = ctx.choice("shape", [(2,), (2, 2), ()])
  a = o.t(s, cplx)
  x = o.arr(a)
  kind = ctx.choice("number", ["int", "float", "complex"])
  if kind == "complex" and (not cplx or o.B.name == "tensorflow" and not cplx):
    return
  v = {"int": 3, "float": -0.5, "complex": 2 - 0.5j}[kind]
  if o.B.name == "tensorflow" and kind == "int":
    v = 3.0
  w = S.lift(v) if ctx.symbolic else v
  each = lambda f: loops(ctx, s, lambda i: f(a[i]))
  ctx.eq(o.out(x + v), each(lambda y: y + w), "Tensor + number")
  ctx.eq(o.out(v + x), each(lambda y: y + w), "number + Tensor")
  ctx.eq(o.out(x - v), each(lambda y: y - w), "Tensor - number")
  ctx.eq(o.out(v - x), each(lambda y: w - y), "number - Tensor")
  ctx.eq(o.out(x * v), each(lambda y: y * w), "Tensor * number")
  ctx.eq(o.out(v * x), each(lambda y: y * w), "number * Tensor")
  ctx.eq(o.out(x / v) * v, a, "Tensor / number")


def refused(ctx, o, cplx):
  """operands of different backends"""
  other = ctx.choice("other backend", [b for b in BACKENDS if b != o.B.name])
  x = o.arr(o.t((2, 2)))
  y = tn.Tensor(np.ones((2, 2)), backend="numpy") if other == "numpy" else None
  if y is None:
    # the array itself does not matter: the operands have to be refused before it is used
    y = tn.Tensor(np.ones((2, 2)), backend="numpy")
    y.backend = tn.backends.backend_factory.get_backend(other)
  first = ctx.choice("order", [False, True])
  u, v = (x, y) if first else (y, x)
  for f, what in ((lambda: u + v, "+"), (lambda: u - v, "-"), (lambda: u * v, "*"), (lambda: u / v, "/"), (lambda: u @ v, "@"),
                  (lambda: tn.tensordot(u, v, 1), "tensordot"), (lambda: tn.outer(u, v), "outer"), (lambda: tn.kron(u, v), "kron"),
                  (lambda: tn.linalg.operations.einsum("ij,jk->ik", u, v, optimize=True), "einsum"),
                  (lambda: tn.linalg.operations.einsum("ij,jk,kl->il", u, u, v, optimize=True), "einsum of three"),
                  (lambda: tn.ncon([u, v], [[-1, 1], [1, -2]]), "ncon"),
                  (lambda: tn.finalize(u(-1, 1) @ v(1, -2)), "ncon builder")):
    ctx.raises(ValueError, f, f"{what} with operands of different backends")


KRON = [((2, 3), (3, 2)), ((2, 1, 3, 2), (2, 2)), ((), (2, 2)), ((), ()), ((2, 2), (2, 1, 1, 2)), ((1, 2), (3, 1))]


def kron(ctx, o, cplx):
  sa, sb = ctx.choice("shapes", KRON)
  a, b = o.t(sa, cplx), o.t(sb, cplx)
  p, q = len(sa) // 2, len(sb) // 2
  r = o.out(tn.kron(o.arr(a), o.arr(b)))
  shape = sa[:p] + sb[:q] + sa[p:] + sb[q:]
  ctx.eq(r, loops(ctx, shape, lambda i: a[i[:p] + i[p + q:2 * p + q]] * b[i[p:p + q] + i[2 * p + q:]]), "kron")
  odd = o.arr(o.t((2,), cplx))
  ctx.raises(ValueError, lambda: tn.kron(odd, o.arr(b)), "odd order")
  ctx.raises(ValueError, lambda: tn.kron(o.arr(a), odd), "odd order")


def builder(ctx, o, cplx):
  """a(1, -1) @ b(..) builders contract like ncon"""
  sa, sb, sc = (2, 2), (2, 2), (2,)
  a, b, c = o.t(sa, cplx), o.t(sb, cplx), o.t(sc, cplx)
  A, B_, C = o.arr(a), o.arr(b), o.arr(c)
  la = ctx.choice("labels a", [[-1, 1], [1, -1], [1, 2]])
  lb = {-2: None}
  if la == [1, 2]:
    lb = ctx.choice("labels b", [[1, 2], [2, 1], [2, 3], [3, 2]])
  else:
    lb = ctx.choice("labels b", [[1, -2], [-2, 1], [1, 2], [2, 1]])
  used = la + lb
  rest = [l for l in (1, 2, 3) if used.count(l) == 1]
  lc = rest[:1] if rest else [-3 if -2 in used else -2 if -1 in used else -1]
  if len(rest) == 2:
    ls = [la, lb, rest[:1], rest[1:]]
    ts, rs = [A, B_, C, C], [a, b, c, c]
  else:
    ls, ts, rs = [la, lb, lc], [A, B_, C], [a, b, c]
  group = ctx.choice("grouping", ["left", "right"])
  nb = [t(*l) for t, l in zip(ts, ls)]
  if group == "left":
    x = nb[0]
    for y in nb[1:]:
      x = x @ y
  else:
    x = nb[-1]
    for y in nb[-2::-1]:
      x = y @ x
  before = [list(y.axes) for y in nb]
  r = o.out(tn.finalize(x))
  ctx.check([list(y.axes) for y in nb] == before and all(len(y.tensors) == 1 for y in nb), "builders are not modified")
  ctx.eq(r, labelled(ctx, rs, ls), "builder")
  r2 = tn.ncon(ts, ls, backend=o.B.name)
  ctx.check(isinstance(r2, tn.Tensor), "ncon of Tensors is a Tensor")
  ctx.eq(o.out(r2), labelled(ctx, rs, ls), "ncon of Tensors")


def labelled(ctx, ts, ls):
  labels = sorted({x for l in ls for x in l}, key=lambda x: (x > 0, abs(x)))
  dims = {x: d for l, t in zip(ls, ts) for x, d in zip(l, t.shape)}
  out = [x for x in labels if x < 0]
  inner = [x for x in labels if x > 0]

  def entry(k):
    fixed = dict(zip(out, k))
    terms = []
    for s in np.ndindex(*[dims[x] for x in inner]):
      v = {**fixed, **dict(zip(inner, s))}
      p = 1
      for l, t in zip(ls, ts):
        p = t[tuple(v[x] for x in l)] * p
      terms.append(p)
    return total(ctx, terms)
  return loops(ctx, [dims[x] for x in out], entry)


def likes(ctx, o, cplx):
  """ones_like and zeros_like of Tensors and arrays"""
  s = ctx.choice("shape", [(2,), (2, 3), (1, 2, 2), ()])
  a = o.t(s, cplx)
  kind = ctx.choice("given", ["Tensor", "array", "Tensor and backend"])
  which = ctx.choice("function", [initialization.ones_like, initialization.zeros_like])
  v = 1 if which is initialization.ones_like else 0
  if kind == "array":
    x = o.B.arr(a)
    how = ctx.choice("backend", ["name", "object", "default"])
    if how == "default":
      with tn.DefaultBackend(o.B.name):
        r = which(x)
    else:
      r = which(x, backend=o.B.name if how == "name" else o.B.backend)
  elif kind == "Tensor":
    r = which(o.arr(a))
  else:
    r = which(o.arr(a), backend=o.B.name)
  ctx.eq(o.out(r), loops(ctx, s, lambda i: v), "entries")


class NOp(Op):
  """nodes"""

  def node(self, a, names=None, name=None):
    x = tn.Node(super().arr(a), backend=self.B.name, axis_names=names, name=name)
    return x

  def val(self, n):
    self.ctx.check(n.backend.name == self.B.name, "backend of the node")
    r = np.asarray(self.B.out(n.tensor))
    self.ctx.check(tuple(n.shape) == r.shape and len(n.edges) == r.ndim and
                   all(e.node1 is n and e.axis1 == k and e.node2 is None for k, e in enumerate(n.edges)), "one dangling edge per axis")
    return r


def nodes(ctx, o, cplx):
  """norm, conj and transpose of nodes"""
  s = ctx.choice("shape", [(2,), (2, 3), (2, 1, 3), ()])
  a = o.t(s, cplx)
  names = [f"ax{k}" for k in range(len(s))]
  n = o.node(a, names if ctx.choice("named", [False, True]) else None)
  old = list(n.axis_names)
  edges = list(n.edges)
  c = node_linalg.conj(n)
  ctx.eq(o.val(c), np.conj(a), "conj")
  ctx.check(list(c.axis_names) == old, "conj keeps the axis names")
  c = node_linalg.conj(n, name="c", axis_names=[x + "'" for x in old])
  ctx.check(c.name == "c" and list(c.axis_names) == [x + "'" for x in old], "given names")
  r = node_linalg.norm(n)
  r = np.asarray(o.B.out(r)).reshape(())[()]
  ctx.eq(np.array([r * r]), np.array([total(ctx, [a[i] * np.conj(a[i]) for i in np.ndindex(*s)])]), "norm")
  if s:
    p = ctx.perm("permutation", len(s))
    how = ctx.choice("given as", ["numbers", "names", "negative"])
    if how == "negative":
      q = [x - len(s) for x in p]
      try:
        n.get_axis_number(-1)
      except ValueError:
        q = p
      q = p
    else:
      q = [old[x] for x in p] if how == "names" else p
    t = node_linalg.transpose(n, q)
    ctx.eq(o.val(t), a.transpose(p), "transpose")
    ctx.check(list(t.axis_names) == [old[x] for x in p], "transpose permutes the axis names")
    t = node_linalg.transpose(n, q, name="t", axis_names=[f"new{k}" for k in range(len(s))])
    ctx.eq(o.val(t), a.transpose(p), "transpose")
    ctx.check(t.name == "t", "name")
    ctx.check(list(t.axis_names) == [f"new{k}" for k in range(len(s))], "transpose gives the axes the requested names")
  ctx.eq(o.val(n), a, "the node keeps its tensor")
  ctx.check(list(n.axis_names) == old and all(x is y for x, y in zip(edges, n.edges)), "the node keeps its axis names and edges")


def node_kron(ctx, o, cplx):
  opts = [[(2, 3)], [(2, 3), (3, 1)], [(2, 1, 3, 2), (2, 2)], [(2, 2), (2, 1), (1, 3)], [(), (2, 2)]]
  ss = ctx.choice("shapes", opts)
  ts = [o.t(s, cplx) for s in ss]
  ns = [o.node(t) for t in ts]
  ins = [e for n, s in zip(ns, ss) for e in n.edges[:len(s) // 2]]
  outs = [e for n, s in zip(ns, ss) for e in n.edges[len(s) // 2:]]
  r = node_linalg.kron(ns)
  lab, k = [], 0
  for s in ss:
    lab.append(list(range(k, k + len(s))))
    k += len(s)
  order = [x for l in lab for x in l[:len(l) // 2]] + [x for l in lab for x in l[len(l) // 2:]]
  dims = [d for s in ss for d in s]

  def entry(i):
    v = dict(zip(order, i))
    p = 1
    for l, t in zip(lab, ts):
      p = t[tuple(v[x] for x in l)] * p
    return p
  ctx.eq(o.val(r), loops(ctx, [dims[x] for x in order], entry), "kron")
  ctx.check(len(ins + outs) == len(r.edges) and all(x is y for x, y in zip(ins + outs, r.edges)), "the edges of the operands, inputs first")
  odd = o.node(o.t((2,), cplx))
  ctx.raises(ValueError, lambda: node_linalg.kron([odd, o.node(o.t((2, 2), cplx))]), "odd order")


def node_init(ctx, o, cplx):
  n, m = ctx.pick("N", 1, 3), ctx.choice("M", [None, 1, 2])
  how = ctx.choice("backend", ["name", "object", "default"])
  be = {"name": o.B.name, "object": o.B.backend, "default": None}[how]
  names = ctx.choice("names", [None, ["left", "right"]])
  with tn.DefaultBackend(o.B.name if ctx.choice("context", ["name", "object"]) == "name" else o.B.backend):
    e = node_linalg.eye(n, M=m, backend=be, axis_names=names, name="I")
    z = node_linalg.zeros((2, n), backend=be, axis_names=names, name="Z")
    u = node_linalg.ones((2, n), backend=be, axis_names=names, name="U")
  ctx.eq(o.val(e), loops(ctx, (n, m or n), lambda i: 1 if i[0] == i[1] else 0), "eye")
  ctx.eq(o.val(z), loops(ctx, (2, n), lambda i: 0), "zeros")
  ctx.eq(o.val(u), loops(ctx, (2, n), lambda i: 1), "ones")
  for x, nm in ((e, "I"), (z, "Z"), (u, "U")):
    ctx.check(x.name == nm and list(x.axis_names) == (names or ["0", "1"]), "names")


def scenarios(tier):
  out = []

  def add(what, fn, b, cplx, *args, kind=TOp):
    def run(ctx):
      with shims.on(ctx, b) as B:
        o = kind(ctx, B)
        fn(ctx, o, cplx, *args)
        o.unchanged()
    out.append(Scenario(f"{what} {b} {'c' if cplx else 'r'}" + "".join(f" {x}" for x in args), run))

  for b in BACKENDS:
    for cplx in (False, True):
      for k in range(len(c24.PAIRS)):
        add("tensordot", c24.tensordot, b, cplx, k, "backend")
      for fn in (c24.reshape, c24.transpose, c24.slice_, c24.outer, c24.einsum, c24.norm, c24.constants, c24.elementwise, c24.matmul,
                 c24.diag, c24.diagflat, c24.pivot, c24.inverse, c24.eigh, methods, numbers, kron, builder, likes):
        add(fn.__name__.strip("_"), fn, b, cplx)
      for op in ("addition", "subtraction", "multiply", "divide"):
        add("arithmetic", c24.arithmetic, b, cplx, op)
      for fn in (nodes, node_kron, node_init):
        add(fn.__name__, fn, b, cplx, kind=NOp)
    add("refused", refused, b, False)
  return out
