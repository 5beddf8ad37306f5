"""Symbolic charges: integer arrays whose entries are linear expressions over solver integers.

Comparisons fork the path through the engine; everything else (sorting, uniqueness, views that pack several small integers
into a larger one) is carried out on the symbolic entries. `on(ctx)` makes the block-sparse modules of tensornetwork accept
such arrays: np.asarray/np.array keep the subclass, the rest of numpy is used as it is."""
import importlib
import numpy as np
import z3
import sym
from sym import S, Unsupported

SMALL = (0, 1, -1, 2, -2, 3)  # the constants used next to symbols where bytes matter
BOUND = 1000  # largest absolute value of a charge given as input

MODULES = ["tensornetwork.block_sparse." + m for m in
           ("charge", "utils", "index", "blocksparse_utils", "blocksparsetensor", "linalg", "initialization", "caching")] + [
               "tensornetwork.backends.symmetric.symmetric_backend", "tensornetwork.backends.symmetric.decompositions"]


class Q:
  """c + sum of coefficients times solver integers"""
  __slots__ = ("lin", "c")
  __array_priority__ = 1000

  def __init__(self, lin, c=0):
    self.lin = lin  # sorted tuple of (name, coefficient)
    self.c = c

  def _co(self, o):
    if isinstance(o, Q):
      return o
    if isinstance(o, (int, np.integer)) and not isinstance(o, bool):
      return Q((), int(o))
    return None

  def _add(self, o, s):
    o = self._co(o)
    if o is None:
      return NotImplemented
    d = dict(self.lin)
    for k, v in o.lin:
      d[k] = d.get(k, 0) + s * v
    return Q(tuple(sorted((k, v) for k, v in d.items() if v)), self.c + s * o.c)

  def __add__(self, o):
    return self._add(o, 1)

  __radd__ = __add__

  def __sub__(self, o):
    return self._add(o, -1)

  def __neg__(self):
    return Q(tuple((k, -v) for k, v in self.lin), -self.c)

  def __rsub__(self, o):
    return (-self)._add(o, 1)

  def __mul__(self, o):
    if not isinstance(o, (int, np.integer)):
      return NotImplemented
    o = int(o)
    return Q(tuple((k, v * o) for k, v in self.lin) if o else (), self.c * o)

  __rmul__ = __mul__

  def bound(self):
    return abs(self.c) + BOUND * sum(abs(v) for _, v in self.lin)

  def z3(self):
    e = z3.IntVal(self.c)
    for k, v in self.lin:
      e = e + v * z3.Int(k)
    return e

  def value(self):
    """int if constant"""
    return self.c if not self.lin else None

  def _cmp(self, o, what):
    d = self._add(o, -1)
    if d is NotImplemented:
      return d
    if not d.lin:
      return d.c == 0 if what == "eq" else d.c < 0
    return decide(d, what)

  def __eq__(self, o):
    if self is o:
      return True
    return self._cmp(o, "eq")

  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else not r

  def __lt__(self, o):
    return self._cmp(o, "lt")

  def __gt__(self, o):
    return (-self)._cmp(-self._co(o), "lt")

  def __ge__(self, o):
    return not self < o

  def __le__(self, o):
    return not self > o

  def __hash__(self):
    raise Unsupported("hash of a symbolic charge")

  def __int__(self):
    if not self.lin:
      return self.c
    return sym.ENG.concretise(self.z3())

  __index__ = __int__

  def __float__(self):
    return float(int(self))

  def __bool__(self):
    return not self == 0

  def __repr__(self):
    return "Q(" + " + ".join(f"{v}*{k}" for k, v in self.lin) + (f" + {self.c}" if self.c or not self.lin else "") + ")"

  __str__ = __repr__


def decide(d, what):
  """d == 0 or d < 0 on this path (remembered)"""
  eng = sym.ENG
  memo = eng.__dict__.setdefault("qmemo", {})
  lin, c, neg = d.lin, d.c, False
  if lin[0][1] < 0:
    lin, c, neg = tuple((k, -v) for k, v in lin), -c, True
  key = (lin, c)
  m = memo.setdefault(key, [None, None])  # is zero, sign (1/-1) if known not to be zero
  if m[0] is None and m[1] is None:
    e = Q(lin, c).z3()
    m[0] = eng.fork(e == 0)
  if m[0]:
    return what == "eq"
  if what == "eq":
    return False
  if m[1] is None:
    m[1] = -1 if eng.fork(Q(lin, c).z3() < 0) else 1
  return (m[1] < 0) != neg


class P:
  """several small integers viewed as one larger integer (little endian): most significant (signed) first, then unsigned"""
  __slots__ = ("parts", "bits")
  __array_priority__ = 1000

  def __init__(self, parts, bits):
    self.parts = parts
    self.bits = bits

  def _co(self, o):
    if isinstance(o, P):
      return o
    if isinstance(o, (int, np.integer)):
      return P(tuple(split_int(int(o), len(self.parts), self.bits)[::-1]), self.bits)
    return None

  def __eq__(self, o):
    o = self._co(o)
    if o is None:
      return NotImplemented
    return all(same(a, b) for a, b in zip(self.parts, o.parts))

  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else not r

  def __lt__(self, o):
    o = self._co(o)
    for i, (a, b) in enumerate(zip(self.parts, o.parts)):
      if same(a, b):
        continue
      if i and self.bits:
        na, nb = bool(a < 0), bool(b < 0)
        if na != nb:
          return nb
      return bool(a < b)
    return False

  def __gt__(self, o):
    return self._co(o) < self

  def __le__(self, o):
    return not self > o

  def __ge__(self, o):
    return not self < o

  __hash__ = None

  def __repr__(self):
    return f"P{self.parts}"


def form(x):
  """syntactic form; equal forms are equal values"""
  if isinstance(x, Q):
    return (x.lin, x.c)
  if isinstance(x, P):
    return (x.bits,) + tuple(form(y) for y in x.parts)
  return ((), int(x))


def same(a, b):
  return a is b or bool(a == b)


def split_int(v, n, bits):
  out = []
  for _ in range(n):
    low = v & ((1 << bits) - 1)
    out.append(low - (1 << bits) if low >> (bits - 1) else low)
    v >>= bits
  return out


class CArr(np.ndarray):
  """object array of integers that stands for an array of dtype `idt`"""
  __array_priority__ = 50

  def __array_finalize__(self, obj):
    self.idt = getattr(obj, "idt", np.dtype(np.int16))

  def __array_wrap__(self, a, context=None, return_scalar=False):
    b = np.ndarray.dtype.__get__(a)
    if b != object:
      a = np.asarray(a)
      return a[()] if return_scalar and a.ndim == 0 else a
    r = a.view(CArr) if not isinstance(a, CArr) else a
    if isinstance(r, np.ndarray) and np.ndarray.dtype.__get__(r) == object:
      r.idt = self.idt
    if return_scalar and r.ndim == 0:
      return np.asarray(r)[()]
    return r

  @property
  def dtype(self):
    b = np.ndarray.dtype.__get__(self)
    return self.idt if b == object else b

  @property
  def issym(self):
    return np.ndarray.dtype.__get__(self) == object

  @property
  def itemsize(self):
    return self.dtype.itemsize

  def astype(self, t, *a, **k):
    if not self.issym:
      return np.asarray(self).astype(t, *a, **k)
    t = np.dtype(t)
    if t == object:
      return self.copy()
    if t == bool:
      return np.array([bool(x != 0) for x in self.flat], dtype=bool).reshape(self.shape)
    if t.kind not in "iu":
      raise Unsupported(f"charges as {t}")
    top = np.iinfo(t).max
    low = np.iinfo(t).min
    if any(hasattr(x, "resize") for x in self.flat):
      r = np.empty(self.shape, dtype=object).view(CArr)
      for i in np.ndindex(*self.shape):
        x = np.ndarray.__getitem__(self, i)
        r[i] = x.resize(8 * t.itemsize) if hasattr(x, "resize") else t.type(x)
      r.idt = t
      return r
    for x in self.flat:
      if isinstance(x, Q):
        if x.bound() > top or -x.bound() < low:
          raise Unsupported("charge might not fit its dtype")
      elif isinstance(x, P):
        pass
      elif not low <= x <= top:
        raise Unsupported("charge does not fit its dtype")
    r = np.array(self, copy=True, subok=True)
    r.idt = t
    return r

  def view(self, t=None, *a):
    if t is None or t is CArr or isinstance(t, type) and issubclass(t, np.ndarray):
      return super().view(*([t] if t is not None else []))
    if not self.issym:
      return np.asarray(self).view(t)
    if isinstance(t, dict) or np.dtype(t).fields:
      n = len(np.dtype(t).fields)
      if self.shape[-1] != n:
        raise Unsupported("view")
      r = np.empty(self.shape[:-1] + (1,), dtype=object).view(CArr)
      for i in np.ndindex(*self.shape[:-1]):
        np.ndarray.__setitem__(r, i + (0,), P(tuple(np.asarray(self)[i]), 0))
      r.idt = np.dtype(t)
      return r
    t = np.dtype(t)
    s, d = self.idt.itemsize, t.itemsize
    if self.idt.fields:
      n = len(self.idt.fields)
      return self._unpack(n, t, 0)
    if s == d:
      r = super().view()
      r.idt = t
      return r
    if d > s:
      g = d // s
      if self.shape[-1] % g:
        raise ValueError("view: the last axis is not a multiple of the new size")
      r = np.empty(self.shape[:-1] + (self.shape[-1] // g,), dtype=object)
      base = np.asarray(self)
      for i in np.ndindex(*r.shape):
        r[i] = P(tuple(base[i[:-1] + (i[-1] * g + j,)] for j in range(g))[::-1], 8 * s)
      r = r.view(CArr)
      r.idt = t
      return r
    return self._unpack(s // d, t, 8 * d)

  def _unpack(self, g, t, bits):
    r = np.empty(self.shape[:-1] + (self.shape[-1] * g,), dtype=object)
    base = np.asarray(self)
    for i in np.ndindex(*self.shape):
      x = base[i]
      parts = x.parts if isinstance(x, P) else tuple(split_int(int(x), g, bits)[::-1])
      parts = parts if not bits else parts[::-1]
      for j in range(g):
        r[i[:-1] + (i[-1] * g + j,)] = parts[j]
    r = r.view(CArr)
    r.idt = t
    return r

  def _order(self, xs):
    """stable order: insertion with binary search among the different values"""
    keys, groups, seen = [], [], {}
    for i, x in enumerate(xs):
      h = form(x)
      if h in seen:
        seen[h].append(i)
        continue
      lo, hi, hit = 0, len(keys), None
      while lo < hi:
        m = (lo + hi) // 2
        if same(x, keys[m]):
          hit = m
          break
        if x < keys[m]:
          hi = m
        else:
          lo = m + 1
      if hit is None:
        keys.insert(lo, x)
        groups.insert(lo, [i])
        seen[h] = groups[lo]
      else:
        groups[hit].append(i)
        seen[h] = groups[hit]
    return [i for g in groups for i in sorted(g)]

  def argsort(self, axis=-1, kind=None, order=None, **k):
    if not self.issym:
      return np.asarray(self).argsort(axis, kind=kind, order=order)
    if self.ndim != 1:
      raise Unsupported("argsort of a matrix of charges")
    return np.array(self._order(list(self)), dtype=np.intp)

  def sort(self, axis=-1, kind=None, order=None, **k):
    if not self.issym:
      return super().sort(axis, kind, order)
    if self.ndim != 1:
      raise Unsupported("sort of a matrix of charges")
    xs = list(self)
    self[:] = wrap([xs[i] for i in self._order(xs)], (len(xs),))

  def tobytes(self, *a):
    if not self.issym:
      return np.asarray(self).tobytes(*a)
    return Bytes(tuple(self.flat), self.idt.itemsize)

  def tostring(self, *a):
    return self.tobytes()

  def __array_function__(self, func, types, args, kwargs):
    if func is np.unique and kwargs.get("axis") is not None and args[0].ndim == 2 and isinstance(args[0], CArr) and args[0].issym:
      return unique_rows(*args, **kwargs)
    r = super().__array_function__(func, types, args, kwargs)
    if func in (np.concatenate, np.stack, np.append, np.vstack, np.hstack) and isinstance(r, CArr) and r.issym:
      src = args[:2] if func is np.append else args[0]
      for x in src:
        if isinstance(x, CArr) and x.issym:
          r.idt = x.idt
          break
    return r


def unique_rows(a, return_index=False, return_inverse=False, return_counts=False, axis=0, **k):
  if axis != 0:
    raise Unsupported("unique along another axis")
  n = a.shape[1]
  packed = a.view({"names": [f"f{i}" for i in range(n)], "formats": [a.idt] * n})[:, 0]
  r = np.unique(packed, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts)
  many = isinstance(r, tuple)
  u = r[0] if many else r
  u = u[:, None]._unpack(n, a.idt, 0) if len(u) else a[:0]
  return (u,) + tuple(r[1:]) if many else u


def wrap(xs, shape, idt=np.int16):
  r = np.empty(len(xs), dtype=object)
  for i, x in enumerate(xs):
    r[i] = x
  r = r.reshape(shape).view(CArr)
  r.idt = np.dtype(idt)
  return r


class Bytes:
  """bytes of symbolic integers: the text is that of the first value on this path equal to it"""

  def __init__(self, xs, size):
    self.xs = xs
    self.size = size

  def __str__(self):
    return repr(bytes(b for x in self.xs for b in self._one(x)))

  __repr__ = __str__

  def _one(self, x):
    if isinstance(x, Q) and x.lin:
      # constants that occur in arrays without symbols are among these
      for c in SMALL:
        if x == c:
          return c.to_bytes(self.size, "little", signed=True)
      known = sym.ENG.__dict__.setdefault("qbytes", [])
      for i, y in enumerate(known):
        if x == y:
          break
      else:
        i = len(known)
        known.append(x)
      return (7000 + i).to_bytes(self.size, "little")
    return int(x).to_bytes(self.size, "little", signed=True)


class Proxy:
  """numpy, with array constructors that keep symbolic integer arrays"""

  def __getattr__(self, name):
    return getattr(np, name)

  def asarray(self, x, dtype=None, *a, **k):
    return keep(x, dtype, np.asarray, *a, **k)

  def array(self, x, dtype=None, *a, **k):
    return keep(x, dtype, np.array, *a, **k)

  def ascontiguousarray(self, x, dtype=None):
    return keep(x, dtype, np.ascontiguousarray)

  def dot(self, x, y):
    r = np.dot(x, y)
    return np.float64(r) if isinstance(r, (int, float)) else r  # empty object arrays, zeros

  def isscalar(self, x):
    return isinstance(x, S) or np.isscalar(x)


def keep(x, dtype, f, *a, **k):
  if isinstance(x, (list, tuple)) and _has(x):
    base = f(x, dtype=object) if f is not np.ascontiguousarray else np.asarray(x, dtype=object)
    x = base.view(CArr)
    if dtype is not None:
      x = x.astype(dtype)
    return x
  if isinstance(x, CArr) and x.issym:
    if dtype is not None and np.dtype(dtype) != x.idt:
      return x.astype(dtype)
    return x.copy() if f is np.array else x
  return f(x, *([] if dtype is None else [dtype]), *a, **k)


def _has(x):
  return any(isinstance(y, (Q, P)) or isinstance(y, (list, tuple)) and _has(y) or
             isinstance(y, CArr) and y.issym for y in x)


PROXY = Proxy()


class on:

  def __init__(self, ctx):
    self.ctx = ctx

  def __enter__(self):
    self.old = []
    if self.ctx.symbolic:
      for m in MODULES:
        mod = importlib.import_module(m)
        if hasattr(mod, "np"):
          self.old.append((mod, mod.np))
          mod.np = PROXY
    return self

  def __exit__(self, *a):
    for mod, o in self.old:
      mod.np = o


def symbols(ctx, name, shape):
  """array of arbitrary charges with absolute value up to BOUND"""
  n = int(np.prod(shape))
  if not ctx.symbolic:
    return np.array([ctx.int(f"{name}{i}", -BOUND, BOUND) for i in range(n)], dtype=np.int16).reshape(shape)
  for i in range(n):
    ctx.int(f"{name}{i}", -BOUND, BOUND)
  return wrap([Q(((f"{name}{i}", 1),)) for i in range(n)], shape)
