"""Decadic logarithms of products and sums of symbolic dimensions, kept exact: log10(n/d) with polynomials n and d."""
import math
import random
import time
from fractions import Fraction
import numpy as np
import z3
import sym
from sym import S, Unsupported

NUM = (int, float, np.integer, np.floating, bool, np.bool_)


def _cancel(n, d):
  """cancel common factors of monomial fractions and equal polynomials"""
  if n.key() == d.key():
    return S.lift(1), S.lift(1)
  if len(d.t) == 1 and n.t:
    (m, c), = d.t.items()
    m = list(m)
    nt = {tuple(k): v for k, v in n.t.items()}
    rest = []
    for v in m:
      if all(v in k for k in nt):
        new = {}
        for k, x in nt.items():
          k = list(k)
          k.remove(v)
          new[tuple(k)] = x
        nt = new
      else:
        rest.append(v)
    one = Fraction(1) / Fraction(c) if c != 1 else 1
    return S({k: x * one for k, x in nt.items()}), S({tuple(rest): 1})
  return n, d


class World:
  """What is known about the symbols on a path.

  A symbol is a dimension d; the path condition speaks of its logarithm x and, where sums are compared, of the values of the
  monomials, tied to their logarithms by monotonicity.  That is linear and admits more than the real numbers do: a violation is
  only reported with dimensions that satisfy all the comparisons exactly."""

  def __init__(self, ctx):
    self.ctx, self.eng = ctx, ctx.eng
    self.low, self.known, self.x, self.names = {}, {}, {}, {}
    self.mono, self.pairs, self.seen = {}, set(), []
    self.eng.values_hook = self.values
    self.eng.logdims = self
    self.conds, self.nra = {}, None

  def add(self, f):
    self.eng.pc.append(f)
    self.eng.solver.add(f)

  def dim(self, name, one=False, low="5/4", high=64):
    s = self.ctx.fresh(name)
    (m, _), = s.t.items()
    v = m[0]
    self.low[v] = Fraction(1) if one else Fraction(low)
    x = self.x[v] = z3.Real("log " + name)
    self.names[v] = name
    lo = log(Fraction(low))
    self.add(z3.Or(x == 0, x >= lo) if one else x >= lo)
    self.add(x <= log(high))
    self.conds[v] = (one, Fraction(low), high)
    return s

  def log(self, m):
    return z3.Sum([z3.RealVal(0)] + [self.x[v] for v in m])

  def value(self, m):
    """the value of a monomial"""
    m = tuple(sorted(m))
    if m not in self.mono:
      z = z3.Real("value " + "*".join(self.names[v] for v in m)) if m else z3.RealVal(1)
      if m:
        self.add(z >= rat(self.bound(m)))
      for k, y in self.mono.items():
        big, small, zb, zs = (m, k, z, y) if len(m) >= len(k) else (k, m, y, z)
        rest = list(big)
        try:
          for v in small:
            rest.remove(v)
        except ValueError:
          continue
        self.add(zb >= rat(self.bound(rest)) * zs)
        self.add((zb <= zs) == (self.log(rest) <= 0))
      self.mono[m] = z
    return self.mono[m]

  def bound(self, m):
    r = Fraction(1)
    for v in m:
      r *= self.low[v]
    return r

  def compare(self, p, op):
    """formula for p op 0"""
    terms = sorted(p.t.items())
    if len(terms) == 2 and (terms[0][1] > 0) != (terms[1][1] > 0):
      (m1, c1), (m2, c2) = terms if terms[0][1] > 0 else terms[::-1]
      l, r = self.log(m1), self.log(m2) + rat(log(Fraction(-c2) / Fraction(c1)))
    else:
      ms = [tuple(sorted(m)) for m, _ in terms]
      for i, m in enumerate(ms):
        self.value(m)
        for k in ms[:i]:
          if (m, k) not in self.pairs:
            self.pairs.add((m, k))
            self.add((self.value(m) <= self.value(k)) == (self.log(m) <= self.log(k)))
      l, r = z3.Sum([rat(c) * self.value(m) for m, c in p.t.items()]), z3.RealVal(0)
    return l < r if op == "<" else l <= r if op == "<=" else l == r

  def exact(self):
    """solver with the comparisons of the path over the dimensions themselves"""
    if self.nra is None:
      self.nra, self.done = z3.Solver(), 0
      self.zd = {v: z3.Real("dim " + n) for v, n in self.names.items()}
      for v, (one, low, high) in self.conds.items():
        z = self.zd[v]
        self.nra.add(z3.Or(z == 1, z >= rat(low)) if one else z >= rat(low), z <= high)
    for p, op, r in self.seen[self.done:]:
      f = self.formula(p, op)
      self.nra.add(f if r else z3.Not(f))
    self.done = len(self.seen)
    return self.nra

  def formula(self, p, op):
    val = z3.Sum([z3.RealVal(0)] + [z3.Product([rat(c)] + [self.zd[v] for v in m]) for m, c in p.t.items()])
    return val < 0 if op == "<" else val <= 0 if op == "<=" else val == 0

  def refine(self, p, op, f):
    """where sums are compared, ask the exact question as well"""
    eng = self.eng
    if eng.pos < len(eng.prefix) or len(p.t) < 3:
      return
    if eng._check(f) == z3.unsat or eng._check(z3.Not(f)) == z3.unsat:
      return
    t = self.exact()
    t.set("timeout", 500)
    g = self.formula(p, op)
    for test, fact in ((g, z3.Not(f)), (z3.Not(g), f)):
      t0 = time.time()
      r = t.check(test)
      eng.stats.solver_time += time.time() - t0
      eng.stats.queries += 1
      if r == z3.unsat:
        self.add(fact)
        return

  def holds(self, d, slack=1e-9):
    """do the dimensions satisfy all the comparisons of the path"""
    for p, op, r in self.seen:
      val, size = 0.0, 0.0
      for m, c in p.t.items():
        t = float(c)
        for v in m:
          t *= d[v]
        val += t
        size += abs(t)
      eps = slack * size
      if op == "==":
        ok = abs(val) <= eps if r else abs(val) > eps
      elif r:
        ok = val < (eps if op == "<=" else -eps)
      else:
        ok = val > (eps if op == "<=" else -eps)
      if not ok:
        return False
    return True

  def values(self, extra=None, attempt=0):
    from engine import PathAbort
    if self.eng.validating and any(op == "==" and r for _, op, r in self.seen):
      raise PathAbort()  # floats need not reproduce the equality of two costs
    rng = random.Random(attempt)
    s = z3.Solver()
    s.set("timeout", 4000)
    s.add(*self.eng.pc)
    if extra is not None:
      s.add(extra)
    best = None
    for _ in range(4):
      s.push()
      for v, x in self.x.items():
        s.push()
        s.add(x == rat(Fraction(rng.randint(0, 18), 12)))
        if s.check() != z3.sat:
          s.pop()
      if s.check() == z3.sat:
        m = s.model()
        d = {v: 10.0**float(m.eval(x, model_completion=True).as_fraction()) for v, x in self.x.items()}
        best = best or d
        if self.holds(d):
          return self.out(d)
      for _ in range(100):
        try:
          s.pop()
        except z3.Z3Exception:
          break
    # the comparisons themselves
    t = self.exact()
    t.set("timeout", 20000)
    r = t.check()
    self.eng.stats.queries += 1
    if r == z3.unsat:
      if not self.eng.validating:
        self.eng.stats.obligations -= 1  # not a path after all
      raise PathAbort()
    if r == z3.sat:
      m = t.model()
      best = {}
      for v, z in self.zd.items():
        q = m.eval(z, model_completion=True)
        best[v] = float(q.as_fraction()) if z3.is_rational_value(q) else float(q.approx(20).as_fraction())
    return self.out(best or {v: 2.0 for v in self.x})

  def out(self, d):
    vals = {self.names[v]: d[v] for v in d}
    for n, e in self.eng.ints.items():
      vals[n] = 0
    return vals


def rat(x):
  x = Fraction(x)
  return z3.Q(x.numerator, x.denominator)


def log(x):
  return Fraction(math.log10(float(x))).limit_denominator(10**12) if x != 1 else Fraction(0)


def certificate(p):
  """1 / -1 if p is positive / negative, 2 / -2 if it is not negative / not positive, 0 if p is zero, None: not obvious

  Every symbol is written as its lower bound plus a non-negative rest; coefficients of equal sign settle the question."""
  if not p.t:
    return 0
  low = sym.ENG.logdims.low
  out = {}
  for m, c in p.t.items():
    terms = {(): c}
    for v in m:
      if v not in low:
        return None
      new = {}
      for k, x in terms.items():
        new[k] = new.get(k, 0) + x * low[v]
        k2 = tuple(sorted(k + (v,)))
        new[k2] = new.get(k2, 0) + x
      terms = new
    for k, x in terms.items():
      out[k] = out.get(k, 0) + x
  const = out.pop((), 0)
  vals = [x for x in out.values() if x]
  if const >= 0 and all(x >= 0 for x in vals):
    return 1 if const > 0 else 2
  if const <= 0 and all(x <= 0 for x in vals):
    return -1 if const < 0 else -2
  return None


def primitive(p):
  """divide by the common factor of all terms"""
  if not p.t:
    return p
  ms = [list(m) for m in p.t]
  common = []
  for v in ms[0]:
    if all(v in m for m in ms):
      common.append(v)
      for m in ms[1:]:
        m.remove(v)
  for v in common:
    ms[0].remove(v)
  c = abs(next(iter(sorted(p.t.items())))[1])
  return S({tuple(m): Fraction(x) / Fraction(c) for m, x in zip(ms, p.t.values())})


def _ask(n, d, op):
  """n op d, decided by a certificate, by an earlier answer or by the path"""
  p = primitive(n - d)
  c = certificate(p)
  if op == "<":
    if c in (0, 1, 2):
      return False
    if c == -1:
      return True
  elif op == "<=":
    if c in (0, -1, -2):
      return True
    if c == 1:
      return False
  else:
    if c == 0:
      return True
    if c in (1, -1):
      return False
  w = sym.ENG.logdims
  known = w.known
  key = p.key()
  neg = (-p).key()
  poss = known.get(key, {-1, 0, 1})  # possible signs of p
  want = {"<": {-1}, "<=": {-1, 0}, "==": {0}}[op]
  if poss <= want:
    return True
  if not poss & want:
    return False
  f = w.compare(p, op)
  w.refine(p, op, f)
  r = sym.ENG.fork(f)
  w.seen.append((p, op, r))
  poss = poss & want if r else poss - want
  known[key] = poss
  known[neg] = {-x for x in poss}
  return r


def less(a, b, strict=True):
  """comparison of two fractions of positive polynomials"""
  n, d = _cancel(a.n * b.d, b.n * a.d)
  return _ask(n, d, "<" if strict else "<=")


def equal(a, b):
  n, d = _cancel(a.n * b.d, b.n * a.d)
  return _ask(n, d, "==")


def lift(x):
  if isinstance(x, L):
    return x
  if isinstance(x, np.ndarray) and x.ndim == 0:
    return lift(x.item())
  if isinstance(x, NUM):
    x = float(x)
    if x == 0:
      return L(S.lift(1))
    if x == float("-inf"):
      return L(S.lift(0))
    return L(S.lift(Fraction(10.0**x)))
  raise Unsupported(f"logarithm and {type(x)}")


class L:
  """log10(n / d)"""
  __slots__ = ("n", "d")

  def __init__(self, n, d=None):
    self.n = n
    self.d = S.lift(1) if d is None else d

  def __repr__(self):
    return f"log({self.n!r}/{self.d!r})"

  def _arr(self, o):
    return isinstance(o, np.ndarray) and o.ndim

  def __add__(self, o):
    if self._arr(o):
      return NotImplemented
    o = lift(o)
    a, d2 = _cancel(self.n, o.d)
    b, d1 = _cancel(o.n, self.d)
    return L(*_cancel(a * b, d1 * d2))

  __radd__ = __add__

  def __neg__(self):
    return L(self.d, self.n)

  def __sub__(self, o):
    if self._arr(o):
      return NotImplemented
    o = lift(o)
    if not o.n.t:
      raise Unsupported("minus infinity")
    return self + (-o)

  def __rsub__(self, o):
    return lift(o) + (-self)

  def __mul__(self, k):
    if self._arr(k):
      return NotImplemented
    if isinstance(k, L):
      raise Unsupported("product of logarithms")
    k = float(k)
    if k == 0:
      return L(S.lift(1))
    if k == 1:
      return self
    if k == 2:
      return self + self
    if k == -2:
      return -(self + self)
    if k == -1:
      return -self
    return Scaled(self, k)

  __rmul__ = __mul__

  def __rpow__(self, b):
    if b != 10:
      raise Unsupported("power")
    return Lin(self.n, self.d)

  def __lt__(self, o):
    return NotImplemented if self._arr(o) else less(self, lift(o))

  def __gt__(self, o):
    return NotImplemented if self._arr(o) else less(lift(o), self)

  def __le__(self, o):
    return NotImplemented if self._arr(o) else less(self, lift(o), False)

  def __ge__(self, o):
    return NotImplemented if self._arr(o) else less(lift(o), self, False)

  def __eq__(self, o):
    return NotImplemented if self._arr(o) else equal(self, lift(o))

  def __ne__(self, o):
    return NotImplemented if self._arr(o) else not equal(self, lift(o))

  __hash__ = None

  def __bool__(self):
    return not equal(self, lift(0))

  def __float__(self):
    raise Unsupported("number of a symbolic logarithm")

  def copy(self):
    return self

  def item(self):
    return self


class Lin:
  """n / d itself"""

  def __init__(self, n, d):
    self.n, self.d = n, d

  def __add__(self, o):
    return Lin(self.n + self.d * S.lift(o), self.d)

  __radd__ = __add__

  def log10(self):
    return L(*_cancel(self.n, self.d))


class Scaled:
  """a logarithm times a large factor"""

  def __init__(self, l, k):
    self.l, self.k = l, k

  def __int__(self):
    raise Unsupported("integer of a symbolic logarithm")


def _apart(a, b):
  w = sym.ENG.logdims
  p = a.n * b.d * S.lift(Fraction(100001, 100000)) - b.n * a.d
  sym.ENG.assume(w.compare(p, "<"))
  w.seen.append((p, "<", True))


class Trunc:
  """integer part of a scaled logarithm; logarithms closer than the resolution are excluded"""

  def __init__(self, l):
    self.l = l

  def _cmp(self, o):
    if equal(self.l, o.l):
      return 0
    a, b = self.l, o.l
    if less(a, b):
      _apart(a, b)
      return -1
    _apart(b, a)
    return 1

  def __lt__(self, o):
    return self._cmp(o) < 0

  def __le__(self, o):
    return self._cmp(o) <= 0

  def __gt__(self, o):
    return self._cmp(o) > 0

  def __ge__(self, o):
    return self._cmp(o) >= 0

  def __eq__(self, o):
    return self._cmp(o) == 0

  def __ne__(self, o):
    return self._cmp(o) != 0

  __hash__ = None


class LArr(np.ndarray):

  def astype(self, dtype, *a, **k):
    if self.dtype == object and np.dtype(dtype).kind == "i" and self.size and isinstance(self.flat[0], Scaled):
      out = np.empty(self.shape, dtype=object).view(LArr)
      for i in np.ndindex(*self.shape):
        out[i] = Trunc(self[i].l)
      return out
    return super().astype(dtype, *a, **k)


def array(xs, shape):
  out = np.empty(shape, dtype=object).view(LArr)
  for i, x in zip(np.ndindex(*shape), xs):
    out[i] = x
  return out


class Proxy:
  """numpy, with zeros that can hold logarithms"""

  def __getattr__(self, name):
    return getattr(np, name)

  def zeros(self, shape, dtype=None):
    if dtype is not None and np.dtype(dtype).kind != "f":
      return np.zeros(shape, dtype)
    out = np.empty(shape, dtype=object).view(LArr)
    for i in np.ndindex(*out.shape):
      out[i] = L(S.lift(1))
    return out

  def log10(self, x):
    if isinstance(x, (L, Lin)):
      return x.log10()
    if isinstance(x, S):
      return L(x)
    a = np.asarray(x)
    if a.dtype != object:
      return np.log10(x) if not isinstance(x, NUM) else L(S.lift(x)) if not isinstance(x, (float, np.floating)) else np.log10(x)
    out = np.empty(a.shape, dtype=object).view(LArr)
    for i in np.ndindex(*a.shape):
      v = a[i]
      out[i] = v.log10() if isinstance(v, Lin) else L(S.lift(v))
    return out if out.ndim else out[()]


class on:
  """the solver modules compute with exact logarithms"""

  def __init__(self, ctx, *modules):
    self.mods = modules if ctx.symbolic else ()

  def __enter__(self):
    self.old = [m.np for m in self.mods]
    for m in self.mods:
      m.np = Proxy()

  def __exit__(self, *a):
    for m, o in zip(self.mods, self.old):
      m.np = o


def concrete(ctx, name, one=False, low=1.25, high=64):
  x = float(ctx.real(name))
  if one and abs(x - 1) < 1e-9:
    return 1.0
  ctx.assume(x >= low - 1e-9)
  ctx.assume(x <= high + 1e-9)
  return x
