"""Symbolic numbers used as entries of numpy object arrays.

S        polynomial over the rationals in real / complex unknowns (conjugates are separate formal unknowns)
SymBool  a z3 formula; bool() of it forks the path
SymInt   a z3 integer term; comparisons fork, int()/index concretise (forking over all feasible values)
"""
import numbers
from fractions import Fraction
import numpy as np
import z3

ENG = None  # current Engine (set by engine.py)


class Unsupported(BaseException):
  """The symbolic executor cannot represent this operation."""


class VarTable:

  def __init__(self):
    self.name = ["I"]
    self.conj = [0]
    self.sq = {}  # id -> S : v*v == S
    self.inv = {}  # id -> id : v * inv == 1
    self.z3 = {}
    self.byname = {}
    self.base = set()

  def new(self, name, cplx=False, base=False):
    i = len(self.name)
    self.name.append(name)
    if cplx:
      self.conj.append(i + 1)
      self.name.append(name + "~")
      self.conj.append(i)
    else:
      self.conj.append(i)
    self.byname[name] = i
    if base:
      self.base.add(i)
      if cplx:
        self.base.add(i + 1)
    return i


T = VarTable()


def reset():
  global T
  T = VarTable()


def _num(x):
  """exact constant of a Python/numpy number: (re, im) or None"""
  if isinstance(x, (bool, np.bool_)):
    return int(x), 0
  if isinstance(x, (int, np.integer)):
    return int(x), 0
  if isinstance(x, Fraction):
    return x, 0
  if isinstance(x, (float, np.floating)):
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
      raise Unsupported("nan/inf constant")
    return (int(x), 0) if x == int(x) else (Fraction(x), 0)
  if isinstance(x, (complex, np.complexfloating)):
    x = complex(x)
    r, _ = _num(x.real)
    i, _ = _num(x.imag)
    return r, i
  return None


def _mulmono(a, b):
  """product of two monomials -> (sign, mono) with I*I = -1 and v*inv(v) = 1"""
  if not a:
    return 1, b
  if not b:
    return 1, a
  m = sorted(a + b)
  sg = 1
  if m[0] == 0 and len(m) > 1 and m[1] == 0:
    sg = -1
    m = m[2:]
  if T.inv:
    for v in set(m):
      w = T.inv.get(v)
      if w is not None and w in m:
        while v in m and w in m:
          m.remove(v)
          m.remove(w)
  return sg, tuple(m)


class S(numbers.Number):
  __slots__ = ("t", "_z")
  shape = ()
  ndim = 0
  size = 1
  dtype = np.dtype(object)
  __array_priority__ = 1000

  def __init__(self, t):
    self.t = t

  # -- construction ------------------------------------------------------
  @staticmethod
  def const(x):
    n = _num(x)
    if n is None:
      raise Unsupported(f"constant of type {type(x)}")
    t = {}
    if n[0]:
      t[()] = n[0]
    if n[1]:
      t[(0,)] = n[1]
    return S(t)

  @staticmethod
  def var(i):
    return S({(i,): 1})

  # -- helpers -------------------------------------------------------------
  def is_const(self):
    return all(m == () or m == (0,) for m in self.t)

  def cval(self):
    re = self.t.get((), 0)
    im = self.t.get((0,), 0)
    if im:
      return complex(re, im)
    return re

  def key(self):
    return frozenset(self.t.items())

  def vars(self):
    return {v for m in self.t for v in m if v}

  @staticmethod
  def lift(x):
    if isinstance(x, S):
      return x
    if isinstance(x, SymInt):
      return S.const(int(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
      return S.lift(x.item())
    n = _num(x)
    if n is None:
      return None
    return S.const(x)

  # -- arithmetic ----------------------------------------------------------
  def __add__(self, o):
    if not isinstance(o, S):
      if isinstance(o, np.ndarray) and o.ndim:
        return NotImplemented
      o = S.lift(o)
      if o is None:
        return NotImplemented
    if not o.t:
      return self
    if not self.t:
      return o
    if len(self.t) < len(o.t):
      self, o = o, self
    t = dict(self.t)
    for m, c in o.t.items():
      c2 = t.get(m)
      if c2 is None:
        t[m] = c
      else:
        c2 = c2 + c
        if c2:
          t[m] = c2
        else:
          del t[m]
    return S(t)

  def __radd__(self, o):
    if isinstance(o, np.ndarray) and o.ndim:
      return np.add(o, self.reshape(()))
    return self.__add__(o)

  def __neg__(self):
    return S({m: -c for m, c in self.t.items()})

  def __pos__(self):
    return self

  def __sub__(self, o):
    if isinstance(o, np.ndarray) and o.ndim:
      return NotImplemented
    o = S.lift(o)
    if o is None:
      return NotImplemented
    return self + (-o)

  def __rsub__(self, o):
    if isinstance(o, np.ndarray) and o.ndim:
      return np.subtract(o, self.reshape(()))
    return (-self) + o

  def __mul__(self, o):
    if not isinstance(o, S):
      if isinstance(o, np.ndarray) and o.ndim:
        return NotImplemented
      o = S.lift(o)
      if o is None:
        return NotImplemented
    if not o.t or not self.t:
      return S({})
    t = {}
    needsq = False
    for m1, c1 in self.t.items():
      for m2, c2 in o.t.items():
        sg, m = _mulmono(m1, m2)
        c = c1 * c2
        if sg < 0:
          c = -c
        c0 = t.get(m)
        t[m] = c if c0 is None else c0 + c
    r = S({m: c for m, c in t.items() if c})
    if T.sq:
      r = _reduce_sq(r)
    return r

  def __rmul__(self, o):
    if isinstance(o, np.ndarray) and o.ndim:
      return np.multiply(o, self.reshape(()))
    return self.__mul__(o)

  def __truediv__(self, o):
    if isinstance(o, np.ndarray) and o.ndim:
      return NotImplemented
    o = S.lift(o)
    if o is None:
      return NotImplemented
    return self * o.reciprocal()

  def __rtruediv__(self, o):
    if isinstance(o, np.ndarray) and o.ndim:
      return np.true_divide(o, self.reshape(()))
    return self.reciprocal() * o

  def reciprocal(self):
    if self.is_const():
      re, im = self.t.get((), 0), self.t.get((0,), 0)
      if not re and not im:
        raise ZeroDivisionError("symbolic division by zero")
      n = Fraction(re) * re + Fraction(im) * im
      t = {}
      if re:
        t[()] = Fraction(re) / n
      if im:
        t[(0,)] = -Fraction(im) / n
      return S({m: (int(c) if c.denominator == 1 else c) for m, c in t.items()})
    return ENG.reciprocal(self)

  def __pow__(self, n):
    if isinstance(n, (float, np.floating)):
      if n == 0.5:
        return self.sqrt()
      if n == int(n):
        n = int(n)
    if isinstance(n, (int, np.integer)):
      n = int(n)
      if n < 0:
        return self.reciprocal()**(-n)
      r = S({(): 1})
      for _ in range(n):
        r = r * self
      return r
    raise Unsupported("power")

  def conjugate(self):
    t = {}
    for m, c in self.t.items():
      if m and m[0] == 0:
        c = -c
      m2 = tuple(sorted(T.conj[v] for v in m))
      t[m2] = t.get(m2, 0) + c
    return S({m: c for m, c in t.items() if c})

  conj = conjugate

  @property
  def real(self):
    return (self + self.conjugate()) * Fraction(1, 2)

  @property
  def imag(self):
    return (self - self.conjugate()) * S({(0,): Fraction(-1, 2)})

  def is_real(self):
    return self.conjugate().t == self.t

  def sqrt(self):
    return ENG.sqrt(self)

  def __abs__(self):
    return ENG.absolute(self)

  def square(self):
    return self * self

  # -- array-scalar look-alikes ---------------------------------------------
  def item(self):
    return self

  def astype(self, *_, **__):
    return self

  def reshape(self, *s):
    a = np.empty((), dtype=object)
    a[()] = self
    return a.reshape(*s)

  def copy(self):
    return self

  def ravel(self):
    return self.reshape((1,))

  @property
  def flat(self):
    return self.reshape((1,)).flat

  def transpose(self, *_):
    return self

  @property
  def T(self):
    return self

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  # -- comparison ----------------------------------------------------------
  def __hash__(self):
    return hash(self.key())

  def _cmp(self, o, op):
    if isinstance(o, np.ndarray) and o.ndim:
      out = np.empty(o.shape, dtype=bool)
      for i in np.ndindex(*o.shape):
        out[i] = bool(self._cmp(o[i], op))
      return out
    if isinstance(o, (float, np.floating)) and (o != o or abs(o) == float("inf")):
      if o != o:
        return op == "!="
      return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op]
    o2 = S.lift(o)
    if o2 is None:
      return NotImplemented
    d = self - o2
    if op in ("==", "!="):
      if not d.t:
        return op == "=="
      if d.is_const():
        return op == "!="
      re, im = ENG.to_z3(d)
      f = z3.And(re == 0, im == 0) if im is not None else re == 0
      return SymBool(f if op == "==" else z3.Not(f), (d, op == "=="))
    if d.is_const():
      c = d.t.get((), 0)
      return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
    if not d.is_real():
      raise Unsupported("ordering of complex symbolic values")
    re, im = ENG.to_z3(d)
    b = SymBool({"<": re < 0, "<=": re <= 0, ">": re > 0, ">=": re >= 0}[op])
    b.le = {"<": (-d, False), "<=": (d, True), ">": (d, False), ">=": (-d, True)}[op]
    return b

  def __eq__(self, o):
    return self._cmp(o, "==")

  def __ne__(self, o):
    return self._cmp(o, "!=")

  def __lt__(self, o):
    return self._cmp(o, "<")

  def __le__(self, o):
    return self._cmp(o, "<=")

  def __gt__(self, o):
    return self._cmp(o, ">")

  def __ge__(self, o):
    return self._cmp(o, ">=")

  def __bool__(self):
    if not self.t:
      return False
    if self.is_const():
      return True
    return bool(self != 0)

  def __float__(self):
    if self.is_const():
      return float(self.cval())
    raise Unsupported("float() of a symbolic value")

  def __int__(self):
    if self.is_const():
      return int(self.cval())
    raise Unsupported("int() of a symbolic value")

  def __complex__(self):
    if self.is_const():
      return complex(self.cval())
    raise Unsupported("complex() of a symbolic value")

  def __repr__(self):
    parts = []
    for m, c in list(self.t.items())[:6]:
      parts.append(f"{c}*" + "*".join(T.name[v] for v in m) if m else str(c))
    return "S(" + " + ".join(parts) + ("..." if len(self.t) > 6 else "") + ")"


def _reduce_sq(r):
  """apply v*v -> S for square-root unknowns"""
  while True:
    hit = None
    for m in r.t:
      for i in range(len(m) - 1):
        if m[i] == m[i + 1] and m[i] in T.sq:
          hit = (m, m[i])
          break
      if hit:
        break
    if not hit:
      return r
    m, v = hit
    c = r.t[m]
    rest = list(m)
    rest.remove(v)
    rest.remove(v)
    t = dict(r.t)
    del t[m]
    r = S(t) + _mul_noreduce(S({tuple(rest): c}), T.sq[v])


def _mul_noreduce(a, b):
  t = {}
  for m1, c1 in a.t.items():
    for m2, c2 in b.t.items():
      sg, m = _mulmono(m1, m2)
      t[m] = t.get(m, 0) + sg * c1 * c2
  return S({m: c for m, c in t.items() if c})


class SymBool:
  __slots__ = ("f", "eq", "le")
  __array_priority__ = 1000

  def __init__(self, f, eq=None, le=None):
    self.f = f
    self.eq = eq  # (polynomial, True if the formula says it is zero / False if it says it is not)
    self.le = le  # (polynomial, truth value of the formula for which it is <= 0)

  def __bool__(self):
    r = ENG.fork(self.f)
    if self.le is not None and r == self.le[1]:
      ENG.learn_nonpositive(self.le[0])
    if self.eq is not None and r == self.eq[1]:
      ENG.learn_zero(self.eq[0])
    return r

  @staticmethod
  def _f(o):
    if isinstance(o, SymBool):
      return o.f
    return z3.BoolVal(bool(o))

  def __and__(self, o):
    return SymBool(z3.And(self.f, SymBool._f(o)))

  __rand__ = __and__

  def __or__(self, o):
    return SymBool(z3.Or(self.f, SymBool._f(o)))

  __ror__ = __or__

  def __invert__(self):
    return SymBool(z3.Not(self.f), None if self.eq is None else (self.eq[0], not self.eq[1]),
                   None if self.le is None else (self.le[0], not self.le[1]))

  def logical_not(self):
    return ~self

  def __eq__(self, o):
    return SymBool(self.f == SymBool._f(o))

  def __ne__(self, o):
    return SymBool(self.f != SymBool._f(o))

  def __hash__(self):
    return 7

  def __int__(self):
    return int(bool(self))

  __index__ = __int__

  def __repr__(self):
    return f"SymBool({self.f})"


def _iz(o):
  if isinstance(o, SymInt):
    return o.e
  if isinstance(o, (bool, int, np.integer)):
    return int(o)
  return None


class SymInt:
  """symbolic integer; pretends to be an int for isinstance"""
  __slots__ = ("e", "h")
  __array_priority__ = 1000

  def __init__(self, e, h=False):
    self.e = e
    self.h = h  # True: opaque label, constant hash, never concretised by hashing

  @property
  def __class__(self):
    return int

  def _bin(self, o, fn):
    z = _iz(o)
    if z is None:
      return NotImplemented
    return SymInt(z3.simplify(fn(self.e, z)), self.h)

  def __add__(self, o):
    return self._bin(o, lambda a, b: a + b)

  def __radd__(self, o):
    return self._bin(o, lambda a, b: b + a)

  def __sub__(self, o):
    return self._bin(o, lambda a, b: a - b)

  def __rsub__(self, o):
    return self._bin(o, lambda a, b: b - a)

  def __mul__(self, o):
    return self._bin(o, lambda a, b: a * b)

  __rmul__ = __mul__

  def __neg__(self):
    return SymInt(-self.e, self.h)

  def __abs__(self):
    return SymInt(z3.If(self.e < 0, -self.e, self.e), self.h)

  def _c(self, o, fn):
    z = _iz(o)
    if z is None:
      if isinstance(o, (float, np.floating)):
        z = z3.RealVal(str(Fraction(float(o))))
        return SymBool(fn(z3.ToReal(self.e), z))
      return NotImplemented
    return SymBool(z3.simplify(fn(self.e, z)))

  def __eq__(self, o):
    if self is o:
      return True
    if _iz(o) is None:
      return False
    return bool(self._c(o, lambda a, b: a == b))

  def __ne__(self, o):
    return not self.__eq__(o)

  def __lt__(self, o):
    return self._c(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._c(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._c(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._c(o, lambda a, b: a >= b)

  def __bool__(self):
    return ENG.fork(self.e != 0)

  def __index__(self):
    return ENG.concretise(self.e)

  __int__ = __index__

  def __float__(self):
    return float(ENG.concretise(self.e))

  def __hash__(self):
    if self.h:
      return 0
    return hash(ENG.concretise(self.e))

  def __repr__(self):
    return f"SymInt({self.e})"

  __str__ = __repr__

  def __format__(self, spec):
    return repr(self)


def is_sym(a):
  return isinstance(a, S) or (isinstance(a, np.ndarray) and a.dtype == object)


def arr(a):
  """object array of S from anything array-like"""
  a = np.asarray(a, dtype=object) if not isinstance(a, S) else a.reshape(())
  out = np.empty(a.shape, dtype=object)
  for i in np.ndindex(*a.shape):
    x = a[i]
    y = S.lift(x)
    if y is None:
      raise Unsupported(f"non numeric entry {type(x)}")
    out[i] = y
  return out
