"""Machine integers of fixed width as solver bit-vectors: numpy arithmetic including overflow."""
import operator
import numpy as np
import z3
import sym
import qarr
from sym import SymBool, Unsupported


class B:
  """an integer of a numpy dtype"""
  __slots__ = ("e", "w")

  def __init__(self, e, w):
    self.e = e
    self.w = w

  def _co(self, o):
    if isinstance(o, B):
      return o
    if isinstance(o, np.integer):
      w = 8 * o.dtype.itemsize
      return B(z3.BitVecVal(int(o), w), w)
    if isinstance(o, (int, np.bool_)):
      if not -(1 << (self.w - 1)) <= int(o) < 1 << (self.w - 1):
        raise OverflowError(f"Python integer {o} out of bounds for int{self.w}")
      return B(z3.BitVecVal(int(o), self.w), self.w)
    return None

  def resize(self, w):
    if w == self.w:
      return self
    return B(z3.SignExt(w - self.w, self.e) if w > self.w else z3.Extract(w - 1, 0, self.e), w)

  def _bin(self, o, f, rev=False):
    o = self._co(o)
    if o is None:
      return NotImplemented
    w = max(self.w, o.w)
    a, b = self.resize(w).e, o.resize(w).e
    return B(z3.simplify(f(b, a) if rev else f(a, b)), w)

  def __add__(self, o):
    return self._bin(o, operator.add)

  def __radd__(self, o):
    return self._bin(o, operator.add, True)

  def __sub__(self, o):
    return self._bin(o, operator.sub)

  def __rsub__(self, o):
    return self._bin(o, operator.sub, True)

  def __mul__(self, o):
    return self._bin(o, operator.mul)

  __rmul__ = __mul__

  def __mod__(self, o):
    return self._bin(o, operator.mod)  # z3's % on bit-vectors follows the sign of the divisor, like numpy

  def __xor__(self, o):
    return self._bin(o, operator.xor)

  __rxor__ = __xor__

  def __and__(self, o):
    return self._bin(o, operator.and_)

  __rand__ = __and__

  def __or__(self, o):
    return self._bin(o, operator.or_)

  __ror__ = __or__

  def __neg__(self):
    return B(-self.e, self.w)

  def __invert__(self):
    return B(~self.e, self.w)

  def __abs__(self):
    return B(z3.If(self.e < 0, -self.e, self.e), self.w)

  def _cmp(self, o, f):
    o = self._co(o)
    if o is None:
      return NotImplemented
    w = max(self.w, o.w)
    return SymBool(f(self.resize(w).e, o.resize(w).e))

  def __eq__(self, o):
    return self._cmp(o, operator.eq)

  def __ne__(self, o):
    return self._cmp(o, operator.ne)

  def __lt__(self, o):
    return self._cmp(o, operator.lt)

  def __le__(self, o):
    return self._cmp(o, operator.le)

  def __gt__(self, o):
    return self._cmp(o, operator.gt)

  def __ge__(self, o):
    return self._cmp(o, operator.ge)

  def __bool__(self):
    return bool(self != 0)

  def __hash__(self):
    raise Unsupported("hash of a symbolic machine integer")

  def __int__(self):
    raise Unsupported("symbolic machine integer used as an int")

  __index__ = __int__

  def __repr__(self):
    return f"B{self.w}({self.e})"


def bits(ctx, name, w, low=None, high=None):
  """an arbitrary integer of w bits (a numpy integer in a concrete run)"""
  dt = np.dtype(f"int{w}")
  if not ctx.symbolic:
    v = ctx.int(name, low if low is not None else np.iinfo(dt).min, high if high is not None else np.iinfo(dt).max)
    return dt.type(v)
  eng = sym.ENG
  e = z3.BitVec(name, w)
  eng.ints[name] = e
  cond = [f for f in (None if low is None else e >= low, None if high is None else e <= high) if f is not None]
  if cond:
    ctx.assume(SymBool(z3.And(cond)))
  return B(e, w)


def array(xs, w=16):
  if any(isinstance(x, B) for x in xs):
    return qarr.wrap(list(xs), (len(xs),), np.dtype(f"int{w}"))
  return np.array(xs, dtype=f"int{w}")


def conj(xs):
  """conjunction of conditions, as one obligation"""
  xs = list(xs)
  if any(isinstance(x, SymBool) for x in xs):
    if any(not isinstance(x, SymBool) and not x for x in xs):
      return False
    return SymBool(z3.And([x.f for x in xs if isinstance(x, SymBool)]))
  return all(bool(x) for x in xs)


def smod(v, n, big=32):
  """v mod n computed without overflow; v a list of terms to add"""
  if any(isinstance(x, B) for x in list(v) + [n]):
    s = None
    for x in v:
      x = x.resize(big) if isinstance(x, B) else B(z3.BitVecVal(int(x), big), big)
      s = x if s is None else s + x
    n = n.resize(big) if isinstance(n, B) else B(z3.BitVecVal(int(n), big), big)
    return s % n
  return sum(int(x) for x in v) % int(n)
