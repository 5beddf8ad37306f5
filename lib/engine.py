"""Symbolic execution engine: path explorer, obligations, solver queries.

A scenario is a harness function h(ctx).  Run with a SymCtx, the real code of /repo executes on numpy object arrays of
symbolic numbers; branches on symbolic conditions fork the path (depth first re-execution with a decision prefix, both sides
asked of z3).  ctx.eq / ctx.check record assertions, which z3 decides for every value of the unknowns.  Run with a
ConcreteCtx the same harness executes on floats with the unpatched libraries: that is how counterexamples are replayed.
"""
import itertools
import os
import random
import sys
import time
import traceback
import zlib
from fractions import Fraction

import numpy as np
import z3

import sym
from sym import S, SymBool, SymInt, Unsupported


class PathAbort(BaseException):
  """path infeasible or outside the assumptions"""


class DeadlineHit(BaseException):
  pass


class ConcreteFailure(Exception):
  """an assertion of the harness failed on concrete values"""


class Stats:

  def __init__(self):
    self.paths = 0
    self.decisions = 0
    self.obligations = 0
    self.discharged = 0
    self.queries = 0
    self.solver_time = 0.0
    self.validated = 0
    self.skipped = 0
    self.witnesses = 0
    self.inst = 0
    self.functions = set()
    self.notes = []
    self.inconclusive = []
    self.complete = True
    self.samples = []
    self.stubs = set()


class Hyp:
  __slots__ = ("p", "lead", "label")

  def __init__(self, p, lead, label):
    self.p = p
    self.lead = lead
    self.label = label


def _divide(m, lead):
  """m / lead as sorted tuple or None"""
  rest = list(m)
  for v in lead:
    try:
      rest.remove(v)
    except ValueError:
      return None
  return tuple(rest)


SLOW = 1  # solver time limits are multiplied by this when a scenario is tried again


class Engine:
  """state of one path"""

  def __init__(self, stats, prefix, deadline, seed=1):
    sym.reset()
    self.T = sym.T
    self.stats = stats
    self.prefix = prefix
    self.pos = 0
    self.trace = []  # decisions taken: (kind, value)
    self.pending = []  # alternative prefixes
    self.pc = []
    self.solver = z3.Solver()
    self.solver.set("timeout", 10000 * SLOW)
    self.hyps = []
    self.hyp_index = {}
    self.nonneg = set()
    self.cache_inv = {}
    self.cache_sqrt = {}
    self.cache_stub = {}
    self.known_svds = []
    self.validating = False
    self.keep = []
    self.deadline = deadline
    self.ints = {}
    self.fresh = itertools.count()
    self.rng = random.Random(seed)
    self.assumed_nonzero = []
    self.stubbed = False
    self.modelled = True  # the last base_values came from a model
    self.lazy = {}  # z3 name -> definition, asserted once a branch or assertion mentions the unknown

  def activate(self, f):
    """assert the definitions of derived unknowns that f mentions"""
    if not self.lazy:
      return
    work = [f]
    while work:
      for v in _vars(work.pop()):
        d = self.lazy.pop(str(v), None)
        if d is not None:
          self.pc.append(d)
          self.solver.add(d)
          work.append(d)

  # -- solver ----------------------------------------------------------------
  def _check(self, *extra):
    if time.time() > self.deadline:
      raise DeadlineHit()
    t0 = time.time()
    r = self.solver.check(*extra)
    if r == z3.unknown:
      # the incremental solver gave up: ask a fresh one
      s = z3.Solver()
      s.set("timeout", 2000 * SLOW)
      s.add(*self.pc)
      s.add(*extra)
      r = s.check()
    self.stats.solver_time += time.time() - t0
    self.stats.queries += 1
    return r

  def infeasible(self):
    """is this path known to be infeasible (after a branch whose feasibility was unknown)?"""
    s = z3.Solver()
    s.set("timeout", 4000 * SLOW)
    s.add(*self.pc)
    return s.check() == z3.unsat

  def assume(self, f):
    if isinstance(f, SymBool):
      f = f.f
    if isinstance(f, bool) or isinstance(f, np.bool_):
      if not f:
        raise PathAbort()
      return
    self.activate(f)
    self.pc.append(f)
    self.solver.add(f)
    if self.pos >= len(self.prefix) and self._check() == z3.unsat:
      raise PathAbort()

  def fork(self, f):
    f = z3.simplify(f)
    if z3.is_true(f):
      return True
    if z3.is_false(f):
      return False
    self.activate(f)
    if self.pos < len(self.prefix):
      kind, val = self.prefix[self.pos]
      self.pos += 1
      if kind != "f":
        raise Unsupported("non-deterministic harness")
      self.trace.append(("f", val))
    else:
      self.pos += 1
      rt = self._check(f)
      rf = self._check(z3.Not(f))
      self.stats.decisions += 1
      if rt == z3.unsat and rf == z3.unsat:
        raise PathAbort()
      if rt == z3.unsat:
        val = False
      elif rf == z3.unsat:
        val = True
      else:
        if rt == z3.unknown or rf == z3.unknown:
          self.stats.notes.append("branch feasibility unknown: both sides explored")
        val = True
        self.pending.append(self.trace + [("f", False)])
      self.trace.append(("f", val))
    g = f if val else z3.Not(f)
    self.pc.append(g)
    self.solver.add(g)
    return val

  def concretise(self, e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
      return e.as_long()
    while True:
      if self.pos < len(self.prefix):
        kind, (v, eq) = self.prefix[self.pos]
        self.pos += 1
        if kind != "c":
          raise Unsupported("non-deterministic harness")
        self.trace.append(("c", (v, eq)))
      else:
        self.pos += 1
        if self._check() != z3.sat:
          raise PathAbort()
        v = self.solver.model().eval(e, model_completion=True).as_long()
        self.stats.decisions += 1
        eq = True
        if self._check(e != v) != z3.unsat:
          self.pending.append(self.trace + [("c", (v, False))])
        self.trace.append(("c", (v, True)))
      g = (e == v) if eq else (e != v)
      self.pc.append(g)
      self.solver.add(g)
      if eq:
        return v

  # -- unknowns ---------------------------------------------------------------
  def newvar(self, name, cplx=False, base=False, nonneg=False):
    i = self.T.new(name, cplx, base)
    if nonneg:
      self.nonneg.add(i)
      f = self.z3var(i)[0] >= 0
      self.pc.append(f)
      self.solver.add(f)
    return i

  def z3var(self, i):
    """(re, im) of variable id"""
    t = self.T
    if i in t.z3:
      return t.z3[i]
    if t.conj[i] == i:
      r = (z3.Real(t.name[i]), None)
    else:
      j = min(i, t.conj[i])
      re, im = z3.Real(t.name[j] + ".re"), z3.Real(t.name[j] + ".im")
      r = (re, im if i == j else -im)
    t.z3[i] = r
    return r

  def to_z3(self, p):
    """(re, im or None) terms of a polynomial"""
    re, im = [], []
    cplx = False
    for m, c in p.t.items():
      cr = z3.RealVal(str(c)) if not isinstance(c, int) else z3.RealVal(c)
      pr, pi = cr, None
      for v in m:
        if v == 0:
          xr, xi = None, z3.RealVal(1)
        else:
          xr, xi = self.z3var(v)
        # (pr + i pi) * (xr + i xi)
        nr, ni = [], []
        if xr is not None:
          if pr is not None:
            nr.append(pr * xr)
          if pi is not None:
            ni.append(pi * xr)
        if xi is not None:
          if pi is not None:
            nr.append(-(pi * xi))
          if pr is not None:
            ni.append(pr * xi)
        pr = (nr[0] if len(nr) == 1 else nr[0] + nr[1]) if nr else None
        pi = (ni[0] if len(ni) == 1 else ni[0] + ni[1]) if ni else None
      if pr is not None:
        re.append(pr)
      if pi is not None:
        im.append(pi)
        cplx = True
    zr = z3.Sum(re) if re else z3.RealVal(0)
    return zr, (z3.Sum(im) if cplx else None)

  def hyp(self, p, lead, label):
    """assume polynomial p == 0 (and its conjugate); instances are made for multiples of the monomial `lead`"""
    if not p.t:
      return
    if lead not in p.t:
      lead = max(p.t, key=len)
    for q, l in ((p, lead), (p.conjugate(), tuple(sorted(self.T.conj[v] for v in lead)))):
      k = (frozenset(q.t.items()), l)
      if k in self.hyp_index:
        continue
      h = Hyp(q, l, label)
      self.hyp_index[k] = h
      self.hyps.append(h)

  def learn_zero(self, p):
    """on this path the polynomial p is zero"""
    self.hyp(p, max(p.t, key=lambda m: (len(m), m)), "path condition")

  def nonneg_monomial(self, m):
    """a product of squares, |x|^2 and unknowns known to be >= 0"""
    rest = list(m)
    while rest:
      v = rest.pop()
      if v == 0:
        return False
      if v in self.nonneg:
        continue
      c = self.T.conj[v]
      if c not in rest:
        return False
      rest.remove(c)
    return True

  def learn_nonpositive(self, p):
    """on this path p <= 0: if p is a sum of non-negative terms, each of them is zero"""
    if not p.t or not all(c > 0 and self.nonneg_monomial(m) for m, c in p.t.items()):
      return
    for m in p.t:
      vs = {min(v, self.T.conj[v]) for v in m}
      if len(vs) == 1:
        v = vs.pop()
        self.hyp(S.var(v), (v,), "path condition")
        if v in self.T.sq:
          self.learn_nonpositive(self.T.sq[v])
      elif m:
        self.hyp(S({m: 1}), m, "path condition")

  def reciprocal(self, p):
    if len(p.t) == 1:
      (m, c), = p.t.items()
      r = S({(): Fraction(1, 1) / c})
      for v in m:
        if v == 0:
          r = r * S({(0,): -1})
          continue
        r = r * S({(self._invvar(v),): 1})
      return r
    common = None
    for m in p.t:
      rest = list(m)
      common = list(m) if common is None else [v for v in common if v in rest and (rest.remove(v) or True)]
    common = [v for v in common if v != 0]
    if common:
      t = {}
      for m, c in p.t.items():
        rest = list(m)
        for v in common:
          rest.remove(v)
        t[tuple(rest)] = c
      return self.reciprocal(S({tuple(sorted(common)): 1})) * self.reciprocal(S(t))
    k = p.key()
    if k not in self.cache_inv:
      cplx = not p.is_real()
      w = self.newvar(f"inv{next(self.fresh)}", cplx, nonneg=not cplx and all(c > 0 and self.nonneg_monomial(m) for m, c in p.t.items()))
      ws = S.var(w)
      self.cache_inv[k] = ws
      self.assume_nonzero(p)
      lm = max(p.t, key=lambda m: (len(m), m))
      q = p * ws - 1
      self.hyp(q, tuple(sorted(lm + (w,))), "reciprocal")
      if not cplx:
        self.lazy[str(self.z3var(w)[0])] = self.to_z3(q)[0] == 0
    return self.cache_inv[k]

  def _invvar(self, v):
    if v in self.T.inv:
      return self.T.inv[v]
    c = self.T.conj[v]
    w = self.newvar(f"inv({self.T.name[v]})", c != v, nonneg=(v in self.nonneg))
    self.T.inv[v] = w
    self.T.inv[w] = v
    if c != v:
      self.T.inv[c] = self.T.conj[w]
      self.T.inv[self.T.conj[w]] = c
    self.assume_nonzero(S.var(v))
    if c == v:
      zw, zv = self.z3var(w)[0], self.z3var(v)[0]
      self.lazy[str(zw)] = zw * zv == 1
    if v in self.T.sq:
      p = self.T.sq[v]
      lm = max(p.t, key=lambda m: (len(m), m))
      self.hyp(p * S({(w, w): 1}) - 1, tuple(sorted(lm + (w, w))), "reciprocal of square root")
    return w

  def assume_nonzero(self, p):
    re, im = self.to_z3(p)
    f = re != 0 if im is None else z3.Or(re != 0, im != 0)
    self.assumed_nonzero.append(repr(p)[:80])
    self.pc.append(f)
    self.solver.add(f)

  def sqrt(self, p):
    if p.is_const():
      c = p.cval()
      if not isinstance(c, complex):
        f = Fraction(c)
        if f >= 0:
          a, b = _isqrt(f.numerator), _isqrt(f.denominator)
          if a is not None and b is not None:
            f = Fraction(a, b)
            return S.const(int(f) if f.denominator == 1 else f)
    if len(p.t) == 1:
      (m, c), = p.t.items()
      if m and len(m) % 2 == 0 and m[::2] == m[1::2] and all(v in self.nonneg for v in m):
        return S({m[::2]: 1}) * self.sqrt(S({(): c}))
    k = p.key()
    if k not in self.cache_sqrt:
      s = self.newvar(f"sqrt{next(self.fresh)}", nonneg=True)
      self.cache_sqrt[k] = S.var(s)
      if not p.is_real():
        raise Unsupported("square root of a complex value")
      zs = self.z3var(s)[0]
      self.lazy[str(zs)] = zs * zs == self.to_z3(p)[0]
      self.T.sq[s] = p
    return self.cache_sqrt[k]

  def absolute(self, p):
    if p.is_const():
      c = p.cval()
      if isinstance(c, complex):
        return self.sqrt(p * p.conjugate())
      return S.const(abs(c))
    if p.is_real():
      if all(c > 0 and all(v in self.nonneg for v in m) for m, c in p.t.items()):
        return p
      return p if bool(p >= 0) else -p
    return self.sqrt(p * p.conjugate())

  # -- obligations ----------------------------------------------------------------
  def instances(self, polys, limit=6000):
    """hypothesis instances reachable from the monomials of polys"""
    if not self.hyps:
      return []
    byfirst = {}
    for h in self.hyps:
      byfirst.setdefault(h.lead[-1] if h.lead else None, []).append(h)
    seen, done, out = set(), set(), []
    work = list({m for p in polys for m in p.t})
    seen.update(work)
    maxdeg = max((len(m) for m in work), default=0) + 4
    while work:
      m = work.pop()
      for v in set(m):
        for h in byfirst.get(v, ()):
          q = _divide(m, h.lead)
          if q is None:
            continue
          k = (id(h), q)
          if k in done:
            continue
          done.add(k)
          inst = h.p * S({q: 1})
          out.append(inst)
          for m2 in inst.t:
            if m2 not in seen and len(m2) <= maxdeg:
              seen.add(m2)
              work.append(m2)
          if len(out) > limit:
            return out
    return out

  def prove_zero(self, pairs):
    """z3 verdict on: every (p, q) of polynomials is equal for all values of the unknowns that satisfy the hypotheses.
    Monomials are abstracted to independent reals (sound for 'unsat')."""
    diffs = [p - q for p, q in pairs]
    insts = self.instances([d for d in diffs if d.t]) if any(d.t for d in diffs) else []
    self.stats.inst += len(insts)
    names = {}

    def lin(p):
      if not p.t:
        return "0.0"
      terms = []
      for m, c in p.t.items():
        if m == ():
          a = "1.0"
        else:
          a = names.setdefault(m, f"m{len(names)}")
        c = Fraction(c)
        cs = f"{abs(c.numerator)}.0" if c.denominator == 1 else f"(/ {abs(c.numerator)}.0 {c.denominator}.0)"
        t = a if cs == "1.0" else (cs if a == "1.0" else f"(* {cs} {a})")
        terms.append(t if c > 0 else f"(- {t})")
      return terms[0] if len(terms) == 1 else "(+ " + " ".join(terms) + ")"

    body = []
    for i in insts:
      body.append(f"(assert (= {lin(i)} 0.0))")
    goal = " ".join(f"(not (= {lin(p)} {lin(q)}))" for p, q in pairs)
    decl = [f"(declare-const {n} Real)" for n in names.values()]
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 60000)
    s.from_string("\n".join(decl + body + [f"(assert (or {goal} false))"]))
    t0 = time.time()
    r = s.check()
    self.stats.solver_time += time.time() - t0
    self.stats.queries += 1
    if insts and r == z3.unsat and not getattr(self, "_twin", False):
      self._twin = True  # vacuity twin: the hypotheses alone are satisfiable
      s2 = z3.SolverFor("QF_LRA")
      s2.set("timeout", 60000)
      s2.from_string("\n".join(decl + body))
      t0 = time.time()
      if s2.check() != z3.sat:
        raise Unsupported("hypotheses are contradictory")
      self.stats.solver_time += time.time() - t0
      self.stats.queries += 1
      self.stats.witnesses += 1
    return r

  def valid(self, f):
    """is f implied by the path condition"""
    t0 = time.time()
    self.activate(f)
    s = self.solver
    s.push()
    s.add(z3.Not(f))
    s.set("timeout", 60000 * SLOW)
    r = s.check()
    m = s.model() if r == z3.sat else None
    s.pop()
    s.set("timeout", 10000 * SLOW)
    self.stats.solver_time += time.time() - t0
    self.stats.queries += 1
    return r, m

  # -- models --------------------------------------------------------------------
  def base_values(self, extra=None, model=None, attempt=0):
    """concrete values of the base unknowns satisfying the path condition (and extra, when the solver can find it)"""
    if getattr(self, "values_hook", None):
      return self.values_hook(extra, attempt)
    rng = random.Random(1000 + attempt)
    s = z3.Solver()
    s.set("timeout", 4000 * SLOW)
    for f in self.pc:
      s.add(f)
    have = model
    self.modelled = True
    if have is None:
      if extra is not None:
        s.push()
        s.add(extra)
        if s.check() == z3.sat:
          have = s.model()
        else:
          s.pop()
      if have is None and self.pc:
        # prefer generic values: fix the base unknowns at random where the path condition allows it
        wide = [m for m in map(_margin, self.pc) if m is not None]
        s.push()
        s.add(*wide)
        if wide and s.check() != z3.sat:
          s.pop()
          s.set("timeout", 300)
          for m in wide:
            s.push()
            s.add(m)
            if s.check() != z3.sat:
              s.pop()
        relevant = {str(v) for f in self.pc for v in _vars(f)}
        for i in sorted(self.T.base):
          if self.T.conj[i] < i:
            continue
          for z in self.z3var(i):
            if z is None or str(z) not in relevant:
              continue
            val = Fraction(rng.randint(-12, 12) or 5, 8)
            s.push()
            s.add(z == z3.RealVal(str(val)))
            s.set("timeout", 300)
            if s.check() != z3.sat:
              s.pop()
        s.set("timeout", 4000 * SLOW)
        if s.check() == z3.sat:
          have = s.model()
        else:
          s = z3.Solver()
          s.set("timeout", 10000 * SLOW)
          s.add(*self.pc)
          if s.check() == z3.sat:
            have = s.model()
          else:
            self.modelled = False
    vals = {}

    def real(z):
      # attempt 0 without a goal model: generic random values wherever the solver leaves the choice open
      if have is not None:
        v = have.eval(z, model_completion=False)
        if z3.is_rational_value(v):
          return float(v.as_fraction())
        if z3.is_algebraic_value(v):
          return float(v.approx(20).as_fraction())
      return (rng.randint(-12, 12) or 5) / 8.0

    for i in sorted(self.T.base):
      if self.T.conj[i] < i:
        continue
      re, im = self.z3var(i)
      if im is None:
        vals[self.T.name[i]] = abs(real(re)) if i in self.nonneg else real(re)
      else:
        vals[self.T.name[i]] = [real(re), real(im)]
    for n, e in self.ints.items():
      v = None
      if have is not None:
        v = have.eval(e, model_completion=True)
        v = _long(v) if z3.is_int_value(v) or z3.is_bv_value(v) else None
      if v is None and self.pc:
        if s.check() == z3.sat:
          v = _long(s.model().eval(e, model_completion=True))
      vals[n] = v if v is not None else 0
    return vals


def _long(v):
  return v.as_signed_long() if z3.is_bv_value(v) else v.as_long()


def _margin(f):
  """a comparison of reals, strengthened so that rounding errors do not decide it"""
  neg = z3.is_not(f)
  g = f.arg(0) if neg else f
  if not (z3.is_le(g) or z3.is_lt(g) or z3.is_ge(g) or z3.is_gt(g)) or g.arg(0).sort() != z3.RealSort():
    return None
  a, b = g.arg(0), g.arg(1)
  if (z3.is_le(g) or z3.is_lt(g)) == neg:
    a, b = b, a
  return a + z3.RealVal("1/64") <= b


def _vars(f, seen=None):
  out, stack, seen = set(), [f], set()
  while stack:
    e = stack.pop()
    if e.get_id() in seen:
      continue
    seen.add(e.get_id())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
      out.add(e)
    stack.extend(e.children())
  return out


def _isqrt(n):
  import math
  r = math.isqrt(n)
  return r if r * r == n else None


def evaluate(p, vals):
  """value of polynomial p at named base values; None if it mentions other unknowns"""
  t = sym.T
  tot = 0j
  for m, c in p.t.items():
    x = complex(float(c))
    for v in m:
      if v == 0:
        x *= 1j
        continue
      j = min(v, t.conj[v])
      w = vals.get(t.name[j])
      if w is None:
        return None
      w = complex(*w) if isinstance(w, (list, tuple)) else complex(w)
      x *= w if v == j else w.conjugate()
    tot += x
  return tot


class Violation:

  def __init__(self, label, detail, values, exact):
    self.label = label
    self.detail = detail
    self.values = values  # list of candidate value dicts
    self.exact = exact


class ViolationFound(BaseException):

  def __init__(self, v):
    super().__init__(v.label)
    self.v = v


# ---------------------------------------------------------------------------------------------------------------------
class Ctx:
  symbolic = False

  def contents(self, a):
    return a


class SymCtx(Ctx):
  symbolic = True

  def __init__(self, eng):
    self.eng = eng
    self.results = []
    self.n_obl = 0
    self.np = np

  def fresh(self, name, cplx=False):
    return S.var(self.eng.newvar(name, cplx, base=True))

  def tensor(self, name, shape, cplx=False):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*a.shape):
      a[i] = self.fresh(f"{name}{list(i)}" if i else name, cplx)
    return a

  def real(self, name):
    return self.fresh(name)

  def complex(self, name):
    return self.fresh(name, True)

  def positive(self, name):
    s = self.fresh(name)
    v = next(iter(s.t))[0]
    self.eng.nonneg.add(v)
    self.eng.assume(self.eng.z3var(v)[0] > 0)
    return s

  def int(self, name, lo, hi):
    """symbolic integer"""
    e = z3.Int(name)
    self.eng.ints[name] = e
    self.eng.assume(z3.And(e >= lo, e <= hi))
    return SymInt(e)

  def label(self, name, lo, hi):
    e = z3.Int(name)
    self.eng.ints[name] = e
    self.eng.assume(z3.And(e >= lo, e <= hi))
    return SymInt(e, h=True)

  def const_label(self, v):
    """a known integer that can be looked up together with symbolic labels"""
    return SymInt(z3.IntVal(v), h=True)

  def pick(self, name, lo, hi):
    """symbolic integer whose value the path then fixes (one path per feasible value)"""
    return int.__index__(self.eng.concretise(self.int(name, lo, hi).e))

  def choice(self, name, options):
    options = list(options)
    return options[self.pick(name, 0, len(options) - 1)]

  def perm(self, name, n):
    rest, out = list(range(n)), []
    for k in range(n):
      out.append(rest.pop(self.pick(f"{name}.{k}", 0, len(rest) - 1)))
    return out

  def assume(self, c):
    if isinstance(c, (bool, np.bool_)):
      if not c:
        raise PathAbort()
      return
    self.eng.assume(c)

  def spectrum(self, name, n):
    """n symbolic singular values, sorted, non-negative"""
    out = []
    for i in range(n):
      s = self.fresh(f"{name}[{i}]")
      v = next(iter(s.t))[0]
      self.eng.nonneg.add(v)
      self.eng.assume(self.eng.z3var(v)[0] >= 0)
      out.append(s)
    for a, b in zip(out, out[1:]):
      self.eng.assume(a >= b)
    return out

  def matrix_with_spectrum(self, name, m, n, svals, cplx=False):
    """an arbitrary matrix with the given singular values"""
    import stubs
    a = np.empty((m, n), dtype=object)
    for i in np.ndindex(m, n):
      a[i] = S.var(self.eng.newvar(f"{name}{list(i)}", cplx))
    stubs.register_svd(self.eng, a, svals, cplx)
    return a

  def known_svd(self, name, m, n, svals, cplx=False):
    """(matrix, u, s, v): an arbitrary matrix with the given singular values and its factors"""
    import stubs
    return stubs.known_svd(self.eng, name, m, n, svals, cplx)

  def nonzero_svd(self):
    """assume that matrices given to svd are not zero"""
    self.eng.nonzero_svd = True

  def isometry(self, name, m, n, cplx=False):
    """an arbitrary m x n matrix (m >= n) with orthonormal columns"""
    import stubs
    u = stubs._vararr(self.eng, f"{name}", (m, n), cplx)
    stubs._isometry(self.eng, u, f"{name} isometric", m == n)
    self.eng.stubbed = True
    return u

  def diag_svd(self, name, svals):
    """diagonal matrix with known factors (identity)"""
    import stubs
    n = len(svals)
    a = np.diag(np.array([S.lift(x) for x in svals] + [None], dtype=object)[:n])
    a = sym.arr(a)
    one = sym.arr(np.eye(n))
    s = self.array_of(svals)
    self.eng.cache_stub[("svd", stubs._key(a))] = (one, s, one.copy())
    self.eng.known_svds.append((name, a, (one, s, one.copy())))
    self.eng.stubbed = True
    return a, one, s, one.copy()

  def array_of(self, xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
      a[i] = S.lift(x)
    return a

  # -- assertions --------------------------------------------------------------
  def eq(self, actual, expected, label="value"):
    eng = self.eng
    a, e = _asarray(actual), _asarray(expected)
    if a.shape != e.shape:
      self.fail(label, f"shape {a.shape} instead of {e.shape}")
    a, e = sym.arr(a), sym.arr(e)
    self.results.append((label, a))
    pairs = [(a[i], e[i]) for i in np.ndindex(*a.shape)]
    eng.stats.obligations += 1
    self.n_obl += 1
    if not pairs:
      eng.stats.discharged += 1
      return
    r = eng.prove_zero(pairs)
    if r == z3.unsat:
      eng.stats.discharged += 1
      if len(eng.stats.samples) < 3:
        eng.stats.samples.append({
            "assertion": label,
            "shape": list(a.shape),
            "actual[0]": repr(a.ravel()[0]),
            "expected[0]": repr(e.ravel()[0])
        })
      return
    if r != z3.sat:
      eng.stats.inconclusive.append(f"{label}: solver {r}")
      return
    # counterexample: values of the unknowns that make one entry differ
    bad = [(i, a[i], e[i]) for i in np.ndindex(*a.shape) if (a[i] - e[i]).t]
    cands = []
    i, x, y = min(bad, key=lambda b: len((b[1] - b[2]).t))
    d = x - y
    exact = all(v in eng.T.base for v in d.vars())
    re, im = eng.to_z3(d)
    if len(d.t) < 200:
      f = re != 0 if im is None else z3.Or(re != 0, im != 0)
      cands.append(eng.base_values(extra=f))
    for k in range(3):
      cands.append(eng.base_values(attempt=k + 1))
    raise ViolationFound(Violation(label, f"entry {list(i)}: {x!r} instead of {y!r}", cands, exact))

  def parallel(self, t, x, label):
    """t is x up to a scalar factor; the scalars that decompositions returned serve as witnesses"""
    a, b = _asarray(t).ravel(), _asarray(x).ravel()
    for key, fs in list(self.eng.cache_stub.items()):
      if key[0] != "qr":
        continue
      q, r = fs
      if r.shape[0] != 1 or r.shape[1] != 1:
        continue
      for f in (r[0, 0], r[0, 0].conjugate()):
        if self.eng.prove_zero([(a[i] * f, b[i]) for i in range(len(a))]) == z3.unsat:
          self.eng.stats.obligations += 1
          self.eng.stats.discharged += 1
          self.n_obl += 1
          return
    self.eq(np.array([a[i] * b[0] - a[0] * b[i] for i in range(len(a))], dtype=object), np.zeros(len(a)), label)

  def check(self, cond, label="condition"):
    eng = self.eng
    eng.stats.obligations += 1
    self.n_obl += 1
    if isinstance(cond, (bool, np.bool_)):
      # decided on this path: the path condition is satisfiable (every fork was asked of the solver)
      if cond:
        eng.stats.discharged += 1
        return
      raise ViolationFound(Violation(label, "false on this path", [eng.base_values(attempt=k) for k in range(2)], True))
    f = cond.f if isinstance(cond, SymBool) else cond
    r, m = eng.valid(f)
    if r == z3.unsat:
      eng.stats.discharged += 1
      if len(eng.stats.samples) < 3:
        eng.stats.samples.append({"assertion": label, "formula": str(z3.simplify(f))[:300]})
      return
    if r != z3.sat:
      eng.stats.inconclusive.append(f"{label}: solver {r}")
      return
    raise ViolationFound(
        Violation(label, str(f)[:200], [eng.base_values(model=m), eng.base_values(extra=z3.Not(f), attempt=1)],
                  not eng.stubbed))

  def fail(self, label, detail=""):
    if self.eng.infeasible():
      raise PathAbort()
    self.eng.stats.obligations += 1
    self.n_obl += 1
    raise ViolationFound(Violation(label, detail, [self.eng.base_values(attempt=k) for k in range(3)], True))

  def raises(self, exc, fn, label="rejected"):
    self.eng.stats.obligations += 1
    self.n_obl += 1
    try:
      fn()
    except exc:
      self.eng.stats.discharged += 1
      return
    raise ViolationFound(
        Violation(label, f"{exc} not raised", [self.eng.base_values(attempt=k) for k in range(2)], True))


def _asarray(x):
  if isinstance(x, np.ndarray):
    return x
  if isinstance(x, S):
    return x.reshape(())
  if hasattr(x, "shape") and hasattr(x, "__array__"):
    return np.asarray(x)
  a = np.asarray(x, dtype=object)
  return a


class ConcreteCtx(Ctx):
  symbolic = False

  def __init__(self, vals, tol=1e-6):
    self.vals = vals
    self.tol = tol
    self.results = []
    self.eng = None
    self.n_obl = 0

  def _get(self, name, cplx):
    v = self.vals.get(name)
    if v is None:
      rng = random.Random(zlib.crc32(name.encode()))
      v = [rng.randint(-12, 12) / 8.0 + 0.0625, rng.randint(-12, 12) / 8.0 if cplx else 0.0]
      if not cplx:
        v = v[0]
    if isinstance(v, (list, tuple)):
      v = complex(*v)
    return complex(v) if cplx else float(v)

  def tensor(self, name, shape, cplx=False):
    a = np.empty(shape, dtype=np.complex128 if cplx else np.float64)
    for i in np.ndindex(*a.shape):
      a[i] = self._get(f"{name}{list(i)}" if i else name, cplx)
    return a

  def real(self, name):
    return np.float64(self._get(name, False))

  def complex(self, name):
    return np.complex128(self._get(name, True))

  def positive(self, name):
    return np.float64(abs(self._get(name, False)) or 1.0)

  def int(self, name, lo, hi):
    v = self.vals.get(name)
    return lo if v is None else int(v)

  label = int
  pick = int

  def const_label(self, v):
    return v

  def choice(self, name, options):
    options = list(options)
    return options[self.pick(name, 0, len(options) - 1)]

  def perm(self, name, n):
    rest, out = list(range(n)), []
    for k in range(n):
      out.append(rest.pop(self.pick(f"{name}.{k}", 0, len(rest) - 1)))
    return out

  def assume(self, c):
    if not bool(c):
      raise PathAbort()

  def spectrum(self, name, n):
    return sorted([abs(self._get(f"{name}[{i}]", False)) for i in range(n)], reverse=True)

  def matrix_with_spectrum(self, name, m, n, svals, cplx=False):
    rng = np.random.RandomState(7 + zlib.crc32(name.encode()) % 1000)

    def iso(k, l):
      x = rng.randn(k, l) + (1j * rng.randn(k, l) if cplx else 0)
      return np.linalg.qr(x)[0]

    k = min(m, n)
    return iso(m, k) @ np.diag(np.array(svals, dtype=float)) @ iso(n, k).conj().T

  def nonzero_svd(self):
    pass

  def isometry(self, name, m, n, cplx=False):
    rng = np.random.RandomState(11 + zlib.crc32(name.encode()) % 1000)
    return np.linalg.qr(rng.randn(m, n) + (1j * rng.randn(m, n) if cplx else 0))[0]

  def known_svd(self, name, m, n, svals, cplx=False):
    a = self.matrix_with_spectrum(name, m, n, svals, cplx)
    u, s, v = np.linalg.svd(a, full_matrices=False)
    return a, u, np.array(svals, dtype=float), v

  def diag_svd(self, name, svals):
    n = len(svals)
    return np.diag(np.array(svals, dtype=float)), np.eye(n), np.array(svals, dtype=float), np.eye(n)

  def array_of(self, xs):
    return np.array(xs)

  def eq(self, actual, expected, label="value"):
    self.n_obl += 1
    a, e = np.asarray(actual), np.asarray(expected)
    self.results.append((label, a))
    if a.shape != e.shape:
      raise ConcreteFailure(f"{label}: shape {a.shape} instead of {e.shape}")
    if a.size == 0:
      return
    a, e = a.astype(np.complex128), e.astype(np.complex128)
    if not (np.isfinite(a).all() and np.isfinite(e).all()):
      if np.isfinite(e).all():
        raise ConcreteFailure(f"{label}: not finite {a!r}")
      raise PathAbort()
    sc = max(1.0, float(np.abs(e).max()))
    err = float(np.abs(a - e).max())
    if err > self.tol * sc:
      raise ConcreteFailure(f"{label}: differs by {err:.3g}: got {np.array2string(a.ravel()[:6], precision=5)}"
                            f" expected {np.array2string(e.ravel()[:6], precision=5)}")

  def parallel(self, t, x, label):
    a, b = np.asarray(t).ravel(), np.asarray(x).ravel()
    self.eq(np.array([a[i] * b[0] - a[0] * b[i] for i in range(len(a))]), np.zeros(len(a)), label)

  def check(self, cond, label="condition"):
    self.n_obl += 1
    if not bool(cond):
      raise ConcreteFailure(f"{label}: false")

  def fail(self, label, detail=""):
    raise ConcreteFailure(f"{label}: {detail}")

  def raises(self, exc, fn, label="rejected"):
    self.n_obl += 1
    try:
      fn()
    except exc:
      return
    raise ConcreteFailure(f"{label}: {exc} not raised")


# ---------------------------------------------------------------------------------------------------------------------
class Profiler:
  """records which functions of /repo the symbolic executor ran (every function is reported once per scenario)"""

  def __init__(self, out, root):
    self.out = out
    self.root = root

  def __call__(self, co, _):
    if co.co_filename.startswith(self.root):
      self.out.add(co.co_filename[len(self.root) + 1:] + ":" + co.co_qualname)
    return sys.monitoring.DISABLE

  def __enter__(self):
    m = sys.monitoring
    m.use_tool_id(m.PROFILER_ID, "verif")
    m.restart_events()
    m.register_callback(m.PROFILER_ID, m.events.PY_START, self)
    m.set_events(m.PROFILER_ID, m.events.PY_START)

  def __exit__(self, *a):
    m = sys.monitoring
    m.set_events(m.PROFILER_ID, 0)
    m.free_tool_id(m.PROFILER_ID)


def run_concrete(fn, vals, tol=1e-6):
  """('ok'|'fail'|'abort', detail, ctx)"""
  ctx = ConcreteCtx(vals, tol)
  np.random.seed(12345)
  try:
    fn(ctx)
  except PathAbort:
    return "abort", "", ctx
  except ConcreteFailure as e:
    return "fail", str(e), ctx
  except Exception as e:  # pylint: disable=broad-except
    tb = traceback.format_exc().strip().splitlines()
    return "fail", f"exception {type(e).__name__}: {e} | " + " | ".join(t.strip() for t in tb[-7:-1]), ctx
  return "ok", "", ctx


def explore(fn, stats, deadline, repo_root, max_paths=100000, validate=2):
  with Profiler(stats.functions, repo_root):
    return _explore(fn, stats, deadline, max_paths, validate)


def _explore(fn, stats, deadline, max_paths, validate):
  """explore all paths of harness fn. Returns list of Violation (possibly empty; exploration stops at the first)."""
  stack = [[]]
  viol = []
  while stack:
    prefix = stack.pop()
    if stats.paths >= max_paths or time.time() > deadline:
      stats.complete = False
      break
    eng = Engine(stats, prefix, deadline)
    sym.ENG = eng
    ctx = SymCtx(eng)
    np.random.seed(12345)
    try:
      fn(ctx)
      done = True
    except PathAbort:
      done = False
    except DeadlineHit:
      stats.complete = False
      break
    except ViolationFound as v:
      stats.paths += 1
      viol.append(v.v)
      stats.complete = False
      return viol
    except Unsupported as e:
      if eng.infeasible():
        done = False
      else:
        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-6:]))
        stats.inconclusive.append(f"unsupported: {e} at {where}")
        stats.complete = False
        # the executor cannot follow this path: keep a model of it as a candidate for concrete replay
        viol.append(Violation("unsupported", str(e), [eng.base_values(attempt=k) for k in range(3)], False))
        return viol
    except Exception as e:  # pylint: disable=broad-except
      if eng.infeasible():
        done = False
      else:
        stats.paths += 1
        tb = traceback.format_exc().strip().splitlines()
        viol.append(
            Violation(f"exception {type(e).__name__}", f"{e} | " + " | ".join(t.strip() for t in tb[-7:-1]),
                      [eng.base_values(attempt=k) for k in range(2)], False))
        stats.complete = False
        return viol
    stack.extend(eng.pending)
    if done:
      stats.paths += 1
      if ctx.n_obl:
        stats.witnesses += 1
      if stats.validated < validate and stats.skipped < 20:
        # a path's model, run through the unmodified code on floats, must agree with the symbolic results
        eng.validating = True
        try:
          vals = eng.base_values(attempt=stats.validated)
        except PathAbort:
          stats.skipped += 1
          continue
        if not eng.modelled:
          stats.skipped += 1
          continue
        symres = ctx.results
        st, detail, cctx = run_concrete(fn, vals)
        if st == "fail":
          viol.append(Violation("concrete", detail, [vals], True))
          return viol
        if st == "ok":
          by = {}
          for l, b in cctx.results:
            by.setdefault(l, []).append(b)
          n = {}
          for l, _ in symres:
            n[l] = n.get(l, 0) + 1
          if any(len(by.get(l, ())) != k for l, k in n.items()):
            n = {l: 0 for l in n}
          pairs = [(l, a, by[l].pop(0)) for l, a in symres if n[l]]
          if any(a.shape != b.shape for _, a, b in pairs):
            # a condition on derived unknowns (a spectrum, say) was not met by the floats: another path ran
            stats.skipped += 1
            continue
          for l1, a, b in pairs:
            for i in np.ndindex(*a.shape):
              x = evaluate(a[i], vals)
              if x is None:
                continue
              if abs(x - complex(b[i])) > 1e-6 * max(1, abs(x)):
                stats.inconclusive.append(f"symbolic result {l1} disagrees with the code run on floats: {x} vs {b[i]}")
                stats.notes.append("MISMATCH")
                break
          stats.validated += 1
  return viol
