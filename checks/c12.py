"""C12: symmetry charges form the group they claim."""
import itertools
import numpy as np
from runner import Scenario
import qarr
import bvarr
from bvarr import bits, array, conj, B
from bslib import World, TYPES, rows, mods
from sym import SymBool
import z3
from tensornetwork.block_sparse import charge as ch
from tensornetwork.block_sparse.charge import U1Charge, Z2Charge, ZNCharge, BaseCharge, fuse_charges, fuse_ndarray_charges
from tensornetwork.block_sparse.index import Index

BOUNDS = ("static fuse/dual/identity: all 16-bit charges (bit-vectors; also 8, 32 and 64 bits for U(1) and Z2) and all pairs and triples of them, for Z_N with N in 2..33, 64, 100, 127, 128, "
          "255, 256, 1000, 16383, 16384, 20000, 32767 and for one arbitrary symbolic N below 2^15; lists: up to 4 charge lists of up to 3 charges, up to 3 symmetries, all flow patterns, "
          "U(1) charges arbitrary with absolute value up to 1000, Z_N charges arbitrary")
OUTSIDE = "N that do not fit the charge dtype; U(1) sums beyond the charge dtype (wrap-around is included in the bit-vector laws); random charges"
ASSUMPTIONS = ["numpy's element-wise integer arithmetic is two's-complement and its remainder has the sign of the divisor (encoded as bit-vector bvsmod)"]

NS = list(range(2, 34)) + [64, 100, 127, 128, 255, 256, 1000, 16383, 16384, 20000, 32767]


def is_(ctx, a, b, label):
  ctx.check(conj([x == y for x, y in zip(a, b)]) if len(a) == len(b) else False, label)


def laws(ctx, cls, w, n, xs, assoc=True):
  """group laws for the charges xs (lists of one element each)"""
  with qarr.on(ctx):
    dt = np.dtype(f"int{w}")
    arr = [array([x], w) for x in xs]
    e = array([cls.identity_charge()], w)
    fuse, dual = cls.fuse, cls.dual_charges

    def inside(v, label):
      ctx.check(v.dtype == dt, label + ": dtype")
      if n is not None:
        ctx.check(conj([v[0] >= 0, v[0] < n]), label + ": stays inside the group")

    a = arr[0]
    is_(ctx, fuse(a, e), a, "a + 0 = a")
    is_(ctx, fuse(e, a), a, "0 + a = a")
    d = dual(a)
    inside(d, "dual")
    is_(ctx, dual(d), a, "dual of dual")
    is_(ctx, fuse(a, d), e, "a + dual(a) = 0")
    is_(ctx, fuse(d, a), e, "dual(a) + a = 0")
    inside(array([x for x in e], w), "identity")
    if len(arr) < 2:
      return
    b = arr[1]
    s = fuse(a, b)
    inside(s, "sum")
    is_(ctx, s, fuse(b, a), "a + b = b + a")
    total(ctx, s[0], xs[0], xs[1], n, w)
    if len(arr) < 3 or not assoc:
      return
    c = arr[2]
    is_(ctx, dual(s), fuse(dual(a), dual(b)), "dual(a + b) = dual(a) + dual(b)")
    is_(ctx, fuse(s, c), fuse(a, fuse(b, c)), "(a + b) + c = a + (b + c)")


def total(ctx, s, a, b, n, w):
  """s is the sum in the group (no division in the oracle)"""
  if n is None:
    return
  if not ctx.symbolic:
    ctx.check(int(s) == (int(a) + int(b)) % int(n), "a + b is the sum modulo n")
    return
  big = [x.resize(w + 2) if isinstance(x, B) else B(z3.BitVecVal(int(x), w + 2), w + 2) for x in (s, a, b, n)]
  s, a, b, n = [x.e for x in big]
  ctx.check(SymBool(z3.Or(s == a + b, s == a + b - n)), "a + b is the sum modulo n")


def law_u1(ctx, w):
  xs = [bits(ctx, c, w) for c in "abc"]
  laws(ctx, U1Charge, w, None, xs)
  with qarr.on(ctx):
    s = U1Charge.fuse(array(xs[:1], w), array(xs[1:2], w))
    is_(ctx, s, [xs[0] + xs[1]], "the sum of U(1) charges is the sum of integers")
    is_(ctx, U1Charge.dual_charges(array(xs[:1], w)), [-xs[0]], "the dual of a U(1) charge is its negative")


def law_z2(ctx, w):
  laws(ctx, Z2Charge, w, 2, [bits(ctx, c, w, 0, 1) for c in "abc"])


def law_zn(ctx, n, w=16, assoc=True):
  laws(ctx, ZNCharge(n), w, n, [bits(ctx, c, w, 0, n - 1) for c in "abc"], assoc)


def law_any(ctx, k):
  """arbitrary n"""
  n = bits(ctx, "n", 16, 2, None)
  xs = [bits(ctx, c, 16, 0, None) for c in "ab"[:k]]
  for x in xs:
    ctx.assume(x < n)
  laws(ctx, ZNCharge(n if ctx.symbolic else int(n)), 16, n, xs)


# -- lists of charges ----------------------------------------------------------
def combine(ts, flows, ms):
  """charge of a combination of rows"""
  out = []
  for k, m in enumerate(ms):
    s = 0
    for t, f in zip(ts, flows):
      s = s - t[k] if f else s + t[k]
    out.append(int(s) % m if m else s)
  return tuple(out)


def product(lists, flows, ms):
  """row-major order"""
  return [combine(ts, flows, ms) for ts in itertools.product(*lists)]


def same_rows(ctx, c, want, label):
  got = rows(c)
  ctx.check(len(got) == len(want) and len(c) == len(want) and c.dim == len(want), label + ": number of charges")
  ctx.check(all(len(g) == len(v) for g, v in zip(got, want)), label + ": number of symmetries")
  for g, v in zip(got, want):
    ctx.check(all(qarr.same(x, y) for x, y in zip(g, v)), label)


def lists(ctx, types, specs, rep="raw", only=None):
  """fuse_charges and the operators on charge collections"""
  with qarr.on(ctx):
    w = World(ctx, types)
    cs = [w.charge(s, rep) for s in specs]
    before = [rows(c) for c in cs]
    ms = mods(cs[0])
    n = len(cs)
    for flows in itertools.product((False, True), repeat=n):
      for fl in ([list(flows)] if n > 1 else [list(flows), np.array(flows)]):
        f = fuse_charges(cs, fl)
        same_rows(ctx, f, product(before, flows, ms), f"fuse_charges flows={flows}")
        ctx.check(list(f.charge_types) == list(cs[0].charge_types), "charge types of the result")
        ctx.check(f.num_symmetries == len(ms), "number of symmetries of the result")
      same_rows(ctx, Index(cs, list(flows)).fuse_charges() if hasattr(Index, "fuse_charges") else fuse_charges(Index(cs, list(flows)).flat_charges, Index(cs, list(flows)).flat_flows),
                product(before, flows, ms), f"charges of an index, flows={flows}")
    for c, b in zip(cs, before):
      same_rows(ctx, c, b, "inputs are unchanged")
      neg = product([b], [True], ms)
      for t in (True, np.bool_(True)):
        same_rows(ctx, c * t, neg, "dual")
        same_rows(ctx, c.dual(t), neg, "dual")
      same_rows(ctx, c.dual(True).dual(True), b, "dual of dual")
      for t in (False, np.bool_(False)):
        same_rows(ctx, c * t, b, "not dual")
        same_rows(ctx, c.dual(t), b, "not dual")
      same_rows(ctx, c.dual(), b, "not dual")
      for bad in (1, 0, 2, -1, None, 1.0):
        ctx.raises(ValueError, lambda c=c, bad=bad: c * bad, "multiplied by something that is not a bool")
      for d in (1, 2, 3):
        e = c.identity_charges(d)
        same_rows(ctx, e, [tuple(0 for _ in ms)] * d, "identity charges")
        same_rows(ctx, c + e, [r for r in b for _ in range(d)], "adding identity charges")
        same_rows(ctx, e + c, b * d, "adding to identity charges")
      s = c + c.dual(True)
      k = len(b)
      for i in range(k):
        ctx.check(all(qarr.same(x, 0) for x in rows(s)[i * k + i]), "a charge and its dual fuse to the identity")
    for c1, b1 in zip(cs, before):
      for c2, b2 in zip(cs, before):
        same_rows(ctx, c1 + c2, product([b1, b2], [False, False], ms), "sum of two lists")
        same_rows(ctx, c1 + c2 * True, product([b1, b2], [False, True], ms), "difference of two lists")
    if n >= 3:
      same_rows(ctx, (cs[0] + cs[1]) + cs[2], rows(cs[0] + (cs[1] + cs[2])), "associativity")
    ctx.raises(ValueError, lambda: fuse_charges(cs, [False] * (n + 1)), "different numbers of charges and flows")
    ctx.raises(ValueError, lambda: fuse_charges(cs, [False] * (n - 1)), "different numbers of charges and flows")
    for c, b in zip(cs, before):
      same_rows(ctx, c, b, "inputs are unchanged")


def products(ctx, parts, spec, rep):
  """charges of a product group"""
  with qarr.on(ctx):
    ws = [World(ctx, t) for t in parts]
    cs = [w.charge(s, rep) for w, s in zip(ws, spec)]
    before = [rows(c) for c in cs]
    p = cs[0]
    for c in cs[1:]:
      p = p @ c
    want = [sum(r, ()) for r in zip(*before)]
    same_rows(ctx, p, want, "product charge")
    types = [t for c in cs for t in c.charge_types]
    ctx.check(list(p.charge_types) == types, "types of a product charge")
    ms = mods(p)
    for c, b in zip(cs, before):
      same_rows(ctx, c, b, "inputs are unchanged")
    same_rows(ctx, p + p, product([want, want], [False, False], ms), "sum of product charges")
    same_rows(ctx, p.dual(True), product([want], [True], ms), "dual of product charges")
    same_rows(ctx, p + p.dual(True), product([want, want], [False, True], ms), "difference of product charges")
    for flows in itertools.product((False, True), repeat=2):
      same_rows(ctx, fuse_charges([p, p], flows), product([want, want], flows, ms), "fuse product charges")
    n = len(cs[0])
    longer = World(ctx, parts[0]).charge(";".join([",".join(["0"] * (n + 1))] * (parts[0].count(".") + 1)))
    ctx.raises(ValueError, lambda: p @ longer, "product of lists of different lengths")
    ctx.raises(ValueError, lambda: longer @ p, "product of lists of different lengths")


def range_of(ctx, n, k, labels=False):
  """the constructors accept exactly the charges of the group"""
  with qarr.on(ctx):
    a = qarr.symbols(ctx, "x", (k,))
    cls = TYPES[f"Z{n}"][0]
    ok = all([bool(x >= 0) and bool(x < n) for x in a])
    mk = (lambda: cls(a, charge_labels=np.arange(k)[::-1])) if labels else (lambda: cls(a))
    if ok:
      c = mk()
      same_rows(ctx, c, [(x,) for x in (a[::-1] if labels else a)], "charges as given")
    else:
      ctx.raises(ValueError, mk, "charge outside the group")


def kinds(ctx):
  for bad in (1, 0, -1, -5):
    ctx.raises(ValueError, lambda bad=bad: ZNCharge(bad), "a group needs at least two elements")
  with qarr.on(ctx):
    a = qarr.symbols(ctx, "x", (2, 2))
    for t in ([U1Charge], [U1Charge] * 3):
      ctx.raises(ValueError, lambda t=t: BaseCharge(a, charge_types=t), "wrong number of charge types")
    c = BaseCharge(a, charge_types=[U1Charge, U1Charge])
    same_rows(ctx, c, [tuple(r) for r in a], "charges as given")


def wide(ctx, cls, w, top):
  """large charges in a wide dtype"""
  with qarr.on(ctx):
    xs = [bits(ctx, c, w, 0 if cls is not U1Charge else -top, top) for c in "abc"]
    c1 = cls(array(xs[:2], w), charge_dtype=np.dtype(f"int{w}"))
    c2 = cls(array(xs[2:], w), charge_dtype=np.dtype(f"int{w}"))
    for c, x in ((c1, xs[:2]), (c2, xs[2:]), (c1.copy(), xs[:2])):
      is_(ctx, np.asarray(c.charges)[:, 0], x, "charges as given")
    s = c1 + c2
    if cls is U1Charge:
      is_(ctx, np.asarray(s.charges)[:, 0], [xs[0] + xs[2], xs[1] + xs[2]], "sum of large charges")
      is_(ctx, np.asarray(c1.dual(True).charges)[:, 0], [-xs[0], -xs[1]], "dual of large charges")
      f = fuse_charges([c1, c2], [True, False])
      is_(ctx, np.asarray(f.charges)[:, 0], [xs[2] - xs[0], xs[2] - xs[1]], "fused large charges")
    e = c1 + c1.identity_charges(1)
    is_(ctx, np.asarray(e.charges)[:, 0], xs[:2], "adding the identity to large charges")


def scenarios(tier):
  th = tier == "thorough"
  out = []
  for w in (8, 16, 32, 64):
    out += [Scenario(f"U1 {w} bits", law_u1, w), Scenario(f"Z2Charge {w} bits", law_z2, w)]
  for n in NS + ([] if not th else list(range(34, 129, 7)) + [8191, 30000, 32766]):
    out.append(Scenario(f"Z{n}", law_zn, n, 16, n < 34 or th and n < 130 or n in (64, 127, 128, 16384)))
  for n in (2, 3, 5, 64, 65, 127):
    out.append(Scenario(f"Z{n} 8 bits", law_zn, n, 8))
  for n in (3, 1000, 40000, 10**6):
    out.append(Scenario(f"Z{n} 32 bits", law_zn, n, 32, n == 3))
  out += [Scenario(f"any n {k}", law_any, k) for k in ((1, 2) if th else (1,))]
  out += [Scenario("large U1 charges", wide, U1Charge, 32, 2**29)]
  reps = ("raw", "labels")
  L = [("U1", ["a,b"]), ("U1", ["a,b,c"]), ("U1", ["a,b", "c,d"]), ("U1", ["a,b", "c", "d,e"]), ("U1", ["a,b,a", "b,-a"]), ("U1", ["a,b", "b,c", "a,1", "0,1"]),
       ("Z2", ["a,b", "c,d"]), ("Z3", ["a,b", "c,d", "e,a"]), ("Z4", ["a,b", "c,d"]), ("Z4", ["a,b", "b,c", "d,a", "1,0"]),
       ("U1.Z2", ["a,b;c,d", "c,a;a,b"]), ("U1.U1", ["a,b;c,d", "c,a;e,b"]), ("Z3.Z4", ["a,b;a,1", "1,a;c,a"]), ("Z2.U1.Z3", ["a,1;c,d;a,b", "0,a;d,c;b,0"]),
       ("U1.U1.U1", ["a,b;c,d;e,f", "c,a;e,b;a,c"]), ("U1.U1.U1", ["a,b;c,d;e,f", "c,a;e,b;a,c", "1,a;0,b;a,a"])]
  if th:
    L += [("Z3.Z4", ["a,b;a,b", "c,a;c,d"]), ("Z2.U1.Z3", ["a,b;c,d;a,b", "c,a;a,b;c,d"])]
  for t, s in L:
    for r in reps:
      out.append(Scenario(f"lists {t} {s} {r}", lists, t, s, r))
  for parts, spec in ((["U1", "Z2"], ["a,b", "a,b"]), (["U1", "U1"], ["a,b", "c,d"]), (["Z2", "Z3", "U1"], ["a,b", "a,b", "a,b"]), (["U1.Z2", "Z4"], ["a,b;c,d", "a,b"]),
                      (["U1", "U1", "U1"], ["a,b", "c,b", "d,a"])):
    for r in reps:
      out.append(Scenario(f"product {parts} {r}", products, parts, spec, r))
  for n in (2, 3, 4):
    for k in (1, 2):
      for l in (False, True):
        out.append(Scenario(f"range Z{n} {k} labels={l}", range_of, n, k, l))
  out.append(Scenario("kinds", kinds))
  return out
