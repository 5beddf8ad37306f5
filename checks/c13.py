"""C13: charge and index set operations treat charges by value."""
import itertools
import numpy as np
from runner import Scenario
import qarr
from bslib import World, TYPES, rows, mods
from tensornetwork.block_sparse import utils as ut
from tensornetwork.block_sparse.charge import BaseCharge, U1Charge, charge_equal, fuse_charges
from tensornetwork.block_sparse.index import Index, fuse_index_pair, fuse_indices

BOUNDS = ("arrays of up to 5 rows (1 column), 4 rows (2 columns), 3 rows (3 to 9 columns) of int8, int16, int32 and int64 with arbitrary bounded entries; charge collections of up to 4 charges of "
          "up to 4 symmetries (arbitrary U(1) charges up to 1000 in absolute value, arbitrary Z2/Z3/Z4 charges) in every representation: raw, compressed on demand, explicit labels in any order, and "
          "what copy, dual, indexing, reduce, intersect and fusing leave behind")
OUTSIDE = "collections built by hand from unique charges that are repeated or unused; more than 32767 different charges; random charges"
ASSUMPTIONS = ["numpy's sorting and set routines are run as they are on symbolic integers; reinterpreting an integer array as wider integers is little-endian"]


def eqrow(a, b):
  return len(a) == len(b) and all(qarr.same(x, y) for x, y in zip(a, b))


def find(r, rs):
  """first position of row r in rs, None if absent"""
  for i, s in enumerate(rs):
    if eqrow(r, s):
      return i
  return None


def ints(ctx, name, shape, dt="int16"):
  """arbitrary entries, or (shape a text) entries named by the text: rows separated by ';'"""
  if isinstance(shape, str):
    m = [r.split() for r in shape.split(";")]
    names = sorted({x for r in m for x in r if x.isalpha()})
    v = dict(zip(names, [ints(ctx, x, (1,), dt)[0] for x in names]))
    flat = [v[x] if x in v else int(x) for r in m for x in r]
    shp = (len(m), len(m[0]))
    return qarr.wrap(flat, shp, dt) if ctx.symbolic else np.array(flat, dtype=dt).reshape(shp)
  n = int(np.prod(shape))
  top = 100 if dt == "int8" else 1000
  if not ctx.symbolic:
    return np.array([ctx.int(f"{name}{i}", -top, top) for i in range(n)], dtype=dt).reshape(shape)
  for i in range(n):
    ctx.int(f"{name}{i}", -top, top)
  return qarr.wrap([qarr.Q(((f"{name}{i}", 1),)) for i in range(n)], shape, dt)


def aslist(a):
  a = np.asarray(a)
  return [tuple(r) if a.ndim > 1 else (r,) for r in a]


def is_set(ctx, got, want, label):
  """got has every value of want exactly once"""
  for i, r in enumerate(got):
    ctx.check(find(r, got[:i]) is None, label + ": no value twice")
    ctx.check(find(r, want) is not None, label + ": only values of the input")
  for r in want:
    ctx.check(find(r, got) is not None, label + ": every value")


def is_unique(ctx, res, rs, flags, label, first=True):
  index, inverse, counts = flags
  n = 1 + sum(flags)
  if n > 1:
    ctx.check(isinstance(res, (list, tuple)) and len(res) == n, label + ": number of results")
    res = list(res)
  else:
    res = [res]
  u = rows(res[0]) if isinstance(res[0], BaseCharge) else aslist(res[0])
  is_set(ctx, u, rs, label)
  k = 1
  if index:
    pos = [int(x) for x in np.asarray(res[k])]
    k += 1
    ctx.check(len(pos) == len(u) and all(0 <= p < len(rs) for p in pos) and all(find(r, rs) == p for r, p in zip(u, pos)), label + ": first occurrences")
  if inverse:
    inv = np.asarray(res[k])
    k += 1
    ctx.check(inv.shape == (len(rs),), label + ": shape of the inverse")
    ctx.check(all(0 <= int(i) < len(u) and eqrow(u[int(i)], r) for i, r in zip(inv, rs)), label + ": the inverse reconstructs the input")
  if counts:
    cnt = [int(x) for x in np.asarray(res[k])]
    ctx.check(len(cnt) == len(u) and all(c == sum(eqrow(r, s) for s in rs) for c, r in zip(cnt, u)), label + ": counts")
  return u


WIDE = ["a b;c b;a d", "a b;b a;a b;c a", "a b c;a d c;a b e", "a b c d;a e c d", "a b c d e;a b f d e", "a b c 0 1 2;d b c 0 1 2", "a b 0 1 2 3 4;c b 0 1 2 3 4", "a b 0 1 2 3 4 c;d b 0 1 2 3 4 a", "a b 0 1 2 3 4 5 c;d b 0 1 2 3 4 5 a"]
FLAGS = list(itertools.product((False, True), repeat=3))


def unique(ctx, shape, dt):
  with qarr.on(ctx):
    a = ints(ctx, "a", shape, dt)
    rs = aslist(a)
    for f in FLAGS:
      r = ut.unique(a, *f)
      u0 = r if not any(f) else r[0]
      u = is_unique(ctx, r, rs, f, f"unique {f}")
      ctx.check(u0.dtype == a.dtype and u0.ndim == a.ndim and u0.shape[1:] == a.shape[1:], "dtype and width of the unique values")
      if len(shape) == 1:
        ctx.check(all(bool(x[0] < y[0]) for x, y in zip(u, u[1:])), "one-dimensional unique values are sorted")
    ctx.check(all(x is y or qarr.same(x, y) for r, s in zip(rs, aslist(a)) for x, y in zip(r, s)), "input unchanged")


def round_trip(ctx, shape, dt):
  with qarr.on(ctx):
    a = ints(ctx, "a", shape, dt)
    c = ut.collapse(a)
    b = ut.expand(c, a.dtype, a.shape[1] if a.ndim == 2 else 0, a.ndim)
    ctx.check(b.shape == a.shape and b.dtype == a.dtype, "shape and dtype")
    ctx.check(all(eqrow(x, y) for x, y in zip(aslist(a), aslist(b))), "expand undoes collapse")
    if c.ndim == 1 and a.ndim == 2:
      ctx.check(len(c) == a.shape[0], "one entry per row")
      ra = aslist(a)
      for i in range(len(ra)):
        for j in range(len(ra)):
          ctx.check(bool(c[i] == c[j]) == eqrow(ra[i], ra[j]), "different rows collapse to different integers")


def is_intersection(ctx, res, ra, rb, indices, label, axis=0):
  if indices:
    ctx.check(len(res) == 3, label + ": number of results")
    c, la, lb = res
  else:
    c = res
  if isinstance(c, BaseCharge):
    rc = rows(c)
  else:
    rc = aslist(c if axis == 0 else c.T)
  common = [r for r in ra if find(r, rb) is not None]
  is_set(ctx, rc, common, label)
  if indices:
    la, lb = [int(x) for x in la], [int(x) for x in lb]
    ctx.check(len(la) == len(rc) and all(find(r, ra) == i for r, i in zip(rc, la)), label + ": first occurrences in the first array")
    ctx.check(len(lb) == len(rc) and all(find(r, rb) == i for r, i in zip(rc, lb)), label + ": first occurrences in the second array")
  return rc


def distinct(rs):
  return all(find(r, rs[:i]) is None for i, r in enumerate(rs))


def intersect(ctx, sa, sb, dt, axis=0):
  with qarr.on(ctx):
    a, b = ints(ctx, "a", sa, dt), ints(ctx, "b", sb, dt)
    ra, rb = aslist(a), aslist(b)
    sa = a.shape
    uniq = distinct(ra) and distinct(rb)
    if axis == 1:
      a, b = a.T, b.T
    for ind in (False, True):
      for au in (False, True):
        if au and not uniq:
          continue
        r = ut.intersect(a, b, axis=axis, assume_unique=au, return_indices=ind)
        rc = is_intersection(ctx, r, ra, rb, ind, f"intersect indices={ind} unique={au}", axis)
        c = r[0] if ind else r
        ctx.check(c.dtype == a.dtype and c.ndim == a.ndim, "dtype and ndim of the intersection")
        if len(sa) == 1:
          ctx.check(all(bool(x[0] < y[0]) for x, y in zip(rc, rc[1:])), "one-dimensional intersections are sorted")
        if axis == 0:
          r2 = ut._intersect_ndarray(np.asarray(a) if not ctx.symbolic else a, b, 0, au, ind)
          is_intersection(ctx, r2, ra, rb, ind, f"_intersect_ndarray indices={ind} unique={au}")
    ctx.check(all(eqrow(x, y) for x, y in zip(ra + rb, aslist(a if axis == 0 else a.T) + aslist(b if axis == 0 else b.T))), "inputs unchanged")


def refused(ctx):
  with qarr.on(ctx):
    a, b = ints(ctx, "a", (2, 2)), ints(ctx, "b", (2, 3))
    ctx.raises(ValueError, lambda: ut.intersect(a, b), "different widths")
    ctx.raises(ValueError, lambda: ut.intersect(a.T, b[:1].T, axis=1), "different heights")
    ctx.raises(ValueError, lambda: ut.intersect(a, b[:, 0]), "different ndims")
    ctx.raises(ValueError, lambda: ut.intersect(a, ints(ctx, "c", (2, 2), "int32")), "different dtypes")
    ctx.raises(NotImplementedError, lambda: ut.intersect(a, a, axis=2), "axis")
    w = World(ctx, "U1.U1")
    c = w.charge("a,b;c,d")
    e = c[np.array([], dtype=np.int64)]
    ctx.check(len(e) == 0 and e.dim == 0, "no charges")
    ctx.raises(ValueError, lambda: c == e, "comparison with no charges")
    ctx.raises(ValueError, lambda: c == np.zeros((0, 2), dtype=np.int16), "comparison with no charges")
    ctx.raises(ValueError, lambda: c == np.zeros((1, 3), dtype=np.int16), "comparison with charges of another width")
    ctx.raises(ValueError, lambda: c == np.zeros(3, dtype=np.int16), "comparison with charges of another width")


# -- collections ------------------------------------------------------------------
def explicit(c, order=-1):
  """the same collection given by its different charges, listed in another order, and labels"""
  rs = rows(c)
  us = []
  for r in rs:
    if find(r, us) is None:
      us.append(r)
  us = us[::order]
  labels = np.array([find(r, us) for r in rs], dtype=c.label_dtype)
  a = np.asarray(c.charges)
  first = [find(u, rs) for u in us]
  arr = c.charges[first, :]
  obj = c.__new__(type(c))
  obj.__init__(arr, charge_labels=labels, charge_types=c.charge_types)
  del a
  return obj


def representations(w, spec):
  """collections with the same charges"""
  n = len(w.values(spec))
  raw = lambda: w.charge(spec)
  lab = lambda: w.charge(spec, "labels")
  out = [("raw", raw()), ("labels", lab()), ("explicit", explicit(raw())), ("explicit sorted", explicit(raw(), 1)), ("copy", explicit(raw()).copy()), ("copy of raw", raw().copy()),
         ("dual twice", lab().dual(True).dual(True)), ("dual of explicit", explicit(raw().dual(True)).dual(True)),
         ("indexed", lab()[list(range(n))]), ("reversed twice", explicit(raw())[np.arange(n)[::-1]][list(range(n))[::-1]]),
         ("part", explicit(w.charge(spec) + w.charge(spec).identity_charges(2))[np.arange(0, 2 * n, 2)]),
         ("reduced", explicit(raw()).reduce(raw().charges)), ("fused", lab() + lab().identity_charges(1)), ("raw dual twice", raw() * True * True)]
  return out


def collection(ctx, types, spec, tspec, few=False):
  """every operation of one collection, for all its representations"""
  with qarr.on(ctx):
    w = World(ctx, types)
    want = w.values(spec)
    n = len(want)
    targets = w.charge(tspec)
    rt = rows(targets)
    tarr = targets.charges
    nuniq = sum(find(r, want[:i]) is None for i, r in enumerate(want))
    base = representations(w, spec)
    for name, c in [b for b in base if not few or b[0] in ("raw", "labels", "explicit", "indexed", "reduced")]:
      def val(d, rs, label):
        got = rows(d)
        ctx.check(len(got) == len(rs) and len(d) == len(rs) and d.dim == len(rs), f"{name}: {label}: number of charges")
        ctx.check(all(eqrow(x, y) for x, y in zip(got, rs)), f"{name}: {label}")
        ctx.check(list(d.charge_types) == list(c.charge_types) and d.num_symmetries == len(mods(c)), f"{name}: {label}: charge types")
      val(c, want, "charges")
      # operations that do not change the representation come first
      for f in FLAGS:
        is_unique(ctx, c.unique(*f), want, f, f"{name}: unique {f}")
      ctx.check(all(eqrow(x, y) for x, y in zip([c[i] for i in range(n)] and [rows(c[i])[0] for i in range(n)], want)), f"{name}: indexing")
      val(c[-1], [want[-1]], "last charge")
      for idx in ([0], [n - 1, 0], [0, 0, n - 1], list(range(n))[::-1]):
        val(c[idx], [want[i] for i in idx], f"charges at {idx}")
        val(c[np.array(idx)], [want[i] for i in idx], f"charges at {idx}")
        val(c[idx][[0]], [want[idx[0]]], f"charges at {idx}, indexed again")
        is_unique(ctx, c[idx].unique(True, True, True), [want[i] for i in idx], (True, True, True), f"{name}: unique of the charges at {idx}")
      it, seen = iter(c), []
      try:
        while True:
          seen.append(tuple(it.__next__()))
      except StopIteration:
        pass
      ctx.check(len(seen) == n and all(eqrow(x, y) for x, y in zip(seen, want)), f"{name}: iteration")
      for t, ts in ((targets, rt), (tarr, rt), (c, want)):
        e = np.asarray(c == t)
        ctx.check(e.shape == (n, len(ts)), f"{name}: shape of the comparison")
        ctx.check(all(bool(e[i, j]) == eqrow(want[i], ts[j]) for i in range(n) for j in range(len(ts))), f"{name}: comparison")
      for t in (targets, tarr):
        for ind in (False, True):
          is_intersection(ctx, c.intersect(t, return_indices=ind), want, rt, ind, f"{name}: intersect {ind}")
          if distinct(want) and distinct(rt):
            is_intersection(ctx, c.intersect(t, assume_unique=True, return_indices=ind), want, rt, ind, f"{name}: intersect {ind}, assumed unique")
      keep = [i for i, r in enumerate(want) if find(r, rt) is not None]
      val(c.reduce(tarr), [want[i] for i in keep], "reduce")
      for s in (1, 2, 5):
        d, loc = c.reduce(tarr, return_locations=True, strides=s)
        val(d, [want[i] for i in keep], "reduce")
        ctx.check([int(x) for x in loc] == [s * i for i in keep], f"{name}: locations, stride {s}")
        if keep:
          is_unique(ctx, d.unique(True, True, True), [want[i] for i in keep], (True, True, True), f"{name}: unique after reduce")
          ctx.check(d.num_unique == len([i for i in keep if find(want[i], want[:i]) is None]), f"{name}: num_unique after reduce")
      if len(mods(c)) == 1:
        t1 = tarr[:, 0]
        val(c.reduce(t1), [want[i] for i in keep], "reduce to a list of charges")
        for z in (0, 1, np.int16(1)):
          val(c.reduce(z), [r for r in want if qarr.same(r[0], int(z))], "reduce to one charge")
        e = np.asarray(c == t1)
        ctx.check(e.shape == (n, len(rt)) and all(bool(e[i, j]) == eqrow(want[i], rt[j]) for i in range(n) for j in range(len(rt))), f"{name}: comparison with a list")
      val(c, want, "charges after operations")
      ctx.check(c.num_unique == nuniq, f"{name}: number of different charges")
      u, l = c.unique_charges, c.charge_labels
      is_set(ctx, aslist(u), want, f"{name}: unique_charges")
      ctx.check(len(l) == n and all(eqrow(tuple(np.asarray(u)[int(i)]), r) for i, r in zip(l, want)), f"{name}: charge_labels")
      val(c, want, "charges after compression")
      for f in FLAGS:
        is_unique(ctx, c.unique(*f), want, f, f"{name}: unique {f} after compression")
      k = c.copy()
      val(k, want, "copy")
      ctx.check(bool(charge_equal(k, c)), f"{name}: a copy is equal")
      fresh = c.copy()
      if fresh._unique_charges is not None:
        fresh._unique_charges[...] = 77
        fresh._charge_labels[...] = 0
      else:
        fresh._charges[...] = 77
      val(c, want, "charges after changing a copy")


def equality(ctx, types, sa, sb, cheap=False):
  """equality of collections and indices in all pairs of representations"""
  with qarr.on(ctx):
    w = World(ctx, types)
    ra, rb = w.values(sa), w.values(sb)
    same = len(ra) == len(rb) and all(eqrow(x, y) for x, y in zip(ra, rb))
    A, B = representations(w, sa), representations(w, sb)
    if cheap:
      A, B = A[:4], B[:4]
    for na, a in A:
      for nb, b in B:
        for x, y in ((a, b), (b, a)):
          ctx.check(bool(charge_equal(x, y)) == same, f"charge_equal {na} {nb}")
        for fa, fb in itertools.product((False, True), repeat=2):
          i, j = Index(a, fa), Index(b, fb)
          ctx.check(bool(i == j) == (same and fa == fb), f"equality of indices {na} {nb}")
          ctx.check(bool(i != j) == (not (same and fa == fb)), f"inequality of indices {na} {nb}")
      ctx.check(bool(charge_equal(a, a)), "equal to itself")
    for na, a in A:
      ctx.check(all(eqrow(x, y) for x, y in zip(rows(a), ra)), f"charges of {na} after comparisons")


def sign(r, f, ms):
  return tuple((int(-x) % m if m else -x) if f else x for x, m in zip(r, ms))


def indices(ctx, types, specs, flows, rep):
  with qarr.on(ctx):
    w = World(ctx, types)
    cs = [w.charge(s) if rep == "raw" else explicit(w.charge(s)) for s in specs]
    rs = [rows(c) for c in cs]
    ms = mods(cs[0])
    idx = Index(cs, list(flows))
    n = int(np.prod([len(r) for r in rs]))

    def total(rs, flows):
      out = []
      for t in itertools.product(*rs):
        t = [sign(r, f, ms) for r, f in zip(t, flows)]
        out.append(tuple(sum(col[1:], col[0]) % m if m else sum(col[1:], col[0]) for col, m in zip(zip(*t), ms)))
      return out

    def is_index(i, rs, flows, label):
      ctx.check(len(i.flat_charges) == len(rs) and all(len(rows(c)) == len(r) and all(map(eqrow, rows(c), r)) for c, r in zip(i.flat_charges, rs)), label + ": elementary charges")
      ctx.check([bool(f) for f in i.flat_flows] == [bool(f) for f in flows], label + ": flows")
      d = int(np.prod([len(r) for r in rs]))
      ctx.check(i.dim == d and len(i) == d, label + ": dimension")
      f = rows(i.charges)
      e = total(rs, flows)
      ctx.check(len(f) == len(e) and all(map(eqrow, f, e)), label + ": fused charges")

    is_index(idx, rs, flows, "index")
    del n
    c = idx.copy()
    is_index(c, rs, flows, "copy")
    ctx.check(bool(c == idx) and bool(idx == c), "a copy is equal")
    flip = idx.flip_flow()
    is_index(flip, rs, [not f for f in flows], "flipped")
    ctx.check(bool(flip != idx), "a flipped index is different")
    is_index(flip.flip_flow(), rs, flows, "flipped twice")
    singles = [Index(x, f) for x, f in zip(cs, flows)]
    for x, r, f in zip(singles, rs, flows):
      is_index(x, [r], [f], "elementary index")
    p = singles[0]
    for x in singles[1:]:
      p = p * x
    is_index(p, rs, flows, "product of indices")
    ctx.check(bool(p == idx), "the product is the fused index")
    is_index(fuse_indices(singles), rs, flows, "fuse_indices")
    is_index(fuse_index_pair(idx, flip), rs + rs, list(flows) + [not f for f in flows], "fuse_index_pair")
    c.flow[0] = not c.flow[0]
    for x in c._charges:
      if x._unique_charges is not None:
        x._unique_charges[...] = 77
      else:
        x._charges[...] = 77
    is_index(idx, rs, flows, "index after changing its copy")
    for x, r, f in zip(singles, rs, flows):
      is_index(x, [r], [f], "elementary index after fusing")
    for bad in (1, 0, "x", None):
      ctx.raises(TypeError, lambda bad=bad: Index(cs[0], [bad]), "flow that is not boolean")


def scenarios(tier):
  th = tier == "thorough"
  out = []
  for dt in ("int8", "int16", "int32", "int64"):
    for shape in [(0,), (1,), (3,), (4,), (1, 1), (3, 1), (1, 2), (2, 2), (1, 3), (2, 3), (1, 6)] + WIDE + ([(5,), (3, 2), (4, 2), (3, 3), (2, 4), (2, 5), (2, 6), (2, 7), (2, 8), (2, 9)] if th else [(5,)] if dt == "int16" else []):
      out.append(Scenario(f"unique {dt} {shape}", unique, shape, dt))
      if len(shape) == 2 or isinstance(shape, str):
        out.append(Scenario(f"collapse {dt} {shape}", round_trip, shape, dt))
    pairs = [((2,), (2,)), ((3,), (2,)), ((2, 1), (2, 1)), ((0,), (2,)), ("a b;c b", "a d;c b"), ("a b;a c", "b a;a d"), ("a b;b a;a b", "b a;a c"), ("a b c", "a b d;e b c"),
             ("a b 0;a c 0", "a b c;d b 0"), ("a b c d;a b d d", "a b e d"), ("a b c 0 a;a d c 0 a", "a b c e a"), ("a b c d 0 1 2 3 a", "a b c e 0 1 2 3 a;e b c d 0 1 2 3 a"), ("a 0 0 0 0 b;0 0 0 0 0 b", "c 0 0 0 0 b")]
    if th:
      pairs += [((2, 2), (2, 2)), ((1, 3), (2, 3)), ((2, 5), (1, 5)), ((1, 9), (2, 9)), ((3,), (3,)), ((2, 3), (2, 3)), ((3, 2), (2, 2))]
    elif dt == "int16":
      pairs += [((2, 2), (1, 2))]
    for sa, sb in pairs:
      out.append(Scenario(f"intersect {dt} {sa} {sb}", intersect, sa, sb, dt))
    out.append(Scenario(f"intersect {dt} columns", intersect, "a b;c b", "a d;c b", dt, 1))
    out.append(Scenario(f"intersect {dt} columns of 3", intersect, "a b c;a b d", "c b a;a b e", dt, 1))
    out.append(Scenario(f"intersect {dt} columns of 9", intersect, "a b c d 0 1 2 3 a", "a b c e 0 1 2 3 a;e b c d 0 1 2 3 a", dt, 1))
  out.append(Scenario("refused", refused))
  C = [("U1", "a,b,c", "a,0"), ("U1", "a,b,a", "d,b"), ("U1", "a,b,0,a", "b,a"), ("Z2", "a,b,c", "d"), ("Z3", "a,b,a", "b,1"), ("Z4", "a,b", "c,1"), ("U1", "a", "b"),
       ("U1.U1", "a,b;c,d", "a;d"), ("U1.U1", "a,b,a;c,c,d", "b,a;c,c"), ("U1.Z2", "a,b,c;d,e,0", "a,b;0,1"), ("Z3.U1", "a,1,a;b,c,b", "a,1;b,b"), ("U1.U1.U1", "a,b;c,d;e,e", "a,b;c,c;e,0"),
       ("Z2.Z3.U1", "a,0;b,1;c,d", "a,1;b,1;c,c"), ("U1.U1.U1.U1", "a,b;c,c;d,e;e,e", "a,b;c,c;d,d;e,a"), ("U1.U1.U1.U1.U1", "a,b;c,c;d,e;e,e;0,a", "a,b;c,c;d,d;e,a;0,a")]
  if th:
    C += [("U1", "a,b,c", "a,d"), ("U1", "a,b,c,d", "a,e"), ("U1.U1", "a,b,c;d,e,f", "a,b;d,f"), ("U1.Z2", "a,b,c,a;d,e,0,e", "a,b;0,1")]
  for t, s, g in C:
    out.append(Scenario(f"collection {t} {s} {g}", collection, t, s, g, not th and (t != "U1" or s.count(",") > 1) and (t, s) not in (("U1.U1", "a,b;c,d"), ("U1", "a,b,a"))))
  E = [("U1", "a,b", "c,d"), ("U1", "a,b,c", "a,c,b"), ("U1", "a,b", "a"), ("U1", "a", "a,b"), ("Z3", "a,b", "b,a"), ("Z2", "a,b,0", "0,a,b"), ("U1.U1", "a,b;c,d", "b,a;c,d"),
       ("U1.Z2", "a,b;c,d", "a,b;d,c"), ("U1.U1.U1", "a,b;c,d;e,e", "a,c;c,a;e,e")]
  for t, a, b in E:
    out.append(Scenario(f"equality {t} {a} {b}", equality, t, a, b, not th))
  I = [("U1", ["a,b"]), ("U1", ["a,b", "c,a"]), ("U1", ["a,b", "c", "0,b"]), ("U1.Z2", ["a,b;c,d", "b,c;0,1"]), ("Z3", ["a,b", "b,c"]), ("U1.U1.U1", ["a,b;0,c;c,d", "a;0;c"])]
  for t, s in I:
    for fl in itertools.product((False, True), repeat=len(s)):
      for rep in ("raw", "explicit"):
        out.append(Scenario(f"indices {t} {s} {fl} {rep}", indices, t, s, fl, rep))
  return out
