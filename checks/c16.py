"""C16: block-sparse decompositions recombine and conserve charge."""
import os
import warnings
import numpy as np
import tensornetwork as tn
from runner import Scenario
import qarr
from bslib import World, allowed, rows, mods, dense, is_dense, spread, legs_of
from tensornetwork.backends import backend_factory
from tensornetwork.block_sparse import linalg as bl
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor, ChargeArray

BOUNDS = ("tensors of two to four elementary legs with one to four entries per leg and sectors of at most 3x3 entries, symbolic real or complex "
          "stored entries; U(1) charges are arbitrary integers given by shared symbols, Z2/Z3 charges all residues, products of two symmetries; "
          "every pivot, transposed and fused layouts; truncation: up to three sectors and five singular values in every interleaving, every "
          "max_singular_values from 0 to one more than there are, every error limit >= 0 as a symbolic real, absolute and relative, ties and "
          "zeros for exact spectra")
OUTSIDE = "rounding errors; LAPACK itself; negative error limits; eigenvectors of defective matrices; singular matrices given to inv"
ASSUMPTIONS = ["numpy.linalg.svd/qr/eigh/eig/inv/pinv satisfy their contracts on each block",
               "16-bit charges do not overflow when they are fused"]
F, T = False, True
QUICK = os.environ.get("VERIF_TIER", "quick") == "quick"


def be():
  return backend_factory.get_backend("symmetric")


def conj(a):
  return np.conj(np.asarray(a))


def prod(xs):
  return int(np.prod([int(x) for x in xs]))


def conjugate_legs(a):
  return [[(r, not f) for r, f in o] for o in a]


def same(a, b):
  """the same charges and flows"""
  if len(a) != len(b):
    return False
  for x, y in zip(a, b):
    if len(x) != len(y):
      return False
    for (r, f), (q, g) in zip(x, y):
      if f != g or len(r) != len(q):
        return False
      for s, t in zip(r, q):
        if len(s) != len(t) or not all(bool(u == v) for u, v in zip(s, t)):
          return False
  return True


def bond(ctx, u, s, v, label):
  """the new leg of u fits the one of v and the charges of s"""
  lu, lv = legs_of(u)[-1], legs_of(v)[0]
  ctx.check(same([lu], conjugate_legs([lv])), label + ": the new bonds fit")
  if s is not None:
    ctx.check(isinstance(s, ChargeArray) and not isinstance(s, BlockSparseTensor) and s.ndim == 1, label + ": values are a charge array")
    ls = legs_of(s)[0]
    ctx.check(same([ls], [lv]) or same([ls], [lu]), label + ": the charges of the values are those of the bond")


def matrix(d, k):
  return d.reshape((prod(d.shape[:k]), prod(d.shape[k:])))


def eye(n):
  return np.eye(n)


def isometric(ctx, d, label):
  """columns of a matrix are orthonormal"""
  ctx.eq(conj(d).T @ d if d.shape[0] else np.zeros((d.shape[1],) * 2), eye(d.shape[1]), label)


def vals(s):
  return np.asarray(s.data)


def layouts(types, specs, flows, order, groups):
  """a tensor with the elementary legs exchanged by `order` and fused in `groups`"""

  def build(ctx, w, name="d", cplx=False):
    t, d = w.tensor(name, specs, flows, cplx=cplx)
    if order is not None:
      t, d = t.transpose(order), d.transpose(order)
    if groups is not None:
      shape = [prod(d.shape[i] for i in g) for g in groups]
      t, d = t.reshape(shape), d.reshape(shape)
    return t, d

  build.types = types
  return build


def recombine(ctx, build, which, pivot, cplx=False, api="backend"):
  """svd, qr and rq about a pivot"""
  with qarr.on(ctx):
    w = World(ctx, build.types)
    t, d = build(ctx, w, cplx=cplx)
    legs = legs_of(t)
    k = pivot if pivot >= 0 else len(d.shape) + pivot
    a = matrix(d, k)
    s = None
    if which == "svd":
      u, s, v, rest = be().svd(t, pivot)
      ctx.check(np.asarray(rest.data).size == 0, "nothing is discarded")
    elif which == "qr":
      u, v = be().qr(t, pivot)
    else:
      u, v = be().rq(t, pivot)
    du, dv = dense(ctx, u, "left factor"), dense(ctx, v, "right factor")
    n = du.shape[-1]
    ctx.check(du.shape[:-1] == d.shape[:k] and dv.shape[1:] == d.shape[k:] and dv.shape[0] == n, "shapes")
    ctx.check(same(legs_of(u)[:-1], legs[:k]) and same(legs_of(v)[1:], legs[k:]), "the outer legs keep their charges and flows")
    bond(ctx, u, s, v, which)
    mu, mv = du.reshape(-1, n) if du.size else np.zeros((a.shape[0], n)), dv.reshape(n, -1) if dv.size else np.zeros((n, a.shape[1]))
    if s is not None:
      ctx.check(vals(s).shape == (n,), "one value for every new index")
      isometric(ctx, mu, "left isometry")
      isometric(ctx, conj(mv).T, "right isometry")
      ctx.eq((mu * vals(s)) @ mv, a, "product")
      full = be().tensordot(be().tensordot(u, be().diagflat(s), ((k,), (0,))), v, ((k,), (0,)))
      is_dense(ctx, full, d, "product of the symmetric tensors")
    else:
      if which == "qr":
        isometric(ctx, mu, "q isometric")
      else:
        isometric(ctx, conj(mv).T, "q isometric")
      ctx.eq(mu @ mv, a, "product")
      is_dense(ctx, be().tensordot(u, v, ((k,), (0,))), d, "product of the symmetric tensors")
    is_dense(ctx, t, d, "input unchanged")


def functions(ctx, build, full, cplx=False):
  """svd and qr of block_sparse.linalg with their modes"""
  with qarr.on(ctx):
    w = World(ctx, build.types)
    t, d = build(ctx, w, cplx=cplx)
    legs = legs_of(t)
    m, n = d.shape
    u, s, v = bl.svd(t, full_matrices=full)
    du, dv, ds = dense(ctx, u, "u"), dense(ctx, v, "v"), vals(s)
    ctx.check(same(legs_of(u)[:-1], legs[:1]) and same(legs_of(v)[1:], legs[1:]), "outer legs")
    isometric(ctx, du, "u isometric")
    isometric(ctx, conj(dv).T, "v isometric")
    if full:
      lu, lv, ls = legs_of(u)[1][0][0], legs_of(v)[0][0][0], legs_of(s)[0][0][0]
      # values pair the first columns and rows of every sector
      mid = np.zeros((du.shape[1], dv.shape[0]), dtype=ds.dtype)
      used = []
      for i, q in enumerate(ls):
        a = [j for j, p in enumerate(lu) if bool(p == q) and ("u", j) not in used]
        b = [j for j, p in enumerate(lv) if bool(p == q) and ("v", j) not in used]
        ctx.check(len(a) > 0 and len(b) > 0, "every value has a column of u and a row of v")
        used += [("u", a[0]), ("v", b[0])]
        mid[a[0], b[0]] = ds[i]
      ctx.eq(du @ mid @ dv, d, "product")
    else:
      bond(ctx, u, s, v, "svd")
      ctx.eq((du * ds) @ dv, d, "product")
    only = bl.svd(t, full_matrices=full, compute_uv=False)
    ctx.eq(vals(only), ds, "values alone")
    ctx.check(same(legs_of(only), legs_of(s)), "charges of the values alone")
    q, r = bl.qr(t, mode="complete" if full else "reduced")
    dq, dr = dense(ctx, q, "q"), dense(ctx, r, "r")
    ctx.check(same(legs_of(q)[:1], legs[:1]) and same(legs_of(r)[1:], legs[1:]), "outer legs of q and r")
    bond(ctx, q, None, r, "qr")
    isometric(ctx, dq, "q isometric")
    ctx.eq(dq @ dr, d, "q r")
    if not full:
      is_dense(ctx, bl.qr(t, mode="r"), dr, "r alone")
    is_dense(ctx, t, d, "input unchanged")


def square(ctx, types, specs, swap, fused, what, cplx=False):
  """eigh, eig, inv and pinv of a matrix from a space to itself"""
  with qarr.on(ctx):
    w = World(ctx, types)
    cs = [w.charge(s) for s in specs]
    k = len(cs)
    flows = [F, T, F][:k]
    if what == "pinv":
      t, e = w.tensor("d", list(specs) + [swap], flows + [T], cplx=cplx)
      shape = (prod(e.shape[:k]), e.shape[k])
      t, d = (t.reshape(shape) if k > 1 else t), e.reshape(shape)
    else:
      charges = cs + [c.copy() for c in cs]
      fl = flows + [not f for f in flows]
      ok = allowed(charges, fl)
      dim = prod(len(rows(c)) for c in cs)
      data = ctx.tensor("d", (int(ok.sum()),), cplx)
      t = BlockSparseTensor(data, charges, fl)
      d = spread(data, ok).reshape(dim, dim)
      if k > 1:
        t = t.reshape((dim, dim))
      if swap:
        t, d = t.transpose((1, 0)), d.T
    legs = legs_of(t)
    if what in ("eigh", "eighU"):
      tri = d.copy()
      n = d.shape[0]
      for i in range(n):
        for j in range(n):
          low = (i >= j) if what == "eigh" else (i <= j)
          if i == j:
            tri[i, j] = d[i, j].real
          elif not low:
            tri[i, j] = d[j, i].conjugate()
      e, v = bl.eigh(t, UPLO="U") if what == "eighU" else be().eigh(t)
      dv, de = dense(ctx, v, "v"), vals(e)
      ctx.eq(tri @ dv, dv * de, "A V = V E")
      isometric(ctx, dv, "unitary")
      ctx.eq((dv * de) @ conj(dv).T, tri, "product")
      ctx.check(same(legs_of(v)[:1], legs[:1]), "outer legs")
      ctx.check(same(legs_of(e), [[(r, not f) for r, f in legs_of(v)[1]]]) or same(legs_of(e), legs_of(v)[1:]), "charges of the values")
    elif what == "eig":
      e, v = bl.eig(t)
      dv, de = dense(ctx, v, "v"), vals(e)
      ctx.eq(d @ dv, dv * de, "A V = V E")
      ctx.check(dv.shape == d.shape, "all eigenvectors")
      ctx.check(same(legs_of(v)[:1], legs[:1]), "outer legs")
      ctx.check(same(legs_of(e), [[(r, not f) for r, f in legs_of(v)[1]]]) or same(legs_of(e), legs_of(v)[1:]), "charges of the values")
    else:
      x = be().inv(t) if what == "inv" else bl.pinv(t)
      dx = dense(ctx, x, "inverse")
      ctx.check(same(legs_of(x), conjugate_legs(legs[::-1])), "legs of the inverse")
      if what == "inv":
        ctx.eq(d @ dx, eye(len(d)), "A X")
        ctx.eq(dx @ d, eye(len(d)), "X A")
      else:
        ctx.check(dx.shape == d.shape[::-1], "shape")
        ctx.eq(d @ dx @ d, d, "A X A")
        ctx.eq(dx @ d @ dx, dx, "X A X")
        ctx.eq(d @ dx, conj(d @ dx).T, "A X Hermitian")
        ctx.eq(dx @ d, conj(dx @ d).T, "X A Hermitian")
    is_dense(ctx, t, d, "input unchanged")


def sectors(charges, flows, k):
  """{net charge: (rows, columns)} of the matrix with the first k legs as rows"""

  def fused(cs, fs):
    ms = mods(charges[0])
    out = [tuple(0 for _ in ms)]
    for c, f in zip(cs, fs):
      out = [tuple((x - y if f else x + y) % m if m else (x - y if f else x + y) for x, y, m in zip(o, r, ms)) for o in out for r in rows(c)]
    return [tuple(int(x) for x in o) for o in out]

  left, right = fused(charges[:k], flows[:k]), fused(charges[k:], [not f for f in flows[k:]])
  out = {}
  for q in sorted(set(left) & set(right)):
    out[q] = ([i for i, p in enumerate(left) if p == q], [i for i, p in enumerate(right) if p == q])
  return out


def known(ctx, w, specs, flows, k, cplx, spectra=None):
  """tensor whose sectors have known singular values: (tensor, dense, [(charge, rows, columns, u, s, v)])"""
  charges = [w.charge(s) for s in specs]
  ok = allowed(charges, flows)
  shape = ok.shape
  sec = sectors(charges, flows, k)
  m, n = prod(shape[:k]), prod(shape[k:])
  a = np.zeros((m, n), dtype=object if ctx.symbolic else (complex if cplx else float))
  parts = []
  for c, (q, (r, l)) in enumerate(sec.items()):
    size = min(len(r), len(l))
    if spectra is None:
      s = ctx.spectrum(f"s{c}", size)
      b, u, s, v = ctx.known_svd(f"A{c}", len(r), len(l), s, cplx)
    else:
      b, u, s, v = ctx.diag_svd(f"A{c}", spectra[c])
    a[np.ix_(r, l)] = b
    parts.append((q, r, l, u, s, v))
  d = a.reshape(shape)
  t = BlockSparseTensor(d[ok], charges, list(flows))
  return t, d, parts


def judge(ctx, parts, res, d, k, keep, ties=False):
  """`keep`: how many values of each sector stay"""
  u, s, v, rest = res
  du, dv, ds = dense(ctx, u, "u"), dense(ctx, v, "v"), vals(s)
  n = sum(keep)
  ctx.check(ds.shape == (n,) and du.shape == d.shape[:k] + (n,) and dv.shape == (n,) + d.shape[k:], "shapes")
  bond(ctx, u, s, v, "truncated svd")
  # net charge of every new index, counted as the rows of the matrix are
  lv = legs_of(v)[0][0]
  ls, lr = legs_of(s)[0][0], legs_of(rest)[0][0]
  flip = lambda q, f: tuple(int(x) for x in q) if not f else None
  got = [tuple(int(x) for x in q) for q in ls[0]]
  gone = [tuple(int(x) for x in q) for q in lr[0]]
  sign = {}
  for q, *_ in parts:
    sign[q] = q
  want, wrest = [], []
  m, c = matrix(d, k).shape
  cut = np.zeros((m, c), dtype=ds.dtype if ds.size else float)
  for (q, r, l, pu, ps, pv), cnt in zip(parts, keep):
    have = [ds[i] for i, g in enumerate(got) if g == q]
    out = [vals(rest)[i] for i, g in enumerate(gone) if g == q]
    ctx.check(len(have) == cnt and len(out) == len(ps) - cnt, "number of values kept and discarded in every sector")
    ctx.eq(np.array(have, dtype=ds.dtype), np.array(list(ps[:cnt]), dtype=ds.dtype), "kept values are the largest")
    ctx.eq(np.array(out, dtype=np.asarray(ps).dtype), np.array(list(ps[cnt:]), dtype=np.asarray(ps).dtype), "discarded values")
    if cnt:
      cut[np.ix_(r, l)] = (pu[:, :cnt] * np.array(list(ps[:cnt]))) @ pv[:cnt]
  mu = du.reshape(m, n) if n else np.zeros((m, 0))
  mv = dv.reshape(n, c) if n else np.zeros((0, c))
  isometric(ctx, mu, "left isometry")
  isometric(ctx, conj(mv).T, "right isometry")
  ctx.eq((mu * ds) @ mv if n else np.zeros((m, c)), cut, "truncated product")


def apart(ctx, xs, gap=0.125):
  for i, x in enumerate(xs):
    for y in xs[:i]:
      ctx.assume((x > y + gap) | (y > x + gap))


def trunc(ctx, types, specs, flows, k, mode, cplx=False):
  with qarr.on(ctx):
    w = World(ctx, types)
    t, d, parts = known(ctx, w, specs, flows, k, cplx)
    allv = [x for p in parts for x in p[4]]
    apart(ctx, allv)
    # order of all the values: the path decides every comparison
    order = list(range(len(allv)))
    for i in range(1, len(order)):
      j = i
      while j and bool(allv[order[j]] > allv[order[j - 1]]):
        order[j], order[j - 1] = order[j - 1], order[j]
        j -= 1
    n = len(allv)
    kw = {}
    need = n
    if mode == "max":
      need = ctx.pick("max", 0, n + 1)
      kw["max_singular_values"] = need
      need = min(need, n)
    else:
      err = ctx.real("err")
      ctx.assume(err >= 0)
      ctx.assume(err <= 64)
      top = allv[order[0]]
      ctx.assume(top <= 64)
      lim = err * err * (top * top if "rel" in mode else 1)
      tot = 0
      for c in range(n - 1, -1, -1):
        x = allv[order[c]]
        tot = tot + x * x
        ctx.assume((lim > tot + 0.0625) | (lim < tot - 0.0625))
        if tot < lim:
          need = c
      kw = dict(max_truncation_error=err, relative="rel" in mode)
      if "max" in mode:
        mx = ctx.pick("max", 1, n)
        kw["max_singular_values"] = mx
        need = min(need, mx)
    kept = order[:need]
    keep, at = [], 0
    for p in parts:
      keep.append(sum(at <= i < at + len(p[4]) for i in kept))
      at += len(p[4])
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      res = be().svd(t, k, **kw)
    judge(ctx, parts, res, d, k, keep)
    is_dense(ctx, t, d, "input unchanged")


def ties(ctx, types, specs, flows):
  """exact spectra with equal values, zeros and limits that are met exactly"""
  with qarr.on(ctx):
    w = World(ctx, types)
    spectra, kw, total = ctx.choice("case", [
        (([4.0, 3.0], [12.0]), dict(max_truncation_error=5.0), 1),
        (([4.0, 3.0], [12.0]), dict(max_truncation_error=4.999), 2),
        (([12.0, 3.0], [4.0]), dict(max_truncation_error=13.0), 0),
        (([12.0, 3.0], [4.0]), dict(max_truncation_error=5.0, max_singular_values=2), 1),
        (([12.0, 3.0], [4.0]), dict(max_truncation_error=3.0, max_singular_values=1), 1),
        (([4.0, 3.0], [8.0]), dict(max_truncation_error=0.375, relative=True), 2),
        (([8.0, 3.0], [4.0]), dict(max_truncation_error=0.625, relative=True), 1),
        (([8.0, 3.0], [4.0]), dict(max_truncation_error=0.374, relative=True), 3),
        (([4.0, 0.0], [2.0]), dict(max_truncation_error=0.0), 2),
        (([4.0, 0.0], [2.0]), dict(max_singular_values=3), 3),
        (([4.0, 2.0], [0.0]), dict(max_singular_values=2), 2),
        (([0.0, 0.0], [0.0]), dict(max_singular_values=2), 2),
        (([0.0, 0.0], [0.0]), dict(max_truncation_error=0.0), 0),
        (([0.0, 0.0], [1.0]), dict(max_truncation_error=0.0, relative=True), 1),
        (([3.0, 3.0], [3.0]), dict(max_singular_values=2), 2),
        (([3.0, 3.0], [3.0]), dict(max_singular_values=1), 1),
        (([3.0, 3.0], [3.0]), dict(max_truncation_error=4.5), 1),
        (([3.0, 3.0], [3.0]), dict(max_truncation_error=4.0), 2),
    ])
    t, d, parts = known(ctx, w, specs, flows, 1, False, spectra if True else None)
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      res = be().svd(t, 1, **kw)
    s, rest = vals(res[1]), vals(res[3])
    ctx.check(s.shape == (total,), "number of values kept")
    allv = sorted([x for p in spectra for x in p], reverse=True)
    num = lambda a: sorted((float(x if not ctx.symbolic else x.value()) for x in a), reverse=True)
    got = [tuple(int(x) for x in q) for q in legs_of(res[1])[0][0][0]]
    keep = [sum(g == p[0] for g in got) for p in parts]
    judge(ctx, parts, res, d, 1, keep)
    left = [x for p, c in zip(parts, keep) for x in p[4][:c]]
    ctx.check(not left or all(bool(min(allv[:total]) <= x) for x in left), "no kept value is smaller than necessary")


def node(ctx, types, specs, flows, how):
  """split_node on symmetric tensors"""
  with qarr.on(ctx):
    w = World(ctx, types)
    if how == "truncated":
      t, d, parts = known(ctx, w, specs, flows, 1, False)
      allv = [x for p in parts for x in p[4]]
      apart(ctx, allv)
    else:
      t, d = w.tensor("d", specs, flows)
    nd = tn.Node(t, backend="symmetric")
    if how == "qr":
      a, b = tn.split_node_qr(nd, nd.edges[:1], nd.edges[1:])
    elif how == "rq":
      a, b = tn.split_node_rq(nd, nd.edges[:1], nd.edges[1:])
    elif how == "svd":
      a, b, _ = tn.split_node(nd, nd.edges[:1], nd.edges[1:])
    elif how == "swapped":
      a, b = tn.split_node_qr(nd, nd.edges[1:], nd.edges[:1])
    elif how == "full":
      a, s, b, _ = tn.split_node_full_svd(nd, nd.edges[:1], nd.edges[1:])
    if how == "full":
      a = a @ s
    out = a @ b
    res = out.tensor
    is_dense(ctx, res, d.transpose(list(range(1, d.ndim)) + [0]) if how == "swapped" else d, "the parts contracted")


def scenarios(tier):
  out = []
  th = tier == "thorough"

  def add(name, fn, *a, **k):
    out.append(Scenario(name, fn, *a, **k))

  # free charges: the solver decides which coincide
  mats = [
      ("2x2 free", layouts("U1", ["a,b", "c,d"], [F, T], None, None)),
      ("2x2 same flow", layouts("U1", ["a,b", "c,a"], [F, F], None, None)),
      ("3x2", layouts("U1", ["a,b,a", "a,c"], [T, F], None, None)),
      ("2x3 transposed", layouts("U1", ["a,b,a", "a,b"], [F, T], (1, 0), None)),
      ("Z2 2x3", layouts("Z2", ["a,b", "0,c,1"], [F, F], None, None)),
      ("U1.Z2", layouts("U1.Z2", ["a,b;0,1", "a,b;c,1"], [F, T], None, None)),
      ("unmatched", layouts("U1", ["0,0", "1,2"], [F, T], None, None)),
      ("fused", layouts("U1", ["a,0", "0,b", "a,b"], [F, F, T], None, [[0, 1], [2]])),
      ("fused transposed", layouts("U1", ["a,b", "0,a", "a,0"], [F, T, F], (2, 0, 1), [[0], [1, 2]])),
      ("Z3 fused", layouts("Z3", ["a,0", "0,b", "1,2"], [F, F, T], (1, 2, 0), [[0, 1], [2]])),
  ]
  for name, b in mats:
    for which in ("svd", "qr", "rq"):
      add(f"{which} {name}", recombine, b, which, 1, "free" in name)
    for full in (False, True):
      add(f"functions {name} full={full}", functions, b, full, "fused" == name)
  tens = [
      ("order 3", layouts("U1", ["a,0", "0,b", "a,b"], [F, F, T], None, None), (1, 2, -1)),
      ("order 3 moved", layouts("U1", ["a,b", "0,a", "a,0"], [F, T, F], (2, 0, 1), None), (1, 2, -2)),
      ("order 3 Z2", layouts("Z2", ["a,0", "0,1", "1,b"], [F, F, T], (1, 0, 2), None), (1, 2)),
      ("order 4", layouts("U1", ["0,1", "0,a", "0,1", "0,a"], [F, T, T, F], (0, 2, 1, 3), None), (1, 2, 3)),
      ("order 3 of 4", layouts("U1", ["0,1", "0,a", "a", "0,1"], [F, T, T, F], (3, 1, 0, 2), [[0], [1, 2], [3]]), (1, 2)),
      ("one-entry legs", layouts("U1", ["0", "a,b", "0", "a,b"], [F, F, T, T], None, None), (1, 2, 3)),
  ]
  for name, b, pivots in tens:
    for p in pivots:
      for which in ("svd", "qr", "rq"):
        add(f"{which} {name} pivot {p}", recombine, b, which, p)
  sq = [
      ("free", "U1", ["a,b"], F), ("3", "U1", ["a,b,a"], F), ("transposed", "U1", ["a,b,a"], T), ("Z2", "Z2", ["a,b,1"], F),
      ("Z3", "Z3", ["a,b"], T), ("product", "U1.Z2", ["a,b;0,c"], F), ("fused", "U1", ["a,0", "0,b"], F), ("fused transposed", "U1", ["a,0", "0,b"], T),
  ]
  for name, types, specs, swap in sq:
    for what in ("eigh", "eighU", "eig", "inv"):
      add(f"{what} {name}", square, types, specs, swap, None, what, name in ("free", "3", "transposed") and (what != "inv" or name == "free"))
  for name, types, specs, other in [("free", "U1", ["a,b"], "c,d"), ("wide", "U1", ["a"], "a,b,a"), ("fused", "Z2", ["0,1", "a"], "b,0,1")]:
    add(f"pinv {name}", square, types, specs, other, None, "pinv", name == "wide")
  # truncation
  tr = [
      ("2+2", "U1", ["0,0,1,1", "1,0,0,1"], [F, T], 1),
      ("2+1", "U1", ["0,1,0", "1,0,0,5"], [T, F], 1),
      ("1+1+1", "U1", ["0,1,2", "1,2,0,0"], [F, T], 1),
      ("Z2", "Z2", ["0,1,1", "1,0,1"], [F, F], 1),
      ("order 3", "U1", ["0,1", "0,1", "1,0"], [F, F, T], 2),
      ("order 3 left", "U1", ["0,1,1", "0,1", "0,1"], [F, T, F], 1),
  ]
  if th:
    tr += [("2+2+1", "U1", ["0,1,0,2,2", "2,0,0,1,2"], [F, T], 1), ("3+2", "Z2", ["0,1,0,1,0", "1,1,0,0,0"], [F, T], 1),
           ("product", "U1.Z2", ["0,0,1;0,1,1", "0,1,0;0,1,1"], [F, T], 1)]
  for name, types, specs, flows, k in tr:
    for mode in ("max", "error", "rel", "error max", "rel max") if th else ("max", "error", "rel max") if name != "2+1" else ("max", "error", "rel", "error max", "rel max"):
      add(f"truncate {name} {mode}", trunc, types, specs, flows, k, mode, name in ("2+1", "Z2") and mode == "max")
  add("exact spectra U1", ties, "U1", ["0,1,0", "0,0,1"], [F, T])
  add("exact spectra Z2", ties, "Z2", ["0,1,0", "1,0,0"], [F, F])
  for how in ("svd", "qr", "rq", "swapped", "full"):
    add(f"split_node {how}", node, "U1", ["a,0", "0,b", "a,b"], [F, F, T], how)
  return out
