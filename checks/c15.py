"""C15: block-sparse operations equal the dense operations."""
import itertools
import os
import numpy as np
from runner import Scenario
import qarr
from bslib import World, allowed, rows, mods, dense, is_dense, spread, zero, legs_of, same_legs
from tensornetwork import ncon
from tensornetwork.backends import backend_factory
from tensornetwork.block_sparse import linalg as bl
from tensornetwork.block_sparse import initialization as bi
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor, ChargeArray, tensordot, outerproduct
from tensornetwork.block_sparse.index import Index

BOUNDS = ("tensors of one to four elementary legs with one to three entries per leg, symbolic real or complex stored entries; U(1) charges "
          "are arbitrary integers given by shared symbols, Z2/Z3 charges all residues, products of up to three symmetries; every transposition, "
          "every grouping of consecutive legs, every order of contracted axes, several storage layouts of each operand")
OUTSIDE = ("more legs or entries; reshaping with integer shapes next to legs of dimension one, which is ambiguous; rounding errors; the C code "
           "of numpy")
ASSUMPTIONS = ["16-bit charges do not overflow when they are fused"]
F, T = False, True


def be():
  return backend_factory.get_backend("symmetric")


def groupings(n):
  """ways to fuse n consecutive legs"""
  for cuts in itertools.product((0, 1), repeat=n - 1):
    out = [[0]]
    for i, c in enumerate(cuts, 1):
      if c:
        out.append([i])
      else:
        out[-1].append(i)
    yield out


QUICK = os.environ.get("VERIF_TIER", "quick") == "quick"


def fuse(t, d, groups):
  """fuse consecutive axes of tensor and dense array"""
  shape = [int(np.prod([d.shape[i] for i in g])) for g in groups]
  return t.reshape(shape), d.reshape(shape)


def move(ctx, types, specs, flows, rep="raw", cplx=False):
  """transpose, reshape and contiguous in every order"""
  with qarr.on(ctx):
    w = World(ctx, types)
    t, d = w.tensor("d", specs, flows, rep=rep, cplx=cplx)
    n = len(specs)
    orders = list(itertools.permutations(range(n)))
    for order in orders[::5] if len(orders) > 6 and QUICK else orders:
      t1, d1 = t.transpose(order), d.transpose(order)
      is_dense(ctx, t1, d1, f"transpose {order}")
      is_dense(ctx, t.transpose(order, shuffle=True), d1, f"shuffled transpose {order}")
      for groups in groupings(n):
        t2, d2 = fuse(t1, d1, groups)
        is_dense(ctx, t2, d2, f"transpose {order}, fuse {groups}")
        is_dense(ctx, t2.contiguous(), d2, f"transpose {order}, fuse {groups}, contiguous")
        back = t2.contiguous().reshape(d1.shape)
        is_dense(ctx, back, d1, f"transpose {order}, fuse {groups}, contiguous, split")
        k = len(groups)
        rev = tuple(reversed(range(k)))
        t3, d3 = t2.transpose(rev), d2.transpose(rev)
        is_dense(ctx, t3, d3, f"transpose {order}, fuse {groups}, reverse")
        t4 = t3.reshape([t3._charges[i].dim for o in t3._order for i in o])
        is_dense(ctx, t4, d3.reshape(t4.shape), f"transpose {order}, fuse {groups}, reverse, split")
      t5 = BlockSparseTensor(t1.data, t1._charges, t1._flows, [list(o) for o in t1._order])
      for p in itertools.permutations(range(n)):
        is_dense(ctx, t5.contiguous(list(p)), d1, f"transpose {order}, contiguous {p}")
      t5.contiguous(inplace=True)
      is_dense(ctx, t5, d1, f"transpose {order}, contiguous in place")
      is_dense(ctx, t1, d1, f"transposed tensor after further operations")
    is_dense(ctx, t, d, "original tensor")


def layouts(t, d, some=False):
  """the same tensor in different storage layouts"""
  n = d.ndim
  ps = list(itertools.permutations(range(n)))
  if some and len(ps) > 6:
    ps = ps[:1] + ps[9::9]
  for p in ps:
    inv = np.argsort(p)
    yield f"stored as {p}", BlockSparseTensor(t.data, t._charges, t._flows, t._order).transpose(p).contiguous().transpose(inv)


def contract(ctx, types, left, lf, right, rf, k, reps=("raw", "raw"), cplx=(False, False), negative=False, some=False,
             given=None):
  """tensordot over k legs; the contracted legs of the second tensor are those of the first with opposite flow"""
  with qarr.on(ctx):
    w = World(ctx, types)
    a, da = w.tensor("a", left, lf, rep=reps[0], cplx=cplx[0])
    b, db = w.tensor("b", left[len(left) - k:] + right, [not f for f in lf[len(left) - k:]] + rf, rep=reps[1], cplx=cplx[1])
    nl, nr = len(left), k + len(right)
    want = np.tensordot(da, db, k) if k else np.multiply.outer(da, db)
    is_dense(ctx, tensordot(a, b, k), want, "tensordot with a number of axes")
    for p in itertools.permutations(range(nl)):
      ta = a.transpose(p)
      axa = [p.index(nl - k + i) for i in range(k)]
      free_a = [x for i, x in enumerate(p) if i not in axa]
      for q in itertools.permutations(range(nr)):
        if some and (sum(q[i] * (i + 1) for i in range(nr)) + p[0]) % 3:
          continue
        tb = b.transpose(q)
        axb = [q.index(i) for i in range(k)]
        free_b = [x for i, x in enumerate(q) if i not in axb]
        w2 = want.transpose(free_a + [nl - k + x - k for x in free_b]) if want.ndim else want
        # the contracted legs may be listed in any order
        for o in itertools.permutations(range(k)):
          r = tensordot(ta, tb, ([axa[i] for i in o], [axb[i] for i in o]))
          is_dense(ctx, r, w2, f"tensordot of transposed tensors {p} {q} {o}")
        if negative and k:
          r = tensordot(ta, tb, ([i - nl for i in axa], [i - nr for i in axb]))
          is_dense(ctx, r, w2, f"tensordot with negative axes {p} {q}")
    for name, x in layouts(a, da, True):
      is_dense(ctx, tensordot(x, b, k), want, f"tensordot with first tensor {name}")
    for name, x in layouts(b, db, True):
      is_dense(ctx, tensordot(a, x, k), want, f"tensordot with second tensor {name}")
    if k > 1:
      # contracting fused legs
      ga = [[i] for i in range(nl - k)] + [list(range(nl - k, nl))]
      gb = [list(range(k))] + [[i] for i in range(k, nr)]
      r = tensordot(fuse(a, da, ga)[0], fuse(b, db, gb)[0], ([nl - k], [0]))
      is_dense(ctx, r, want, "tensordot over a fused leg")
    if nl - k > 1:
      ga = [list(range(nl - k))] + [[i] for i in range(nl - k, nl)]
      fa, fda = fuse(a, da, ga)
      is_dense(ctx, tensordot(fa, b, k), np.tensordot(fda, db, k), "tensordot with a fused free leg")
    if nl == 2 and nr == 2 and k == 1:
      is_dense(ctx, a @ b, want, "matmul")
      is_dense(ctx, be().matmul(a, b), want, "backend matmul")
    is_dense(ctx, a, da, "first tensor afterwards")
    is_dense(ctx, b, db, "second tensor afterwards")


def outer(ctx, types, left, lf, right, rf, cplx=(False, False)):
  with qarr.on(ctx):
    w = World(ctx, types)
    a, da = w.tensor("a", left, lf, cplx=cplx[0])
    b, db = w.tensor("b", right, rf, cplx=cplx[1])
    want = np.multiply.outer(da, db)
    is_dense(ctx, outerproduct(a, b), want, "outer product")
    is_dense(ctx, tensordot(a, b, 0), want, "tensordot over no axes")
    is_dense(ctx, be().outer_product(a, b), want, "backend outer product")
    for p in itertools.permutations(range(da.ndim)):
      for q in itertools.permutations(range(db.ndim)):
        r = outerproduct(a.transpose(p), b.transpose(q))
        is_dense(ctx, r, np.multiply.outer(da.transpose(p), db.transpose(q)), f"outer product of {p} and {q}")
    sa = tensordot(a, a.conj(), (list(range(da.ndim)),) * 2)
    va = (da * da.conj()).sum() if da.size else 0
    is_dense(ctx, sa, np.asarray(va), "inner product")
    ctx.eq(np.asarray(sa.item()), np.asarray(va), "item of the inner product")
    is_dense(ctx, outerproduct(sa, b), va * db, "scalar times tensor")
    is_dense(ctx, outerproduct(b, sa), db * va, "tensor times scalar")
    is_dense(ctx, outerproduct(sa, sa), np.asarray(va * va), "scalar times scalar")


def mixed_dtypes(ctx, types, left, lf, right, rf):
  """numeric arrays: the result has the common type of both"""
  with qarr.on(ctx):
    w = World(ctx, types)
    rs = np.random.RandomState(3)
    out = []
    for specs, flows in ((left, lf), (right, rf)):
      charges = [w.charge(s) for s in specs]
      ok = allowed(charges, flows)
      n = int(ok.sum())
      for x in (rs.rand(n), (rs.rand(n) + 1j * rs.rand(n)), rs.rand(n).astype(np.float32)):
        out.append((BlockSparseTensor(x, charges, list(flows)), spread(x, ok)))
    for a, da in out[:3]:
      for b, db in out[3:]:
        r = outerproduct(a, b)
        want = np.multiply.outer(da, db)
        ctx.check(r.dtype == want.dtype, f"dtype of the outer product of {da.dtype} and {db.dtype}")
        ctx.check(np.allclose(dense(ctx, r), want), "outer product of different types")


def tracing(ctx, types, specs, flows, pairs, rep="raw", cplx=False, fused=()):
  """`specs` has the legs (pairs[0] with pairs[1] traced)"""
  with qarr.on(ctx):
    w = World(ctx, types)
    t, d = w.tensor("d", specs, flows, rep=rep, cplx=cplx)
    n = len(specs)
    i, j = pairs
    for p in itertools.permutations(range(n)):
      t1, d1 = t.transpose(p), d.transpose(p)
      ai, aj = p.index(i), p.index(j)
      for ax in ((ai, aj), (aj, ai), (ai - n, aj - n)):
        check_trace(ctx, bl.trace(t1, ax), d1.trace(axis1=ax[0], axis2=ax[1]), f"trace of {p} over {ax}")
      if {ai, aj} == {n - 2, n - 1}:
        check_trace(ctx, bl.trace(t1), d1.trace(axis1=-2, axis2=-1), f"default trace of {p}")
        check_trace(ctx, be().trace(t1), d1.trace(axis1=-2, axis2=-1), f"backend trace of {p}")
    is_dense(ctx, t, d, "tensor afterwards")


def check_trace(ctx, r, want, label):
  if np.ndim(want) == 0:
    if isinstance(r, BlockSparseTensor):
      r = r.item()
    ctx.eq(np.asarray(r), np.asarray(want), label)
  else:
    is_dense(ctx, r, want, label)


def fused_trace(ctx, types, specs, rep="raw"):
  """trace over two fused legs made of the same elementary legs, stored in every order"""
  with qarr.on(ctx):
    w = World(ctx, types)
    n = len(specs)
    t, d = w.tensor("d", list(specs) + list(specs), [F] * n + [T] * n, rep=rep)
    full = int(np.prod(d.shape[:n]))
    for p in itertools.permutations(range(n)):
      for q in itertools.permutations(range(n)):
        # storage order of the row legs p, of the column legs q; the axes always mean the same
        stored = t.transpose(list(p) + [n + x for x in q]).contiguous()
        back = stored.transpose(list(np.argsort(p)) + [n + int(x) for x in np.argsort(q)])
        m = back.reshape((full, full))
        check_trace(ctx, bl.trace(m), d.reshape(full, full).trace(), f"trace of fused legs stored as {p} {q}")
    for p in itertools.permutations(range(2 * n)):
      if p[0] > p[1] or (p[0] + p[-1]) % 2:
        continue
      stored = t.transpose(p).contiguous().transpose(list(np.argsort(p))).reshape((full, full))
      check_trace(ctx, bl.trace(stored), d.reshape(full, full).trace(), f"trace of fused legs stored as {p}")


def diagonals(ctx, types, spec, flow=False, rep="raw"):
  with qarr.on(ctx):
    w = World(ctx, types)
    c = w.charge(spec, rep)
    v = ctx.tensor("v", (len(c),), True)
    x = ChargeArray(v, [c], [flow])
    r = bl.diag(x)
    is_dense(ctx, r, np.diag(v), "diagonal matrix of a vector")
    is_dense(ctx, be().diagflat(x), np.diag(v), "backend diagflat")
    back = bl.diag(r)
    got(ctx, back, rows(c), v, mods(c), flow, "diagonal of a diagonal matrix")
    m, dm = w.tensor("m", [spec, spec], [F, T], cplx=True)
    k = dm.shape[0]
    is_dense(ctx, be().broadcast_right_multiplication(m, ChargeArray(v, [c], [F])), dm * v[None, :], "right multiplication")
    is_dense(ctx, be().broadcast_left_multiplication(ChargeArray(v, [c], [F]), m), v[:, None] * dm, "left multiplication")


def got(ctx, ca, qs, v, ms, flow, label):
  """charge by charge, the entries of the charge array `ca` are those of v with that charge in their order"""
  rs = rows(ca.charges[0][0])
  data = np.asarray(ca.data)
  ctx.check(len(rs) == len(qs) == len(data), label + ": length")
  for q in qs:
    s = tuple(-x for x in q) if flow else q
    a = [data[i] for i, r in enumerate(rs) if all(zero(x - y, m) for x, y, m in zip(r, s, ms))]
    b = [v[i] for i, r in enumerate(qs) if all(zero(x - y, m) for x, y, m in zip(r, q, ms))]
    ctx.check(len(a) == len(b), label + ": entries of a charge")
    for x, y in zip(a, b):
      ctx.eq(np.asarray(x), np.asarray(y), label)


def diagonal(ctx, types, specs, flows, groups, order=None, rep="raw"):
  """diagonal of a matrix: the diagonals of its blocks"""
  with qarr.on(ctx):
    w = World(ctx, types)
    t, d = w.tensor("d", specs, flows, rep=rep)
    if order:
      t, d = t.transpose(order), d.transpose(order)
    else:
      order = range(len(specs))
    m, dm = fuse(t, d, groups)
    ms = mods(t._charges[0])

    def fused(g, flip):
      out = [tuple(0 for _ in ms)]
      for x in g:
        o = order[x]
        r, f = rows(t._charges[o]), t._flows[o] ^ flip
        out = [tuple(int(a - b if f else a + b) % mod if mod else (a - b if f else a + b) for a, b, mod in zip(u, v, ms))
               for u in out for v in r]
      return out

    rq, cq = fused(groups[0], False), fused(groups[1], True)
    ca = bl.diag(m)
    data, charges = np.asarray(ca.data), rows(ca.charges[0][0])
    ctx.check(len(data) == len(charges), "a charge for every entry")
    used = 0
    done = []
    for q in rq:
      if any(all(zero(x - y, mod) for x, y, mod in zip(q, z, ms)) for z in done):
        continue
      done.append(q)
      eq = lambda u: all(zero(x - y, mod) for x, y, mod in zip(u, q, ms))
      ri, ci = [i for i, u in enumerate(rq) if eq(u)], [i for i, u in enumerate(cq) if eq(u)]
      want = [dm[i, j] for i, j in zip(ri, ci)]
      have = [x for x, u in zip(data, charges) if eq(u)]
      ctx.check(len(want) == len(have), "length of the diagonal of a block")
      for x, y in zip(have, want):
        ctx.eq(np.asarray(x), np.asarray(y), "diagonal of a block")
      used += len(want)
    ctx.check(used == len(data), "entries of the diagonal")


def fused_diag(ctx, types, specs, rep="raw"):
  """diagonal matrix of a charge array with several elementary legs"""
  with qarr.on(ctx):
    w = World(ctx, types)
    cs = [w.charge(s, rep) for s in specs]
    n = int(np.prod([len(c) for c in cs]))
    v = ctx.tensor("v", (n,), False)
    x = ChargeArray(v, cs, [F] * len(cs), order=[list(range(len(cs)))])
    r = bl.diag(x)
    is_dense(ctx, r, np.diag(v), "diagonal matrix of a fused vector")


def ref(x):
  """a tensor of its own with the same storage"""
  return BlockSparseTensor(x.data, x._charges, list(x._flows), [list(o) for o in x._order])


def arithmetic(ctx, types, specs, flows, rep="raw", some=False):
  """addition, subtraction, scalar operations, conj, norm, abs, sign, sqrt in all storage layouts"""
  with qarr.on(ctx):
    w = World(ctx, types)
    a, da = w.tensor("a", specs, flows, rep=rep, cplx=True)
    b, db = w.tensor("b", specs, flows, rep="raw" if rep == "labels" else "labels", cplx=True)
    z = ctx.complex("z")
    n = da.ndim
    for na, x in layouts(a, da, some):
      for nb, y in layouts(b, db, True):
        lab = f"first {na}, second {nb}"
        x1, x2 = ref(x), ref(x)
        y1, y2 = ref(y), ref(y)
        is_dense(ctx, x1 + y1, da + db, "sum: " + lab)
        is_dense(ctx, x1, da, "first summand: " + lab)
        is_dense(ctx, y1, db, "second summand: " + lab)
        is_dense(ctx, y2 - x2, db - da, "difference: " + lab)
        is_dense(ctx, x2, da, "subtrahend: " + lab)
        is_dense(ctx, y2, db, "minuend: " + lab)
      if n > 1:
        for g in ([[0, 1]] + [[i] for i in range(2, n)],):
          fa, fda = fuse(x, da, g)
          fb, fdb = fuse(b, db, g)
          is_dense(ctx, fa + fb, fda + fdb, "sum of fused tensors: " + na)
          is_dense(ctx, be().subtraction(fa, fb), fda - fdb, "difference of fused tensors: " + na)
      is_dense(ctx, x.conj(), da.conj(), "conj: " + na)
      ctx.check(same_legs(legs_of(x.conj()), [[(r, not f) for r, f in l] for l in legs_of(x)]), "conj reverses the flows")
    is_dense(ctx, a * z, da * z, "scalar product")
    is_dense(ctx, z * a, da * z, "scalar product from the left")
    is_dense(ctx, -a, -da, "negation")
    is_dense(ctx, a / 2, da / 2, "division")
    is_dense(ctx, a ** 2, da ** 2, "power")
    is_dense(ctx, be().addition(a, b), da + db, "backend addition")
    if n == 2:
      is_dense(ctx, a.T, da.T, "T")
      is_dense(ctx, bl.transpose(a), da.T, "transpose function")
      is_dense(ctx, a.H, da.T.conj(), "H")
      ctx.check(same_legs(legs_of(a.H), legs_of(a.conj().T)), "H reverses the flows")
    c = a.copy()
    is_dense(ctx, c, da, "copy")
    if len(c.data):
      c.data[0] = c.data[0] + 1
      is_dense(ctx, a, da, "original after changing the copy")
    nv = bl.norm(a)
    ctx.eq(np.asarray(nv * nv), np.asarray((da * da.conj()).sum() if da.size else 0), "square of the norm")
    is_dense(ctx, a, da, "tensor afterwards")


def convert(ctx, types, specs, flows, groups=None):
  """fromdense, ones, zeros, eye and the like"""
  with qarr.on(ctx):
    w = World(ctx, types)
    groups = groups or [[i] for i in range(len(specs))]
    idx = [w.index([specs[i] for i in g], [flows[i] for i in g]) for g in groups]
    cs = [w.charge(s) for s in specs]
    ok = allowed(cs, flows)
    shape = [int(np.prod([len(cs[i]) for i in g])) for g in groups]
    x = ctx.tensor("x", tuple(shape), False)
    t = BlockSparseTensor.fromdense(idx, x)
    m = ok.reshape(shape)
    want = np.zeros(tuple(shape), dtype=x.dtype)
    want[m] = x[m]
    is_dense(ctx, t, want, "fromdense keeps the allowed entries")
    is_dense(ctx, BlockSparseTensor.fromdense(idx, t.todense()), want, "round trip")
    for name, fn, v in (("ones", bi.ones, 1), ("zeros", bi.zeros, 0)):
      is_dense(ctx, fn(idx), np.where(m, float(v), 0.), name)
      is_dense(ctx, getattr(be(), name)(idx), np.where(m, float(v), 0.), "backend " + name)
    for name, fn, v in (("ones_like", bi.ones_like, 1), ("zeros_like", bi.zeros_like, 0)):
      tt = t.transpose(list(reversed(range(len(groups)))))
      is_dense(ctx, fn(tt), np.where(m.transpose(), v, 0), name)
    for name, fn in (("randn", bi.randn), ("random", bi.random)):
      r = fn(idx)
      d = dense(ctx, r, name)
      ctx.check(bool(np.all((d == 0) | m)) and d.shape == tuple(shape), name + " respects the charges")
    is_dense(ctx, be().convert_to_tensor(t), want, "convert_to_tensor")
    ctx.check(be().shape_tuple(t) == tuple(shape) and tuple(t.shape) == tuple(shape), "shape")
    ctx.check(t.size == int(np.prod(shape)) and t.ndim == len(shape), "size and ndim")


def identity(ctx, types, specs, flows, row=True):
  with qarr.on(ctx):
    w = World(ctx, types)
    i = w.index(specs, flows)
    n = int(np.prod([len(c) for c in i.flat_charges]))
    e = bl.eye(i)
    is_dense(ctx, e, np.eye(n), "eye")
    is_dense(ctx, bl.eye(i, i.copy().flip_flow()), np.eye(n), "eye with both indices")
    is_dense(ctx, be().eye(i), np.eye(n), "backend eye")
    l = legs_of(e)
    ctx.check(same_legs(l, [[(rows(c), bool(f)) for c, f in zip(i.flat_charges, i.flat_flows)],
                            [(rows(c), not f) for c, f in zip(i.flat_charges, i.flat_flows)]]), "indices of eye")


def network(ctx, types, which):
  """networks of symmetric tensors contracted with ncon"""
  with qarr.on(ctx):
    w = World(ctx, types)
    if which == "chain":
      a, da = w.tensor("a", ["a,0", "b,0"], [F, T])
      b, db = w.tensor("b", ["b,0", "c,1"], [F, T])
      c, dc = w.tensor("c", ["c,1", "0,a"], [F, T])
      ts, ds, net = [a, b, c], [da, db, dc], [[-2, 1], [1, 2], [2, -1]]
    elif which == "parallel":
      a, da = w.tensor("a", ["a,0", "b,0", "0,1"], [F, T, T])
      b, db = w.tensor("b", ["0,1", "a,0", "b,0"], [F, T, F])
      ts, ds, net = [a, b], [da, db], [[1, 2, 3], [3, 1, 2]]
    elif which == "trace":
      a, da = w.tensor("a", ["a,0", "b,0", "b,0"], [F, T, F])
      b, db = w.tensor("b", ["a,0", "0,b"], [T, F])
      ts, ds, net = [a, b], [da, db], [[1, 2, 2], [1, -1]]
    else:
      a, da = w.tensor("a", ["a,0", "b,0"], [F, T])
      b, db = w.tensor("b", ["0,b", "0,1"], [F, T])
      ts, ds, net = [a, b], [da, db], [[-1, -3], [-4, -2]]
    r = ncon(ts, net, backend="symmetric")
    letters = {}
    sub = ",".join("".join(letters.setdefault(l, chr(97 + len(letters))) for l in n) for n in net)
    out = "".join(letters[l] for l in sorted((l for n in net for l in n if l < 0), reverse=True))
    want = np.einsum(sub + "->" + out, *ds)
    is_dense(ctx, r, want, "ncon")
    for t, d in zip(ts, ds):
      is_dense(ctx, t, d, "input of ncon")


def scenarios(tier):
  out = []

  def add(name, fn, *a, tier="quick", **k):
    out.append(Scenario(name, fn, *a, tier=tier, **k))

  # transposition, fusing, storage
  for types, specs, flows, rep in [
      ("U1", ["a,b", "0,c"], [F, T], "raw"), ("U1", ["a,0", "b,0", "0,a"], [F, F, T], "labels"),
      ("U1", ["a,0", "b", "0,a,b"], [T, F, T], "raw"), ("U1", ["0,a", "0", "0,a"], [F, T, T], "raw"),
      ("Z3", ["a,0", "b,1", "0,c"], [F, T, T], "raw"), ("U1.Z2", ["a,0;b,0", "a,0;0,1", "0,1;0,1"], [F, T, F], "labels"),
      ("U1", ["0,a", "0,a", "0,1", "0"], [F, F, T, T], "raw")]:
    add(f"transpose/reshape/contiguous {types} {' | '.join(specs)}", move, types, specs, flows, rep, cplx=rep == "labels")
  # contraction
  for types, left, lf, right, rf, k, kw in [
      ("U1", ["a,b", "c,0"], [F, T], ["a,0"], [T], 1, {}),
      ("U1", ["0,a", "b,0"], [F, T], ["0,a"], [F], 1, dict(negative=True, reps=("labels", "raw"))),
      ("U1", ["0,a", "b,0", "a,1"], [F, T, T], ["0,b"], [F], 2, dict(negative=True, cplx=(True, True))),
      ("U1", ["0,a", "0,1", "0,1"], [F, T, T], [], [], 3, dict(some=True)),
      ("U1", ["0,a", "0,b"], [F, T], [], [], 1, {}),
      ("U1", ["0,a", "0,b"], [F, F], ["0,a", "0,1"], [T, T], 1, dict(some=True)),
      ("U1", ["0", "0,b"], [F, F], ["0,a"], [T], 1, dict(reps=("labels", "labels"))),
      ("Z2", ["a,0", "b,1"], [F, T], ["0,1"], [F], 1, {}),
      ("Z3", ["a,0", "b,1", "0,1"], [F, T, T], ["0,c"], [F], 2, dict(some=True)),
      ("U1.Z2", ["a,0;b,0", "0,1;a,0"], [F, T], ["0,a;0,1"], [F], 1, {}),
      ("U1.U1", ["a,0;0,b", "0,1;a,0"], [F, T], ["0,a;0,b"], [T], 1, {}),
      ("U1.U1.U1", ["a,0;0,1;0,0", "0,1;a,0;0,1"], [F, T], ["0,a;0,a;0,1"], [T], 1, dict(reps=("raw", "labels")))]:
    add(f"tensordot {types} {' | '.join(left)} * {' | '.join(right)} over {k}", contract, types, left, lf, right, rf, k, **kw)
  for types, l, lf, r, rf, kw in [("U1", ["a,0", "0,b"], [F, T], ["0,a"], [F], {}),
                                  ("U1", ["a", "0,b"], [F, T], ["0,a", "b,1"], [T, T], dict(cplx=(False, True))),
                                  ("Z2", ["a,0", "b,1"], [F, T], ["0,a"], [T], dict(cplx=(True, False))),
                                  ("U1.Z2", ["a,0;0,1", "0,a;b,0"], [F, T], ["0,a;0,b"], [T], {})]:
    add(f"outer product {types} {' | '.join(l)} * {' | '.join(r)}", outer, types, l, lf, r, rf, **kw)
    add(f"outer product of different dtypes {types} {' | '.join(l)} * {' | '.join(r)}", mixed_dtypes, types, l, lf, r, rf)
  # trace
  for types, specs, flows, pair, kw in [
      ("U1", ["a,b", "a,b"], [F, T], (0, 1), {}), ("U1", ["a,b", "c,0", "a,b"], [F, T, T], (0, 2), dict(cplx=True)),
      ("U1", ["a,0", "0,1", "0", "0,1"], [T, T, F, F], (1, 3), {}), ("U1", ["a", "0", "a"], [F, T, T], (0, 2), {}),
      ("Z2", ["a,0", "0,b", "0,b"], [T, T, F], (1, 2), {}), ("Z3", ["a,1", "0,b", "0,b"], [T, T, F], (1, 2), {}),
      ("U1.Z2", ["a,0;0,b", "0,b;1,0", "a,0;0,b"], [T, T, F], (0, 2), dict(rep="labels"))]:
    add(f"trace {types} {' | '.join(specs)}", tracing, types, specs, flows, pair, **kw)
  for types, specs, rep in [("U1", ["a,0", "b,0"], "raw"), ("U1", ["a,0", "0,b,1"], "labels"), ("U1", ["0,a", "b", "0,1"], "raw"),
                            ("U1", ["0,a", "0,1", "0,1"], "raw"), ("Z2", ["0,a", "b,1", "0,1"], "raw")]:
    add(f"trace of fused legs {types} {' | '.join(specs)}", fused_trace, types, specs, rep)
  # diagonals
  for types, spec, f, rep in [("U1", "a,b,c", F, "raw"), ("U1", "a,b,a,b", F, "labels"), ("U1", "a,0", T, "raw"), ("U1", "a", F, "raw"),
                              ("Z3", "a,b,1", F, "raw"), ("U1.Z2", "a,0,a;b,0,1", F, "raw"), ("Z3", "a,b,1", T, "raw")]:
    add(f"diag {types} {spec} {f}", diagonals, types, spec, f, rep)
  for types, specs, flows, groups, order in [
      ("U1", ["a,b", "c,0"], [F, T], [[0], [1]], None), ("U1", ["a,b", "c,0"], [F, T], [[0], [1]], (1, 0)),
      ("U1", ["0,a", "b,1", "0,c"], [F, F, T], [[0, 1], [2]], None), ("U1", ["0,a", "b,0", "0,a"], [F, F, T], [[0], [1, 2]], (1, 2, 0)),
      ("Z2", ["0,a", "b,0", "0,a"], [F, F, T], [[0], [1, 2]], (1, 2, 0)), ("U1", ["a,a,b", "a,b"], [T, F], [[0], [1]], None)]:
    add(f"diagonal of a matrix {types} {' | '.join(specs)} {groups} {order}", diagonal, types, specs, flows, groups, order)
  for types, specs in [("U1", ["a,0", "b,0"]), ("U1", ["a,0", "a,0"]), ("U1", ["a", "b,0,1"]), ("Z2", ["a,0", "b,0"])]:
    add(f"diag of fused legs {types} {' | '.join(specs)}", fused_diag, types, specs)
  # arithmetic
  for types, specs, flows, rep, some in [("U1", ["a,b", "c,0"], [F, T], "raw", False), ("U1", ["a,0", "b,0", "0,1"], [F, T, T], "labels", True),
                                         ("U1", ["0,a", "0,a", "0,b"], [F, T, T], "raw", False), ("U1", ["0,a", "0,1", "0,1", "0,a"], [F, T, T, T], "raw", True),
                                         ("Z2", ["a,0", "b,0", "0,c"], [F, T, T], "labels", False), ("U1.Z2", ["a,0;0,b", "0,1;1,0"], [F, T], "raw", False)]:
    add(f"arithmetic {types} {' | '.join(specs)}", arithmetic, types, specs, flows, rep, some)
  for types, specs, flows, groups in [("U1", ["a,b", "c,0"], [F, T], None), ("U1", ["a,0", "b,0", "0,c"], [F, T, T], None),
                                      ("U1", ["a,0", "b,0", "0,a"], [F, T, T], [[0, 1], [2]]), ("Z3", ["a,0", "b,0", "0,1"], [F, T, T], [[0], [1, 2]]),
                                      ("U1", ["a", "b"], [F, T], None), ("U1", ["a,b"], [T], None),
                                      ("U1.Z2", ["a,0;0,b", "0,a;1,0"], [F, T], None)]:
    add(f"conversion {types} {' | '.join(specs)} {groups}", convert, types, specs, flows, groups)
  for types, specs, flows in [("U1", ["a,b"], [F]), ("U1", ["a,b,c"], [T]), ("U1", ["a,0", "b,0"], [F, T]), ("U1", ["a,0", "b", "0,1"], [F, T, F]),
                              ("Z3", ["a,0", "b,1"], [F, F]), ("U1.Z2", ["a,0;b,1"], [T])]:
    add(f"eye {types} {' | '.join(specs)}", identity, types, specs, flows)
  for which in ("chain", "parallel", "trace", "outer"):
    for types in ("U1", "Z2"):
      add(f"ncon {which} {types}", network, types, which)
  return [s for s in out if tier == "thorough" or s.tier == "quick"]
