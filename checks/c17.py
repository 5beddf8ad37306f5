"""C17: block-data caching never changes a result."""
import itertools
import numpy as np
from runner import Scenario
import qarr
from bslib import World, legs_of, same_legs, rows
from tensornetwork import ncon
from tensornetwork import block_sparse as bs
from tensornetwork.backends import backend_factory
from tensornetwork.block_sparse import linalg as bl
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor, ChargeArray, tensordot
from tensornetwork.block_sparse import blocksparse_utils as bu
from tensornetwork.block_sparse.caching import get_cacher

BOUNDS = ("histories of up to 6 operations (contraction over every number of axes, transposition with every order, diagonal, trace, products of blocks, svd, qr) on 2 or 3 tensors of up to three "
          "legs that share charges, legs, flows, symmetry types, leg splittings or charge widths; arbitrary U(1) charges with absolute value up to 1000, arbitrary entries; the caching state "
          "before every operation is one of enabled, disabled, cleared, left as it was")
OUTSIDE = "legs of more than three charges; user code that changes the charges of a tensor in place; concurrent use"
ASSUMPTIONS = ["the bytes of different integers are different and little-endian"]


class uncached:
  """caching off, without touching what is stored"""

  def __enter__(self):
    self.c = get_cacher()
    self.old = self.c.do_caching, self.c.cache
    self.c.do_caching, self.c.cache = False, {}

  def __exit__(self, *a):
    self.c.do_caching, self.c.cache = self.old


class clean:

  def __enter__(self):
    self.c = get_cacher()
    self.c.do_caching, self.c.cache = False, {}

  def __exit__(self, *a):
    self.c.do_caching, self.c.cache = False, {}


def same(ctx, a, b, label):
  if isinstance(b, (list, tuple)):
    ctx.check(isinstance(a, (list, tuple)) and len(a) == len(b), label + ": number of results")
    for i, (x, y) in enumerate(zip(a, b)):
      same(ctx, x, y, f"{label}[{i}]")
    return
  if isinstance(b, ChargeArray):
    ctx.check(type(a) is type(b), label + ": kind of result")
    ctx.check(same_legs(legs_of(a), legs_of(b)), label + ": legs")
    ctx.check([list(c.charge_types) for c in a._charges] == [list(c.charge_types) for c in b._charges], label + ": charge types")
    ctx.eq(np.asarray(a.data), np.asarray(b.data), label + ": stored entries")
    return
  if hasattr(b, "charge_types"):
    ra, rb = rows(a), rows(b)
    ctx.check(len(ra) == len(rb) and all(qarr.same(x, y) for r, s in zip(ra, rb) for x, y in zip(r, s)), label + ": charges")
    return
  ctx.eq(np.asarray(a), np.asarray(b), label)


def step(ctx, op, label, want=None):
  """the operation under the current caching state equals the operation without caching (`want` remembers the latter)"""
  want = {} if want is None else want
  if op not in want:
    with uncached():
      want[op] = op()
  same(ctx, op(), want[op], label)


def ops_of(t, u=None, dec=False):
  """[(name, operation)] on t alone or with u (same leg charges, contracted leg by leg)"""
  n = len(t._charges)
  out = []
  if u is None:
    u = t
  c = u.conj()
  for k in range(0, n + 1):
    out.append((f"contract {k}", lambda k=k: tensordot(t, c, [list(range(k)), list(range(k))])))
    if 0 < k < n:
      out.append((f"contract last {k}", lambda k=k: tensordot(t, c, [list(range(n - k, n)), list(range(n - k, n))])))
  for p in itertools.permutations(range(n)):
    out.append((f"transpose {p}", lambda p=p: t.transpose(p).contiguous()))
    if n > 1:
      out.append((f"contract transposed {p}", lambda p=p: tensordot(t.transpose(p), c.transpose(p), [[0], [0]])))
  if n == 2:
    out.append(("diagonal", lambda: bl.diag(t)))
    out.append(("trace of the square", lambda: tensordot(t, c, [[0, 1], [0, 1]])))
  out.append(("ncon", lambda: ncon([t, c], [list(range(1, n + 1))] * 2, backend="symmetric")))
  if n > 1:
    out.append(("reshape", lambda: t.reshape([t.shape[0], int(np.prod(t.shape[1:]))])))
    out.append(("blocks", lambda: [np.asarray(x) for x in bu._find_diagonal_sparse_blocks(t._charges, t._flows, 1)[0]]))
    out.append(("transposed blocks", lambda: [np.asarray(x) for x in bu._find_transposed_diagonal_sparse_blocks(t._charges, t._flows, 1, list(range(n))[::-1])[0]]))
    out.append(("block shapes", lambda: bu._find_transposed_diagonal_sparse_blocks(t._charges, t._flows, 1, list(range(n)))[1:]))
    out.append(("blocks without order", lambda: bu._find_transposed_diagonal_sparse_blocks(t._charges, t._flows, 1)[1:]))
  return out


def every_op(ctx, types, specs, flowsets, rep="raw"):
  """every operation on tensors with the same charges and different flows, twice, with caching enabled throughout"""
  with qarr.on(ctx), clean():
    w = World(ctx, types)
    ts = [w.tensor(f"d{i}", specs, f, rep=rep)[0] for i, f in enumerate(flowsets)]
    bs.enable_caching()
    ops, want = [ops_of(t) for t in ts], {}
    for rnd in range(2):
      for i, o in enumerate(ops):
        for name, op in o:
          step(ctx, op, f"round {rnd}, tensor {i}: {name}", want)
    ctx.check(bs.get_caching_status() is True, "caching is still enabled")
    ctx.check(not get_cacher().is_empty, "something was cached")


def pairs(ctx, first, second):
  """two tensors of different kinds, one after the other"""
  with qarr.on(ctx), clean():
    made = []
    w0 = {}
    for i, (types, specs, flows, dt) in enumerate((first, second)):
      w = World(ctx, types)
      w.syms = w0
      w.dtype = np.dtype(dt)
      made.append(w.tensor(f"d{i}", specs, flows)[0])
    ops, want = [ops_of(t) for t in made], {}
    names = [n for n, _ in ops[0]]
    names += [n for n, _ in ops[1] if n not in names]
    for order in ((0, 1), (1, 0)):
      for n in names:
        bs.clear_cache()
        bs.enable_caching()
        for i in order:
          for name, op in ops[i]:
            if name == n:
              step(ctx, op, f"tensor {i} after {order}: {name}", want)
    for i in (0, 1, 0):
      for name, op in ops[i]:
        step(ctx, op, f"tensor {i}: {name}", want)


def small(ctx, a, b, specs, flows):
  """tensors whose charges are the same small numbers in different groups"""
  with qarr.on(ctx), clean():
    names = sorted({x for s in specs for x in s.replace(",", " ").split() if x.isalpha()})
    vals = {n: ctx.pick(n, 0, 1) for n in names}
    num = [",".join(str(vals.get(x, x)) for x in s.split(",")) for s in specs]
    ts = []
    for i, types in enumerate((a, b)):
      m = types.count(".") + 1
      w = World(ctx, types)
      ts.append(w.tensor(f"d{i}", [";".join([s] * m) for s in num], flows)[0])
    bs.enable_caching()
    ops, want = [ops_of(t) for t in ts], {}
    for i in (0, 1, 0):
      for name, op in ops[i]:
        step(ctx, op, f"tensor {i} ({(a, b)[i]}): {name}", want)


def toggles(ctx, types, specs, flows, n):
  """caching switched between the operations in every way"""
  with qarr.on(ctx), clean():
    w = World(ctx, types)
    t = w.tensor("d0", specs, flows)[0]
    u = w.tensor("d1", specs, [not f for f in flows])[0]
    on = False
    a, b, want = ops_of(t), ops_of(u), {}
    some = [x for x in range(len(a)) if a[x][0] in ("contract 1", "contract last 1", "transpose (1, 0)", "diagonal", "transpose (2, 0, 1)", "transposed blocks", "ncon")]
    for i in range(n):
      what = ctx.pick(f"state{i}", 0, 3)
      if what == 0:
        bs.enable_caching()
        on = True
      elif what == 1:
        bs.disable_caching()
        on = False
      elif what == 2:
        bs.clear_cache()
        ctx.check(get_cacher().is_empty, "cleared")
      before = dict(get_cacher().cache)
      for o in (a, b):
        for x in some:
          step(ctx, o[x][1], f"step {i}: {o[x][0]}", want)
      ctx.check(bs.get_caching_status() == on, "caching status")
      if not on:
        ctx.check(set(before) == set(get_cacher().cache), "nothing is stored while caching is off")
    bs.set_caching_status(True)
    ctx.check(bs.get_caching_status() is True, "status set")
    bs.set_caching_status(False)
    ctx.check(bs.get_caching_status() is False, "status set")


def contents(ctx, types, specs, flows):
  """what is stored stays as computed, whatever is done with results"""
  with qarr.on(ctx), clean():
    w = World(ctx, types)
    t = w.tensor("d", specs, flows)[0]
    bs.enable_caching()
    o = ops_of(t)
    for name, op in o:
      op()
    stored = {k: ([np.array(x) for x in v[0]], rows(v[1]), np.array(v[2])) for k, v in get_cacher().cache.items()}
    for name, op in o:
      r = op()
      if isinstance(r, BlockSparseTensor):
        r.contiguous(inplace=True)
        if len(r._charges) > 1:
          r.transpose(list(range(r.ndim))[::-1]).contiguous()
        for c in r._charges:
          c.unique_charges  # pylint: disable=pointless-statement
        r.data = np.asarray(r.data) * 2
    ctx.check(set(stored) <= set(get_cacher().cache), "entries are kept")
    for k, (b, c, d) in stored.items():
      v = get_cacher().cache[k]
      ctx.check(len(v[0]) == len(b) and all(np.array_equal(x, y) for x, y in zip(v[0], b)), "stored block positions")
      ctx.check(np.array_equal(v[2], d), "stored block shapes")
      rv = rows(v[1])
      ctx.check(len(rv) == len(c) and all(qarr.same(x, y) for r, s in zip(rv, c) for x, y in zip(r, s)), "stored charges")


def scenarios(tier):
  th = tier == "thorough"
  out = []
  def flows(n):
    return list(itertools.product((False, True), repeat=n))
  E = [("U1", ["a,b", "a,b"], flows(2)), ("U1", ["a,b,a", "b,a"], flows(2)), ("U1", ["a,b", "a,0", "0,a"], [(False, False, True), (False, True, True)]),
       ("Z3", ["a,b", "b,a"], flows(2)), ("U1.Z2", ["a,b;c,1", "b,a;0,c"], flows(2)), ("U1.U1.U1", ["a,b;b,a;0,1", "a,b;b,a;1,0"], flows(2)), ("U1", ["a,b", "a", "0,b"], flows(3)),
       ("U1", ["a,b,0"], flows(1))]
  if not th:
    E = [(t, s, f[1::2] if len(f) == 4 else f[1::4] if len(f) == 8 else f) for t, s, f in E]
  for t, s, f in E:
    for rep in ("raw", "labels") if th or t == "U1" and len(s) < 3 else ("labels",):
      out.append(Scenario(f"every op {t} {s} {len(f)} {rep}", every_op, t, s, f, rep))
  F, T = False, True
  P = [("same bytes, one or two symmetries", ("U1.U1", ["a;b", "a;b"], (F, T), "int16"), ("U1", ["a,b", "a,b"], (F, T), "int16")),
       ("same bytes, one or two symmetries (zero)", ("U1.U1", ["a;0", "0;a"], (F, F), "int16"), ("U1", ["a,0", "0,a"], (F, F), "int16")),
       ("same bytes, widths", ("U1", ["a", "a"], (F, T), "int32"), ("U1", ["a,0", "a,0"], (F, T), "int16")),
       ("same bytes, widths 64", ("U1", ["a", "0"], (F, T), "int64"), ("U1", ["a,0", "0,0"], (F, T), "int32")),
       ("same bytes, widths 2", ("U1.U1", ["a;b", "a;b"], (F, T), "int32"), ("U1.U1", ["a,b;0,0", "a,b;0,0"], (F, T), "int16")),
       ("flows", ("U1", ["a,b", "1,a"], (F, T), "int16"), ("U1", ["a,b", "1,a"], (F, F), "int16")),
       ("order of the legs", ("U1", ["a,b", "1,a"], (F, T), "int16"), ("U1", ["1,a", "a,b"], (F, T), "int16")),
       ("splitting", ("U1", ["a,b", "0"], (F, T), "int16"), ("U1", ["a", "b,0"], (F, T), "int16")),
       ("splitting 3", ("U1", ["a,b", "0", "b"], (F, T, T), "int16"), ("U1", ["a", "b,0", "b"], (F, T, T), "int16")),
       ("number of legs", ("U1", ["a,b", "0,a"], (F, T), "int16"), ("U1", ["a,b", "0", "a"], (F, T, T), "int16")),
       ("one charge differs", ("U1", ["a,b", "1,a"], (F, T), "int16"), ("U1", ["a,b", "1,b"], (F, T), "int16")),
       ("opposite charges", ("U1", ["a,b", "b,a"], (F, T), "int16"), ("U1", ["-a,-b", "-b,-a"], (F, T), "int16")),
       ("Z2 and Z3", ("Z2", ["0,1", "1,1"], (F, F), "int16"), ("Z3", ["0,1", "1,1"], (F, F), "int16")),
       ("Z3 and Z4", ("Z3", ["0,1,2", "1,2"], (F, F), "int16"), ("Z4", ["0,1,2", "1,2"], (F, F), "int16")),
       ("order of the symmetries", ("U1.Z2", ["0,1;1,0", "0,1;1,1"], (F, T), "int16"), ("Z2.U1", ["0,1;1,0", "0,1;1,1"], (F, F), "int16"))]
  if th:
    P += [("flows (more charges)", ("U1", ["a,b", "c,a"], (F, T), "int16"), ("U1", ["a,b", "c,a"], (F, F), "int16")),
          ("order of the legs (more charges)", ("U1", ["a,b", "c,a"], (F, T), "int16"), ("U1", ["c,a", "a,b"], (F, T), "int16")),
          ("splitting (more charges)", ("U1", ["a,b", "c"], (F, T), "int16"), ("U1", ["a", "b,c"], (F, T), "int16")),
          ("one charge differs (more charges)", ("U1", ["a,b", "c,a"], (F, T), "int16"), ("U1", ["a,b", "c,d"], (F, T), "int16"))]
  for name, a, b in P:
    out.append(Scenario(f"pair {name}", pairs, a, b))
  for a, b in (("U1", "Z2"), ("Z2", "Z3"), ("U1", "Z3"), ("U1.Z2", "Z2.U1"), ("U1.U1", "Z2.Z2"), ("Z4", "Z2")):
    for specs, f in ((["a,b", "c,1"], (F, F)), (["a,1", "b", "1,c"], (F, F, T))):
      out.append(Scenario(f"small {a} {b} {specs}", small, a, b, specs, f))
  for t, s, f, n in (("U1", ["a,b", "b,a"] if th else ["a,1", "1,a"], (F, T), 3 if th else 2), ("U1", ["a,1", "a", "0,1"], (F, T, F), 2), ("Z2", ["a,1", "0,1"], (F, F), 4 if th else 3)):
    out.append(Scenario(f"toggles {t} {s} {n}", toggles, t, s, f, n))
  for t, s, f in (("U1", ["a,b", "b,a"], (F, T)), ("U1", ["a,b", "a", "0,b"], (F, T, F)), ("U1.Z2", ["a,b;c,1", "b,a;0,c"], (F, T))):
    out.append(Scenario(f"contents {t} {s}", contents, t, s, f))
  return out
