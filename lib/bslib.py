"""Block-sparse tensors with symbolic charges, and what they mean as dense arrays."""
import re
import numpy as np
import qarr
from tensornetwork.block_sparse import charge as ch
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor, ChargeArray
from tensornetwork.block_sparse.index import Index

Z3 = ch.ZNCharge(3)
Z4 = ch.ZNCharge(4)
TYPES = {"U1": (ch.U1Charge, 0), "Z2": (ch.Z2Charge, 2), "Z3": (Z3, 3), "Z4": (Z4, 4)}
MODS = {c: n for c, n in TYPES.values()}


class World:
  """charges written as expressions over shared symbols"""

  def __init__(self, ctx, types="U1"):
    self.ctx = ctx
    self.types = [TYPES[t] for t in types.split(".")]
    self.syms = {}
    self.dtype = np.dtype(np.int16)

  def sym(self, name, mod):
    key = (name, mod)
    if key not in self.syms:
      if mod:
        self.syms[key] = self.ctx.pick(f"{name}_{mod}", 0, mod - 1)
      else:
        self.syms[key] = qarr.symbols(self.ctx, f"{name}_", (1,))[0]
        if not self.ctx.symbolic:
          self.syms[key] = int(self.syms[key])
    return self.syms[key]

  def value(self, expr, mod):
    r = None
    for sign, term in re.findall(r"([+-]?)([a-z]\w*|\d+)", expr):
      v = int(term) if term.isdigit() else self.sym(term, mod)
      v = -v if sign == "-" else v
      r = v if r is None else r + v
    return r % mod if mod else r

  def values(self, spec):
    """list of tuples, one entry per symmetry"""
    cols = [[self.value(e, mod) for e in part.split(",")] for part, (_, mod) in zip(spec.split(";"), self.types)]
    return list(zip(*cols))

  def array(self, vals):
    n = len(self.types)
    flat = [x for v in vals for x in v]
    if any(isinstance(x, qarr.Q) for x in flat):
      return qarr.wrap(flat, (len(vals), n), self.dtype)
    return np.array(flat, dtype=self.dtype).reshape(len(vals), n)

  def charge(self, spec, rep="raw"):
    vals = self.values(spec) if isinstance(spec, str) else spec
    a = self.array(vals)
    if len(self.types) == 1:
      c = self.types[0][0](a[:, 0], charge_dtype=self.dtype)
    else:
      c = ch.BaseCharge(a, charge_types=[t for t, _ in self.types], charge_dtype=self.dtype)
    if rep == "labels":
      c.unique_charges  # pylint: disable=pointless-statement
    return c

  def index(self, specs, flows):
    return Index([self.charge(s) for s in specs], list(flows))

  def tensor(self, name, specs, flows, order=None, cplx=False, rep="raw", charges=None):
    """(tensor, dense array over the elementary legs) with arbitrary stored entries"""
    charges = charges or [self.charge(s, rep) for s in specs]
    ok = allowed(charges, flows)
    data = self.ctx.tensor(name, (int(ok.sum()),), cplx)
    t = BlockSparseTensor(data, charges, list(flows), order)
    return t, spread(data, ok)


def rows(c):
  """charges as a list of tuples"""
  a = np.asarray(c.charges)
  return [tuple(r) for r in a]


def mods(c):
  return [MODS.get(t, 0) for t in c.charge_types]


def zero(v, mod):
  if mod:
    return int(v) % mod == 0
  return bool(v == 0)


def allowed(charges, flows):
  """truth array over all index tuples: does the total charge vanish?"""
  rs = [rows(c) for c in charges]
  ms = mods(charges[0]) if charges else []
  out = np.zeros(tuple(len(r) for r in rs), dtype=bool)
  for idx in np.ndindex(*out.shape):
    ok = True
    for k, m in enumerate(ms):
      s = 0
      for r, f, i in zip(rs, flows, idx):
        s = s - r[i][k] if f else s + r[i][k]
      if not zero(s, m):
        ok = False
        break
    out[idx] = ok
  return out


def spread(data, ok):
  d = np.zeros(ok.shape, dtype=data.dtype)
  d[ok] = data
  return d


def elementary(t):
  """dense array over the elementary legs in storage order; checks the number of stored entries"""
  data = np.asarray(t.data)
  if not t._charges:
    return data.reshape(())
  ok = allowed(t._charges, list(t._flows))
  if data.shape != (int(ok.sum()),):
    return None
  return spread(data, ok)


def dense(ctx, t, label="tensor"):
  """meaning of a block-sparse tensor as dense array, in its current shape"""
  if not isinstance(t, BlockSparseTensor):
    ctx.fail(label, f"{type(t).__name__} instead of a block-sparse tensor")
  if not t._charges:
    data = np.asarray(t.data)
    if data.size > 1:
      ctx.fail(label, "a scalar with several entries")
    return data.reshape(()) if data.size else np.zeros((), dtype=data.dtype)
  flat = [n for o in t._order for n in o]
  ctx.check(sorted(int(x) for x in flat) == list(range(len(t._charges))) and len(t._flows) == len(t._charges),
            label + ": every elementary leg occurs once")
  e = elementary(t)
  if e is None:
    ctx.fail(label + ": one entry is stored for every allowed element",
             f"{np.asarray(t.data).shape[0]} stored, {int(allowed(t._charges, list(t._flows)).sum())} allowed")
  shape = [int(np.prod([t._charges[n].dim for n in o])) for o in t._order]
  return e.transpose([int(x) for x in flat]).reshape(shape)


def is_dense(ctx, t, expected, label="result"):
  """t means `expected`, and its own conversion agrees"""
  d = dense(ctx, t, label)
  ctx.eq(d, expected, label)
  ctx.eq(np.asarray(t.todense()).reshape(d.shape), expected, label + ".todense")


def legs_of(t):
  """per axis the list of (charge rows, flow) of the elementary legs"""
  return [[(rows(t._charges[n]), bool(t._flows[n])) for n in o] for o in t._order]


def same_legs(a, b):
  if len(a) != len(b):
    return False
  for x, y in zip(a, b):
    if len(x) != len(y):
      return False
    for (r, f), (q, g) in zip(x, y):
      if f != g or len(r) != len(q) or not all(qarr.same(u, v) for s, t in zip(r, q) for u, v in zip(s, t)):
        return False
  return True
