"""C14: block bookkeeping of block-sparse tensors."""
import itertools
import numpy as np
from runner import Scenario
import qarr
from bslib import World, allowed, rows, mods, dense, is_dense, zero
from tensornetwork.block_sparse import charge as ch
from tensornetwork.block_sparse import blocksparse_utils as bu
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor

BOUNDS = ("tensors of one to four legs with one to three entries per leg; U(1) charges are arbitrary 16-bit integers whose sums stay "
          "in range, given by shared symbols (so equal, opposite and distinct charges are all covered), Z2/Z3/Z4 charges all residues; one to "
          "three symmetries; every order of the legs, every bipartition, flow patterns as listed (all in the thorough tier), raw and "
          "compressed charges; stored entries symbolic; the branch for more than 20000 combinations with fixed repetition patterns")
OUTSIDE = "legs with more distinct charges than listed; charges beyond 16 bits; the C code of numpy; an int16 overflow of charge labels"
ASSUMPTIONS = []


def fuse(charges, flows):
  """[(index tuple, fused charge)] in row-major order"""
  rs, ms = [rows(c) for c in charges], mods(charges[0])
  out = []
  for idx in np.ndindex(*[len(r) for r in rs]):
    v = []
    for k, m in enumerate(ms):
      s = 0
      for r, f, i in zip(rs, flows, idx):
        s = s - r[i][k] if f else s + r[i][k]
      v.append(int(s) % m if m else s)
    out.append((idx, tuple(v)))
  return out


def eqv(a, b, ms):
  return all(zero(x - y, m) for x, y, m in zip(a, b, ms))


def find(vals, v, ms):
  for i, u in enumerate(vals):
    if eqv(u, v, ms):
      return i
  return None


def neg(flows):
  return [not f for f in flows]


def blocks(ctx, types, specs, flows, rep="raw"):
  """_find_(transposed_)diagonal_sparse_blocks against enumeration, every leg order and bipartition"""
  with qarr.on(ctx):
    w = World(ctx, types)
    n = len(specs)
    charges = [w.charge(s, rep) for s in specs]
    ms = mods(charges[0])
    ok = allowed(charges, flows)
    position = -np.ones(ok.shape, dtype=int)
    position[ok] = np.arange(ok.sum())
    k = bu.compute_num_nonzero(charges, flows)
    ctx.check(int(k) == int(ok.sum()), "number of stored entries is the number of allowed ones")
    for order in itertools.permutations(range(n)):
      for part in range(n + 1):
        order = list(order)
        if order == list(range(n)):
          r = bu._find_diagonal_sparse_blocks(charges, np.array(flows), part)
          block_map(ctx, r, charges, flows, order, part, position, ms)
        r = bu._find_transposed_diagonal_sparse_blocks(charges, np.array(flows), part, order)
        block_map(ctx, r, charges, flows, order, part, position, ms)


def block_map(ctx, result, charges, flows, order, part, position, ms):
  maps, q, dims = result
  where = f" (order {order}, {part} row legs)"
  tr = position.transpose(order)
  shape = tr.shape
  tr = tr.reshape(int(np.prod(shape[:part])), int(np.prod(shape[part:])))
  rc, cc = [charges[o] for o in order[:part]], [charges[o] for o in order[part:]]
  rf, cf = [flows[o] for o in order[:part]], [flows[o] for o in order[part:]]
  one = tuple(0 for _ in ms)
  rq = [v for _, v in fuse(rc, rf)] if rc else [one]
  cq = [v for _, v in fuse(cc, neg(cf))] if cc else [one]
  seen = []
  qs = rows(q)
  ctx.check(len(maps) == len(qs) and np.asarray(dims).shape == (2, len(qs)), "one charge and one shape for every block" + where)
  for m, v, (a, b) in zip(maps, qs, np.asarray(dims).T):
    ctx.check(find(seen, v, ms) is None, "blocks have different charges" + where)
    seen.append(v)
    ri = [i for i, u in enumerate(rq) if eqv(u, v, ms)]
    ci = [i for i, u in enumerate(cq) if eqv(u, v, ms)]
    want = tr[np.ix_(ri, ci)]
    if want.size == 0:
      ctx.check(np.asarray(m).size == 0, "a block without entries is empty" + where)
      continue
    ctx.check((int(a), int(b)) == want.shape, "shape of a block" + where)
    ctx.check(np.array_equal(np.asarray(m).astype(int).reshape(-1), want.reshape(-1)),
              "entries of a block sit at their row and column" + where)
  total = sum(np.asarray(m).size for m in maps)
  ctx.check(total == int((position >= 0).sum()), "the blocks contain every stored entry once" + where)


def reduce(ctx, types, specs, flows, target, strides=False, rep="raw"):
  with qarr.on(ctx):
    w = World(ctx, types)
    charges = [w.charge(s, rep) for s in specs]
    ms = mods(charges[0])
    tv = []
    for v in w.values(target):
      if find(tv, v, ms) is None:
        tv.append(v)
    dims = [len(c) for c in charges]
    full = [int(np.prod(dims[i + 1:])) for i in range(len(dims))]
    fused = fuse(charges, flows)
    keep = [(i, v) for i, v in fused if find(tv, v, ms) is not None]
    for p in [None] + (list(itertools.permutations(full)) if strides else []):
      st = None if p is None else np.array(p, dtype=np.uint32)
      reduced(ctx, charges, flows, w.array(tv), st, full, keep, ms)


def reduced(ctx, charges, flows, target, st, full, keep, ms):
  got, locs = bu.reduce_charges(charges, flows, target, return_locations=True, strides=st)
  ctx.check(len(got) == len(keep) and len(locs) == len(keep), "kept charges")
  full = st if st is not None else full
  for (i, v), g, l in zip(keep, rows(got), locs):
    ctx.check(eqv(v, g, ms), "value of a kept charge")
    ctx.check(int(l) == sum(int(a) * int(b) for a, b in zip(i, full)), "location of a kept charge")
  again = bu.reduce_charges(charges, flows, target, strides=st)
  ctx.check(len(again) == len(keep) and all(eqv(v, g, ms) for (_, v), g in zip(keep, rows(again))), "without locations")


def degeneracies(ctx, types, specs, flows, rep="raw"):
  with qarr.on(ctx):
    w = World(ctx, types)
    charges = [w.charge(s, rep) for s in specs]
    ms = mods(charges[0])
    fused = [v for _, v in fuse(charges, flows)]
    vals, count = [], []
    for v in fused:
      i = find(vals, v, ms)
      if i is None:
        vals.append(v)
        count.append(1)
      else:
        count[i] += 1
    u, d = bu.compute_fused_charge_degeneracies(charges, flows)
    u2 = bu.compute_unique_fused_charges(charges, flows)
    ctx.check(len(u) == len(vals) and len(u2) == len(vals), "as many fused charges as different sums")
    for x, k in zip(rows(u), d):
      i = find(vals, x, ms)
      ctx.check(i is not None and int(k) == count[i], "degeneracy of a fused charge")
    for x in rows(u2):
      ctx.check(find(vals, x, ms) is not None, "fused charge")
    ctx.check(all(find(rows(u2)[:i], x, ms) is None for i, x in enumerate(rows(u2))), "fused charges are unique")
    t = ctx.pick("target", 0, len(vals) - 1)
    tc = charges[0].__new__(type(charges[0]))
    tc.__init__(w.array([vals[t]]), charge_types=charges[0].charge_types)
    lookup, uq, labels = bu.compute_sparse_lookup(charges, flows, tc)
    uq = rows(uq)
    ctx.check(len(labels) == 1 and eqv(uq[int(labels[0])], vals[t], ms), "label of the target charge")
    ctx.check([int(x) for x in lookup] == [int(labels[0])] * count[t], "lookup lists the positions with the target charge")


def large(ctx, flows):
  """more than 20000 fused charges"""
  with qarr.on(ctx):
    w = World(ctx, "U1")
    q = [[w.value(e, 0) for e in s.split(",")] for s in ("x,0", "0,y")]
    m = 145
    lab = [np.array([(i * 7) % 10 < 4 for i in range(m)], dtype=np.int16), np.array([i % 3 == 0 for i in range(m)], dtype=np.int16)]
    cs = [ch.U1Charge(w.array([(v,) for v in vals])[:, 0], charge_labels=l) for vals, l in zip(q, lab)]
    n = [np.bincount(l, minlength=2) for l in lab]
    vals, count = [], []
    for i in range(2):
      for j in range(2):
        v = (0 - q[0][i] if flows[0] else q[0][i]) + (0 - q[1][j] if flows[1] else q[1][j])
        k = find(vals, (v,), [0])
        if k is None:
          vals.append((v,))
          count.append(0)
          k = len(vals) - 1
        count[k] += int(n[0][i] * n[1][j])
    u, d = bu.compute_fused_charge_degeneracies(cs, flows)
    ctx.check(len(u) == len(vals), "as many fused charges as different sums")
    for x, k in zip(rows(u), d):
      i = find(vals, x, [0])
      ctx.check(i is not None and int(k) == count[i], "degeneracy of a fused charge")


def layout(ctx, types, specs, flows, rep="raw", cplx=False):
  """contiguous, transpose and todense place every entry"""
  with qarr.on(ctx):
    w = World(ctx, types)
    t, d = w.tensor("d", specs, flows, rep=rep, cplx=cplx)
    BlockSparseTensor(t.data, t._charges, flows, check_consistency=True)
    for order in itertools.permutations(range(len(specs))):
      placed(ctx, t, d, list(order))


def placed(ctx, t, d, order):
  r = t.transpose(order).contiguous()
  ctx.check([list(map(int, o)) for o in r._order] == [[i] for i in range(len(order))], "contiguous storage order")
  is_dense(ctx, r, d.transpose(order), "contiguous")
  is_dense(ctx, t, d, "unchanged")


F, T = False, True


SHAPES = [
    ("U1", ["a,b", "c,d"], "raw"),
    ("U1", ["a,b", "c,d"], "labels"),
    ("U1", ["a,0,b", "0,c"], "raw"),
    ("U1", ["a,b,a", "b,a,c"], "labels"),
    ("U1", ["a", "b,c"], "raw"),
    ("U1", ["a,b"], "raw"),
    ("U1", ["a,a,b"], "labels"),
    ("U1", ["a,0", "b,0", "a,1"], "raw"),
    ("U1", ["a,0", "b", "a,c"], "raw"),
    ("U1", ["a", "b,0", "c,1"], "labels"),
    ("U1", ["a,b", "a,b", "a,b"], "raw"),
    ("U1", ["0,a", "0,b", "0,a,b"], "labels"),
    ("U1", ["0,a", "0,a", "0,b", "0,b"], "raw"),
    ("U1", ["0,1", "a,b", "b", "0,1"], "raw"),
    ("Z2", ["a,b", "c,d"], "raw"),
    ("Z2", ["a,b", "c,0", "0,d"], "labels"),
    ("Z3", ["a,b", "c,0", "1,d"], "raw"),
    ("Z4", ["a,b", "c,0"], "raw"),
    ("U1.U1", ["a,b;c,0", "a,0;0,d"], "raw"),
    ("U1.U1", ["a,0;b,0", "a,0;0,1", "a,1;0,b"], "labels"),
    ("U1.Z2", ["a,b;c,0", "a,0;0,d"], "raw"),
    ("U1.Z2", ["a,0;1,0", "0,b;0,1", "a,1;0,d"], "raw"),
    ("U1.U1.U1", ["a,b;c,0;0,1", "a,0;0,d;0,1"], "raw"),
    ("U1.Z2.U1", ["a,0;c,0;0,b", "b,0;0,d;a,1"], "labels"),
    ("U1.U1.U1.U1", ["a,b;c,0;0,1;0,0", "a,0;0,c;0,1;1,1"], "raw"),
    ("U1.U1.U1.Z2.U1", ["a,b;c,0;0,1;0,0;a,0", "a,0;0,c;0,1;1,1;0,a"], "raw"),
]

DEEP = [
    ("U1", ["a,b,c", "0,d"], "raw"),
    ("U1", ["a,0", "b,0", "a,c"], "raw"),
    ("U1", ["a,b", "c,d", "0,e"], "raw"),
    ("U1", ["a,b,c", "d,e,0"], "raw"),
    ("U1", ["0,a", "0,b", "0,c", "a,b"], "labels"),
    ("U1", ["0,a", "b,0", "0,a", "b,0", "0,1"], "raw"),
    ("U1", ["a,b,0", "a,b,0", "a,1"], "raw"),
    ("Z3", ["a,b", "c,d", "e,0"], "raw"),
    ("Z2", ["a,b", "c,d", "e,f"], "raw"),
    ("U1.U1", ["a,b;c,d", "a,0;c,0"], "raw"),
    ("U1.Z2", ["a,b;c,d", "a,0;e,f"], "labels"),
]


def flow_patterns(n):
  """one pattern per choice up to global reversal"""
  return [[bool(m >> i & 1) for i in range(n)] for m in range(1 << n)]


def scenarios(tier):
  out = []

  def add(name, fn, *a, tier="quick", **k):
    out.append(Scenario(name, fn, *a, tier=tier, **k))

  for deep, shapes in ((False, SHAPES), (True, DEEP)):
    t = "thorough" if deep else "quick"
    for j, (types, specs, rep) in enumerate(shapes):
      n = len(specs)
      for i, f in enumerate(flow_patterns(n)):
        # every flow pattern in the thorough tier, one or two per shape otherwise
        q = t if i in (1 << (j % n), (1 << n) - 2 if j % 2 else 0) else "thorough"
        fl = "".join("-" if x else "+" for x in f)
        tag = f"{types} {' | '.join(specs)} {fl} {rep}"
        add(f"blocks {tag}", blocks, types, specs, f, rep, tier=q)
        add(f"layout {tag}", layout, types, specs, f, rep, tier=q, cplx=j % 2 == 1)
        add(f"degeneracies {tag}", degeneracies, types, specs, f, rep, tier=q)
  for types, specs, target in [("U1", ["a,b"], "c,d"), ("U1", ["a,b", "c,0"], "d,1"), ("U1", ["a,0", "b,0"], "0,a"),
                               ("U1", ["a,0", "b,0", "1,b"], "c"), ("U1", ["a,b,a"], "a,c"), ("Z3", ["a,b", "c,1"], "d,0"),
                               ("Z2", ["a,b", "c,1", "0,d"], "0"), ("U1.U1", ["a,b;0,c", "0,1;c,0"], "a,0;0,c"),
                               ("U1.Z2", ["a,b;0,c", "0,1;c,0"], "a,0;0,d"),
                               ("U1.U1.U1", ["a,b;0,c;0,1", "0,1;c,0;0,0"], "a,0;0,c;0,1")]:
    for rep in ("raw", "labels"):
      f = [i % 2 == 1 for i in range(len(specs))]
      add(f"reduce_charges {types} {' | '.join(specs)} to {target} {rep}", reduce, types, specs, f, target, strides=True, rep=rep)
  for f in ([F, F], [F, T]):
    add(f"degeneracies of more than 20000 combinations {f}", large, f)
  return [s for s in out if tier == "thorough" or s.tier == "quick"]
