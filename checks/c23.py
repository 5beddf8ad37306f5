"""C23: quantum operators, vectors and scalars represented by networks evaluate like dense linear algebra."""
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork.quantum import quantum as qu
from runner import Scenario
from tnlib import value, structure, hash_order, wellformed, data

BOUNDS = ("every program of up to two (thorough: three) operations (@ on either side, tensor product on either side, scalar multiplication by "
          "numbers, nodes and scalars, adjoint, trace, partial trace over every subset, norm, projector, reduced density) starting from and "
          "using operators, vectors and adjoint vectors on one and two subsystems of dimension 1 to 3, given by tensors (any axis order), by "
          "networks of two nodes, identities, swaps and Bell vectors; arbitrary complex entries; both orders of set iteration; NumPy backend")
OUTSIDE = "more than four subsystems in a result; contractors other than greedy, auto and branch; more than one ignored edge (their order is not specified)"
ASSUMPTIONS = []


class Q:
  """a quantum object with its dense value (axes: outputs, then inputs)"""

  def __init__(self, op, dense, nout):
    self.op, self.dense, self.nout = op, np.asarray(dense), nout

  @property
  def outs(self):
    return list(self.dense.shape[:self.nout])

  @property
  def ins(self):
    return list(self.dense.shape[self.nout:])


def eye(dims, ctx):
  n = len(dims)
  out = np.zeros(tuple(dims) * 2, dtype=object if ctx.symbolic else np.complex128)
  for i in np.ndindex(*dims):
    out[i + i] = 1
  return out


KINDS = ["A", "R", "I", "v", "C", "I2", "AI", "w", "bell", "net", "vd", "swap", "scalar", "thin"]


def make(ctx, kind, tag=""):
  t = lambda s: ctx.tensor(f"{kind}{tag}", s, True)
  dt = object if ctx.symbolic else np.complex128
  if kind == "A":
    a = t((2, 2))
    return Q(qu.QuOperator.from_tensor(a, [1], [0], backend="numpy"), a.T, 1)
  if kind == "R":
    a = t((3, 2))
    return Q(qu.QuOperator.from_tensor(a, [0], [1], backend="numpy"), a, 1)
  if kind == "thin":
    a = t((2, 1, 2))
    return Q(qu.QuOperator.from_tensor(a, [0], [1, 2], backend="numpy"), a, 1)
  if kind in ("I", "I2"):
    dims = (2,) if kind == "I" else (2, 2)
    return Q(qu.identity(dims, backend="numpy", dtype=dt), eye(dims, ctx), len(dims))
  if kind == "v":
    a = t((2,))
    return Q(qu.QuVector.from_tensor(a, backend="numpy"), a, 1)
  if kind == "vd":
    a = t((2,))
    return Q(qu.QuAdjointVector.from_tensor(a, backend="numpy"), a, 0)
  if kind == "w":
    a = t((3, 2))
    return Q(qu.QuVector.from_tensor(a, [1, 0], backend="numpy"), a.T, 2)
  if kind == "C":
    a = t((2, 2, 2, 2))
    return Q(qu.QuOperator.from_tensor(a, [2, 0], [1, 3], backend="numpy"), a.transpose([2, 0, 1, 3]), 2)
  if kind == "AI":
    a = t((2, 2))
    n, c = tn.Node(a, backend="numpy"), tn.CopyNode(2, 2, backend="numpy", dtype=dt)
    return Q(qu.QuOperator([n[0], c[0]], [n[1], c[1]]), np.multiply.outer(a, eye((2,), ctx)).transpose([0, 2, 1, 3]), 2)
  if kind == "swap":
    c, d = (tn.CopyNode(2, 2, backend="numpy", dtype=dt) for _ in range(2))
    return Q(qu.QuOperator([c[0], d[1]], [d[0], c[1]]), np.multiply.outer(eye((2,), ctx), eye((2,), ctx)).transpose([0, 2, 3, 1]), 2)
  if kind == "bell":
    c = tn.CopyNode(2, 2, backend="numpy", dtype=dt)
    return Q(qu.QuVector([c[1], c[0]]), eye((2,), ctx), 2)
  if kind == "net":
    a, b = t((2, 3)), ctx.tensor(f"{kind}{tag}b", (2, 3), True)
    m, n = tn.Node(a, backend="numpy"), tn.Node(b, backend="numpy")
    tn.connect(n[1], m[1])
    return Q(qu.QuOperator([m[0]], [n[0]], [n]), np.einsum("ik,jk->ij", a, b), 1)
  a = t(())
  return Q(qu.QuScalar.from_tensor(a, backend="numpy"), a, 0)


def snapshot(q):
  nodes = sorted(q.op.nodes, key=id)
  return (structure(nodes), [id(e) for e in q.op.out_edges], [id(e) for e in q.op.in_edges], {id(e) for e in q.op.ignore_edges},
          {id(n) for n in q.op.ref_nodes}, [(data(n), list(data(n).flat)) for n in nodes])


def same(ctx, q, snap, what):
  now = snapshot(q)
  ctx.check(now[:5] == snap[:5], f"{what}: network")
  ctx.check(all(len(a) == len(b) and all(x is y or repr(x) == repr(y) for x, y in zip(a, b))
                for (_, a), (_, b) in zip(now[5], snap[5])), f"{what}: tensors")


def matmul(a, b):
  k = len(a.ins)
  d = np.tensordot(a.dense, b.dense, (list(range(a.nout, a.nout + k)), list(range(k))))
  return Q(a.op @ b.op, np.asarray(d), a.nout)


def kron(ctx, x, y):
  n, m, p, q = x.nout, len(x.ins), y.nout, len(y.ins)
  d = np.multiply.outer(x.dense, y.dense)
  return np.asarray(d).transpose(list(range(n)) + list(range(n + m, n + m + p)) + list(range(n, n + m)) + list(range(n + m + p, n + m + p + q)))


def tensor(ctx, a, b):
  return Q(a.op.tensor_product(b.op), kron(ctx, a, b), a.nout + b.nout)


def conj(x):
  return np.conj(np.asarray(x))


def adjoint_dense(q):
  n = len(q.dense.shape)
  return conj(q.dense).transpose(list(range(q.nout, n)) + list(range(q.nout)))


def traced(q, which):
  n = q.nout
  lab = list(range(len(q.dense.shape)))
  for i in which:
    lab[n + i] = lab[i]
  out = [lab[i] for i in range(n) if i not in which] + [lab[n + i] for i in range(len(q.ins)) if i not in which]
  return np.asarray(np.einsum(q.dense, lab, out)), n - len(which)


def total2(q):
  r = list(range(len(q.dense.shape)))
  return np.asarray(np.einsum(conj(q.dense), r, q.dense, r, []))


def subsets(n):
  return [s for k in range(n + 1) for s in itertools.combinations(range(n), k)]


def steps(ctx, x, ys, limit):
  """the operations applicable to x: (name, function)"""
  out = []
  for y in ys:
    if x.ins == y.outs and x.nout + len(y.ins) <= limit:
      out.append((lambda x=x, y=y: matmul(x, y), (y,)))
    if y.ins == x.outs and y.nout + len(x.ins) <= limit:
      out.append((lambda x=x, y=y: matmul(y, x), (y,)))
    if len(x.dense.shape) + len(y.dense.shape) <= limit:
      out.append((lambda x=x, y=y: tensor(ctx, x, y), (y,)))
      out.append((lambda x=x, y=y: tensor(ctx, y, x), (y,)))
  if x.ins == x.outs and x.ins:
    out.append((lambda: Q(x.op.trace(), traced(x, range(x.nout))[0], 0), ()))
  if x.nout and x.ins:
    for s in subsets(min(len(x.ins), x.nout)):
      if all(x.ins[i] == x.outs[i] for i in s):
        out.append((lambda s=s: Q(x.op.partial_trace(ctx.choice("container", [list, set, tuple])(s)), *traced(x, s)), ()))
  out.append((lambda: Q(x.op.adjoint(), adjoint_dense(x), len(x.ins)), ()))
  out.append((lambda: Q(x.op.norm(), total2(x), 0), ()))
  if isinstance(x.op, (qu.QuVector, qu.QuAdjointVector)):
    k = len(x.dense.shape)
    vec = x.dense if isinstance(x.op, qu.QuVector) else conj(x.dense)
    p = np.multiply.outer(vec, conj(vec))
    if 2 * k <= limit:
      out.append((lambda: Q(x.op.projector(), p, k), ()))
    for s in subsets(k):
      if 2 * (k - len(s)) <= limit:
        out.append((lambda s=s: Q(x.op.reduced_density(list(s)), *traced(Q(None, p, k), s)), ()))
  out.append((lambda: scaled(ctx, x), ()))
  return out


def scaled(ctx, x):
  how = ctx.choice("scalar", ["number", "array", "node", "QuScalar", "left number", "left QuScalar"])
  if how in ("number", "left number"):
    c = 2 if not ctx.symbolic else 2
    return Q(x.op * c if how == "number" else c * x.op, x.dense * c, x.nout)
  c = ctx.tensor("factor", (), True)
  if how == "array":
    op = x.op * c
  elif how == "node":
    op = x.op * tn.Node(c, backend="numpy")
  else:
    s = qu.QuScalar.from_tensor(c, backend="numpy")
    op = x.op * s if how == "QuScalar" else s * x.op
  return Q(op, np.asarray(x.dense * c[()]).reshape(x.dense.shape), x.nout)


def right_kind(ctx, q):
  ins, outs = q.ins, q.outs
  want = qu.QuOperator if ins and outs else qu.QuVector if outs else qu.QuAdjointVector if ins else qu.QuScalar
  ctx.check(type(q.op) is want, "type of the result")
  ctx.check(list(q.op.out_space) == outs and list(q.op.in_space) == ins, "spaces of the result")
  if type(q.op) in (qu.QuVector, qu.QuAdjointVector):
    ctx.check(list(q.op.space) == outs + ins and list(q.op.subsystem_edges) == list(q.op.out_edges) + list(q.op.in_edges), "space of the vector")
  ctx.check((q.op.is_scalar(), q.op.is_vector(), q.op.is_adjoint_vector()) == (not ins and not outs, bool(outs) and not ins, bool(ins) and not outs), "is_...")


def evaluate(ctx, q, ways=("eval", "contract, eval", "other order")):
  how = ctx.choice("evaluation", list(ways))
  want = q.dense
  nodes = list(q.op.nodes)
  wellformed(ctx, nodes, "result")
  n = len(want.shape)
  if how == "contract, eval":
    r = q.op.contract()
    ctx.check(r is q.op, "contract returns the operator")
    ctx.check(len(q.op.nodes) == 1, "one node")
  if how == "other order":
    if n < 2:
      return
    es = (list(q.op.out_edges) + list(q.op.in_edges))[::-1]
    contractor = ctx.choice("contractor", [tn.contractors.auto, tn.contractors.branch])
    r = q.op.eval(contractor, final_edge_order=es)
    ctx.eq(np.asarray(r), want.transpose(list(range(n))[::-1]), "value, given order")
  r = q.op.eval()
  ctx.eq(np.asarray(r), want, "value")
  right_kind(ctx, q)
  wellformed(ctx, list(q.op.nodes), "evaluated")
  # evaluating again gives the same
  ctx.eq(np.asarray(q.op.eval()), want, "second evaluation")


def program(ctx, start, depth, pool, limit, quick=False):
  with hash_order(ctx):
    x = make(ctx, start)
    used = [x]
    for d in range(depth):
      ys = [make(ctx, k, f"_{d}") for k in pool] + [x]
      opts = steps(ctx, x, ys, limit)
      f, ops = opts[ctx.pick(f"operation {d}", 0, len(opts) - 1)]
      snaps = [(o, snapshot(o)) for o in used + list(ops)]
      r = f()
      right_kind(ctx, r)
      for o, s in snaps:
        same(ctx, o, s, "operand")
      used += [r] + list(ops)
      x = r
    snaps = [(o, snapshot(o)) for o in used if o is not x]
    evaluate(ctx, x, *([("eval",)] if quick else []))
    for o, s in snaps:
      same(ctx, o, s, "operand of an evaluated result")


def mismatch(ctx):
  with hash_order(ctx):
    kinds = ["A", "R", "C", "v", "w", "vd", "thin", "I2", "AI"]
    x, y = make(ctx, ctx.choice("left", kinds), "l"), make(ctx, ctx.choice("right", kinds), "r")
    sx, sy = snapshot(x), snapshot(y)
    if x.ins != y.outs:
      ctx.raises(ValueError, lambda: x.op @ y.op, "spaces do not match")
    bad = [i for i in range(min(len(x.ins), len(x.outs))) if x.ins[i] != x.outs[i]]
    for i in bad:
      ctx.raises(ValueError, lambda: x.op.partial_trace([i]), "traced spaces do not match")
    ctx.raises(ValueError, lambda: x.op * y.op, "not a scalar")
    ctx.raises(ValueError, lambda: x.op * ctx.tensor("m", (2,), True), "not a scalar")
    same(ctx, x, sx, "left operand")
    same(ctx, y, sy, "right operand")


def construction(ctx):
  """consistency of the given edges"""
  with hash_order(ctx):
    a, b = ctx.tensor("a", (2, 3, 2), True), ctx.tensor("b", (3, 2), True)
    m, n = tn.Node(a, backend="numpy"), tn.Node(b, backend="numpy")
    e = tn.connect(m[1], n[0])
    free = [m[0], m[2], n[1]]
    where = [ctx.choice(f"edge {i}", ["out", "in", "ignored", "missing"]) for i in range(3)]
    outs, ins, ign = ([f for f, w in zip(free, where) if w == k] for k in ("out", "in", "ignored"))
    rev = ctx.choice("reversed", [False, True])
    if rev:
      outs = outs[::-1]
    refs = ctx.choice("reference nodes", [None, [m], [m, n]])
    f = lambda: qu.quantum_constructor(outs, ins, refs, ign)
    st = structure([m, n])
    if "missing" in where or not outs and not ins and not refs:
      ctx.raises(ValueError, f, "unexpected dangling edges")
      ctx.check(structure([m, n]) == st, "unchanged")
      return
    ctx.raises(ValueError, lambda: qu.quantum_constructor(outs + [e], ins, refs, ign), "not dangling")
    ctx.raises(ValueError, lambda: qu.quantum_constructor(outs, ins + [e], refs, ign), "not dangling")
    ctx.raises(ValueError, lambda: qu.quantum_constructor(outs, ins, refs, ign + [e]), "not dangling")
    ctx.check(structure([m, n]) == st, "unchanged")
    op = f()
    want = np.einsum("ikj,kl->ijl", a, b)
    pos = {id(x): i for i, x in enumerate(free)}
    order = [pos[id(x)] for x in outs + ins]
    if len(ign) > 1:
      return
    full = [pos[id(x)] for x in ign] + order
    q = Q(op, want.transpose(order + [pos[id(x)] for x in ign]), len(outs))
    ctx.check(list(op.out_space) == [want.shape[pos[id(x)]] for x in outs], "out space")
    snap = snapshot(q)
    adj = op.adjoint()
    ctx.check(list(adj.in_space) == list(op.out_space) and list(adj.out_space) == list(op.in_space), "adjoint space")
    same(ctx, q, snap, "operand of adjoint")
    ctx.eq(np.asarray(adj.eval()), conj(want).transpose([pos[id(x)] for x in ign + ins + outs]), "adjoint with ignored edges")
    v = make(ctx, "v")
    tp, v = op.tensor_product(v.op), v.dense
    k = len(full)
    ctx.eq(np.asarray(tp.eval()), np.multiply.outer(want.transpose(full), v).transpose(
        list(range(len(ign) + len(outs))) + [k] + list(range(len(ign) + len(outs), k))), "tensor product with ignored edges")
    same(ctx, q, snap, "operand of the tensor product")
    ctx.eq(np.asarray(op.eval()), want.transpose(full), "ignored, output, input")


def identities(ctx):
  """chains and products of identities on their own"""
  with hash_order(ctx):
    dims = ctx.choice("space", [(2,), (1,), (2, 3)])
    dt = object if ctx.symbolic else np.complex128
    I = Q(qu.identity(dims, backend="numpy", dtype=dt), eye(dims, ctx), len(dims))
    x = I
    for k in range(ctx.pick("length", 1, 3)):
      x = matmul(x, I) if ctx.choice(f"side {k}", [False, True]) else matmul(I, x)
    end = ctx.choice("end", ["", "trace", "adjoint", "norm", "partial", "apply", "bell"])
    n = len(dims)
    if end == "trace":
      x = Q(x.op.trace(), traced(x, range(n))[0], 0)
    elif end == "adjoint":
      x = Q(x.op.adjoint(), adjoint_dense(x), n)
    elif end == "norm":
      x = Q(x.op.norm(), total2(x), 0)
    elif end == "partial":
      x = Q(x.op.partial_trace([n - 1]), *traced(x, [n - 1]))
    elif end == "apply":
      v = ctx.tensor("v", dims, True)
      x = matmul(x, Q(qu.QuVector.from_tensor(v, backend="numpy"), v, n))
    elif end == "bell":
      if dims != (2,):
        return
      x = matmul(tensor(ctx, x, I), make(ctx, "bell"))
    evaluate(ctx, x)


def scenarios(tier):
  th = tier == "thorough"
  out = [Scenario("spaces that do not match", mismatch), Scenario("construction", construction), Scenario("identities", identities)]
  pool = ["A", "I", "v", "bell", "swap"]
  big = ["A", "R", "I", "v", "C", "I2", "AI", "w", "bell", "net", "vd", "swap", "scalar", "thin"]
  for k in KINDS:
    out.append(Scenario(f"one operation {k}", program, k, 1, big, 6))
    out.append(Scenario(f"two operations {k}", program, k, 2, pool, 4, not th))
    if th:
      out.append(Scenario(f"two operations, all operands {k}", program, k, 2, big, 5))
      out.append(Scenario(f"three operations {k}", program, k, 3, ["A", "I", "bell"], 4))
  return out
