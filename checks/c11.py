"""C11: path solvers return valid orders and the claimed cost."""
import os
import numpy as np
from runner import Scenario
import logdim
from sym import S
from tensornetwork.contractors.custom_path_solvers import pathsolvers, nconinterface

BOUNDS = ("networks of two to five tensors (chains, rings, trees, complete graphs, parallel edges, partial traces, open legs, disconnected parts), "
          "every dimension an arbitrary real number that is 1 or from 1.25 to 64 (dimensions are symbols; some larger networks share symbols or fix "
          "dimensions), max_branch None, 1, 2 and 3")
OUTSIDE = ("outer products of tensors while others are still connected: the full solver never tries them, so optimality is judged among the orders "
           "without; dimensions whose products differ by less than a factor 1.00001; rounding of logarithms; 64 or more tensors")
ASSUMPTIONS = ["numpy's log10, power and sums of logarithms are exact (lib/logdim.py computes log10(P/Q) with polynomials P and Q)"]
QUICK = os.environ.get("VERIF_TIER", "quick") == "quick"


class T:
  """all the solvers look at is the shape"""

  def __init__(self, shape):
    self.shape = tuple(shape)


def setup(ctx, net):
  """net: list of {label: dimension} given as strings like '1:a,-1:b,2:3'"""
  dims, labels, shapes = {}, [], []
  w = logdim.World(ctx) if ctx.symbolic else None
  for spec in net:
    ls, sh = [], []
    for part in spec.split(","):
      l, d = part.split(":")
      if d not in dims:
        if d.isdigit():
          dims[d] = S.lift(int(d)) if ctx.symbolic else int(d)
        else:
          x = w.dim(d, d.endswith("1")) if w else logdim.concrete(ctx, d, d.endswith("1"))
          dims[d] = x
      ls.append(int(l))
      sh.append(dims[d])
    labels.append(ls)
    shapes.append(sh)
  return [T(s) for s in shapes], labels


def trivial(x):
  if isinstance(x, S):
    return not logdim.less(logdim.L(S.lift(1)), logdim.L(x))
  return not bool(x > 1)


def mul(xs):
  r = 1
  for x in xs:
    r = x * r
  return r


class Model:
  """a partially contracted network: groups of tensors with the closed dimensions between them"""

  def __init__(self, tensors, labels):
    self.n = len(tensors)
    where = {}
    for i, (t, ls) in enumerate(zip(tensors, labels)):
      for l, d in zip(ls, t.shape):
        where.setdefault(l, []).append((i, d))
    self.edges = {}
    self.open = [1] * self.n
    for l, w in where.items():
      if len(w) == 1:
        self.open[w[0][0]] = w[0][1] * self.open[w[0][0]]
      elif w[0][0] != w[1][0]:
        k = tuple(sorted((w[0][0], w[1][0])))
        self.edges[k] = w[0][1] * self.edges.get(k, 1)

  def start(self):
    return tuple(frozenset([i]) for i in range(self.n))

  def between(self, a, b):
    return mul(d for (i, j), d in self.edges.items() if (i in a and j in b) or (i in b and j in a))

  def size(self, a):
    return mul([self.open[i] for i in a] + [d for (i, j), d in self.edges.items() if (i in a) != (j in a)])

  def cost(self, a, b):
    """multiplications: the product of all dimensions involved"""
    return mul([self.open[i] for i in a | b] + [d for (i, j), d in self.edges.items() if ((i in a) != (j in a)) or ((i in b) != (j in b))])

  def follow(self, ctx, order, label):
    """cost of an order as the solvers give it"""
    state = list(self.start())
    total = 0
    outer = False
    order = np.asarray(order)
    ctx.check(order.shape == (2, self.n - 1), label + ": one contraction less than tensors")
    for a, b in order.T:
      a, b = int(a), int(b)
      ctx.check(0 <= a < len(state) and 0 <= b < len(state) and a != b, label + ": positions of two tensors")
      ctx.check(a < b, label + ": the result takes the place of the first")
      if trivial(self.between(state[a], state[b])):
        if any(not trivial(self.between(x, y)) for i, x in enumerate(state) for y in state[:i]):
          outer = True
      total = total + self.cost(state[a], state[b])
      state[a] = state[a] | state[b]
      del state[b]
    return total, outer

  def alternatives(self):
    """costs of all pairwise orders that only take outer products when nothing is connected"""
    seen = {}

    def go(state):
      if len(state) == 1:
        return [()]
      key = frozenset(state)
      if key in seen:
        return seen[key]
      pairs = [(x, y) for i, x in enumerate(state) for y in state[:i]]
      good = [p for p in pairs if not trivial(self.between(*p))] or pairs
      out = set()
      for x, y in good:
        rest = tuple(z for z in state if z not in (x, y)) + (x | y,)
        for tail in go(rest):
          out.add(tuple(sorted([tuple(sorted((tuple(sorted(x)), tuple(sorted(y)))))] + list(tail))))
      seen[key] = sorted(out)
      return seen[key]

    return [mul_sum([self.cost(frozenset(x), frozenset(y)) for x, y in o]) for o in go(self.start())]


def mul_sum(xs):
  r = 0
  for x in xs:
    r = r + x
  return r


def is_log(ctx, l, value, label, unique=True):
  """l is the decadic logarithm of value; unique: rounding cannot lead to another one"""
  if not unique:
    if ctx.symbolic:
      ctx.check(logdim.equal(logdim.lift(l), logdim.L(S.lift(value))), label)
    else:
      ctx.check(abs(float(l) - np.log10(float(value))) < 1e-6, label)
    return
  if ctx.symbolic:
    l = logdim.lift(l)
    if l.d.is_const() and (l.n - S.lift(value) * l.d).t == {}:
      ctx.eq(l.n, S.lift(value) * l.d, label)
    else:
      ctx.check(logdim.equal(l, logdim.L(S.lift(value))), label)
  else:
    ctx.eq(np.array(10**float(l)), np.array(float(value)), label)


def at_most(ctx, l, value, label):
  if ctx.symbolic:
    l = logdim.lift(l)
    ctx.check(logdim.less(l, logdim.L(S.lift(value)), strict=False), label)
  else:
    ctx.check(float(l) <= np.log10(float(value)) + 1e-6, label)


def adjacency(ctx, m, label, adj):
  ctx.check(np.asarray(adj).shape == (m.n, m.n), label)
  for i in range(m.n):
    for j in range(m.n):
      is_log(ctx, adj[i, j], m.open[i] if i == j else m.edges.get((min(i, j), max(i, j)), 1), f"{label}: entry")


def copy(ctx, adj):
  return adj.copy()


def greedy(ctx, net):
  with logdim.on(ctx, pathsolvers, nconinterface):
    ts, labels = setup(ctx, net)
    m = Model(ts, labels)
    adj = nconinterface.ncon_to_adj(ts, labels)
    adjacency(ctx, m, "adjacency", adj)
    for name in ("greedy_size_solve", "greedy_cost_solve"):
      order, cost = getattr(pathsolvers, name)(adj)
      total, _ = m.follow(ctx, order, name)
      is_log(ctx, cost, total, name + ": cost of the order", unique=False)
    adjacency(ctx, m, "input unchanged", adj)


def full(ctx, net, branch, how="full"):
  with logdim.on(ctx, pathsolvers, nconinterface):
    ts, labels = setup(ctx, net)
    m = Model(ts, labels)
    adj = nconinterface.ncon_to_adj(ts, labels)
    order, cost, best = pathsolvers.full_solve_complete(adj, max_branch=branch)
    total, outer = m.follow(ctx, order, "order")
    is_log(ctx, cost, total, "cost of the order", unique=branch is None and bool(best))
    adjacency(ctx, m, "input unchanged", adj)
    if best or branch is None:
      for c in m.alternatives():
        at_most(ctx, cost, c, "no other order is cheaper")
    con = nconinterface.ord_to_ncon(labels, np.asarray(order))
    valid(ctx, m, labels, con, order)
    if not outer:
      check = nconinterface.ncon_cost_check(ts, labels, con)
      is_log(ctx, check, total, "ncon_cost_check", unique=False)


def valid(ctx, m, labels, con, order):
  """every closed label once: traces first, then the labels between the two tensors of each step"""
  con = [int(x) for x in con]
  closed = [l for l in {l for ls in labels for l in ls} if sum(ls.count(l) for ls in labels) == 2]
  ctx.check(sorted(con) == sorted(closed), "every closed label once")
  groups = [sorted(l for l in set(ls) if ls.count(l) == 2) for ls in labels]
  groups = [g for g in groups if g]
  rest = con
  for g in groups:
    ctx.check(set(rest[:len(g)]) <= {x for h in groups for x in h}, "partial traces first")
    rest = rest[len(g):]
  state = [set(ls) - {l for l in ls if ls.count(l) == 2} for ls in labels]
  for a, b in np.asarray(order).T:
    a, b = int(a), int(b)
    common = state[a] & state[b]
    ctx.check(set(rest[:len(common)]) == common, "labels in the order of the contractions")
    rest = rest[len(common):]
    state[a] = state[a] ^ state[b]
    del state[b]
  ctx.check(not rest, "nothing else")


def solver(ctx, net, branch):
  with logdim.on(ctx, pathsolvers, nconinterface):
    ts, labels = setup(ctx, net)
    m = Model(ts, labels)
    keep = [list(l) for l in labels]
    con, cost, best = nconinterface.ncon_solver(ts, labels, max_branch=branch)
    con = [int(x) for x in con]
    ctx.check(labels == keep, "labels unchanged")
    closed = [l for l in {l for ls in labels for l in ls} if sum(ls.count(l) for ls in labels) == 2]
    ctx.check(sorted(con) == sorted(closed), "every closed label once")
    if best or branch is None:
      for c in m.alternatives():
        at_most(ctx, cost, c, "no other order is cheaper")


def price(ctx, net, orders):
  """ncon_cost_check of given orders against the cost of the contractions they mean"""
  with logdim.on(ctx, pathsolvers, nconinterface):
    ts, labels = setup(ctx, net)
    m = Model(ts, labels)
    for con in orders:
      got = nconinterface.ncon_cost_check(ts, labels, con)
      state = list(m.start())
      total = 0
      lab = [set(ls) - {l for l in ls if ls.count(l) == 2} for ls in labels]
      for l in con if con is not None else sorted(l for l in {l for ls in labels for l in ls} if l > 0):
        at = [i for i, s in enumerate(lab) if l in s]
        if len(at) != 2:
          continue
        i, j = at
        total = total + m.cost(state[i], state[j])
        state[i], lab[i] = state[i] | state[j], lab[i] ^ lab[j]
        del state[j], lab[j]
      if len(state) == 2:
        total = total + m.cost(*state)
      elif len(state) == 3:
        s = sorted([(m.size(x), x) for x in state], key=_Key)
        total = total + s[0][0] * s[1][0] + s[0][0] * s[1][0] * s[2][0]
      is_log(ctx, got, total, "cost")


class _Key:

  def __init__(self, p):
    self.v = p[0]

  def __lt__(self, o):
    if isinstance(self.v, S) or isinstance(o.v, S):
      return logdim.less(logdim.L(S.lift(self.v)), logdim.L(S.lift(o.v)))
    return self.v < o.v


NETS = {
    "pair": ["1:a1,-1:b1", "1:a1,-2:c1"],
    "matrix chain": ["-1:a,1:b", "1:b,2:a", "2:a,-2:3"],
    "chain with ones": ["-1:2,1:a1", "1:a1,2:b1", "2:b1,-2:3"],
    "triangle": ["1:a,2:b,-1:2", "2:b,3:4,-2:3", "3:4,1:a,-3:2"],
    "triangle with ones": ["1:a1,2:b1", "2:b1,3:3", "3:3,1:a1,-1:2"],
    "trace": ["1:a,1:a,2:b,-1:2", "2:b,3:a,4:2", "3:a,4:2,5:b,5:b"],
    "parallel": ["1:a,2:b,-1:2", "1:a,2:b,3:4", "3:4,-2:a"],
    "apart": ["-1:a,1:b", "1:b", "-2:c"],
    "two and two": ["1:a,-1:2", "1:a", "2:b,-2:3", "2:b"],
    "three apart": ["-1:a", "-2:b", "-3:c"],
    "vector chain": ["1:a", "1:a,2:b", "2:b,3:4", "3:4"],
    "chain 4": ["-1:2,1:a", "1:a,2:b", "2:b,3:a", "3:a,-2:2"],
    "square": ["1:a,4:a,-1:2", "1:a,2:3,-2:2", "2:3,3:5,-3:2", "3:5,4:a,-4:3"],
    "star": ["1:a,2:b,3:4", "1:a,-1:2", "2:b,-2:2", "3:4,-3:2"],
    "complete 4": ["1:a,2:a,3:b", "1:a,4:b,5:a", "2:a,4:b,6:b", "3:b,5:a,6:b"],
    "mps overlap": ["1:2,3:a", "1:2,4:a", "3:a,2:3,-1:5", "4:a,2:3,-2:5"],
    "one": ["-1:a,1:b,1:b"],
}
BIG = {
    "matrix chain free": ["-1:a,1:b", "1:b,2:c", "2:c,-2:d"],
    "chain with ones free": ["-1:a1,1:b1", "1:b1,2:c1", "2:c1,-2:d1"],
    "triangle free": ["1:a,2:b,-1:2", "2:b,3:c,-2:3", "3:c,1:a,-3:2"],
    "triangle with ones free": ["1:a1,2:b1", "2:b1,3:c1", "3:c1,1:a1,-1:2"],
    "square free": ["1:a,4:a,-1:2", "1:a,2:b,-2:2", "2:b,3:b,-3:2", "3:b,4:a,-4:3"],
    "mps overlap free": ["1:2,3:a", "1:2,4:a", "3:a,2:3,-1:b", "4:a,2:3,-2:b"],
    "chain 5": ["-1:2,1:a", "1:a,2:b", "2:b,3:a", "3:a,4:b", "4:b,-2:2"],
    "mera": ["1:a,2:a,-1:b", "1:a,3:a,-2:b", "2:a,4:a,-3:b", "3:a,4:a,-4:b"],
    "star free": ["1:a,2:b,3:c", "1:a,-1:2", "2:b,-2:2", "3:c,-3:2"],
}


def scenarios(tier):
  out = []
  th = tier == "thorough"
  nets = dict(NETS, **(BIG if th else {}))
  for name, net in nets.items():
    if len(net) > 1:
      out.append(Scenario(f"greedy {name}", greedy, net))
    for branch in (None, 1, 2) + ((3,) if th else ()):
      if len(net) > 1:
        out.append(Scenario(f"full {name} max_branch={branch}", full, net, branch))
    if name in ("matrix chain", "trace", "apart", "triangle"):
      out.append(Scenario(f"ncon_solver {name}", solver, net, None))
      out.append(Scenario(f"ncon_solver {name} greedy", solver, net, 1))
  out.append(Scenario("price chain", price, NETS["chain 4"], [None, [1, 2, 3], [3, 2, 1], [2, 1, 3], [1, 3, 2], [2, 3, 1], [3, 1, 2]]))
  out.append(Scenario("price triangle", price, NETS["triangle"], [None, [3, 2, 1], [2, 1, 3], [1, 3, 2]]))
  out.append(Scenario("price trace", price, NETS["trace"], [None, [2, 1, 5, 3, 4], [4, 3, 1, 2, 5]]))
  out.append(Scenario("price square", price, NETS["square"], [None, [4, 2, 1, 3], [3, 1, 4, 2]]))
  out.append(Scenario("price apart", price, NETS["apart"], [None]))
  out.append(Scenario("price two and two", price, NETS["two and two"], [None, [2, 1]]))
  out.append(Scenario("price three apart", price, NETS["three apart"], [None]))
  return out
