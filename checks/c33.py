"""C33: building, describing and combining nodes."""
import numpy as np
import tensornetwork as tn
from tensornetwork import network_components as nc
from runner import Scenario
from tnlib import value, dangling, wellformed, structure, wiring, build, hash_order, data
import shims

BOUNDS = ("from_topology: every string of up to three parts over four labels with up to five axes in total, matching and contradicting "
          "dimensions, wrong numbers of tensors and axes; node arithmetic on tensors of rank 0 to 2 (also of different, broadcastable "
          "shapes) with nodes and Python scalars on NumPy, JAX and TensorFlow; accessors on every wiring (dangling, parallel, trace) of one "
          "to three nodes with up to five legs, ordinary and copy nodes, every axis number from -1 to the rank and every axis name; "
          "switch_backend on every wiring of two nodes; complex symbolic entries")
OUTSIDE = "larger networks; PyTorch; representations as text (repr)"
ASSUMPTIONS = ["jax.numpy and TensorFlow functions compute what lib/shims.py says"]
BACKENDS = ("numpy", "jax", "tensorflow")
shims.preload(BACKENDS)
LETTERS = "abxy"


def topology(ctx, ranks, dims):
  """from_topology for every label of every axis; dims: dimension of each label, or None for contradicting ones"""
  with hash_order(ctx, sign=1):
    labels = [[LETTERS[ctx.pick(f"label{i}.{k}", 0, 3)] for k in range(r)] for i, r in enumerate(ranks)]
    flat = [c for ls in labels for c in ls]
    # labels in order of first use, other choices are the same up to renaming
    if [c for k, c in enumerate(flat) if c not in flat[:k]] != list(LETTERS[:len(set(flat))]):
      return
    size = {c: dims[k] for k, c in enumerate(LETTERS)}
    shapes = [[size[c] for c in ls] for ls in labels]
    odd = None
    if flat and ctx.choice("wrong dimension", [False, True]):
      i = ctx.pick("wrong tensor", 0, len(ranks) - 1)
      if not ranks[i]:
        return
      odd = (i, ctx.pick("wrong axis", 0, ranks[i] - 1))
      shapes[odd[0]][odd[1]] += 1
    ts = [ctx.tensor(f"t{i}", tuple(s), True) for i, s in enumerate(shapes)]
    keep = [t.copy() for t in ts]
    text = ",".join("".join(ls) for ls in labels)
    bad = any(len(set(ls)) != len(ls) for ls in labels) or any(flat.count(c) > 2 for c in flat) or (
        odd is not None and flat.count(labels[odd[0]][odd[1]]) == 2)
    if bad:
      ctx.raises(ValueError, lambda: tn.from_topology(text, ts, backend="numpy"), "impossible topology")
      return
    how = ctx.choice("backend", ["numpy", None])
    nodes = tn.from_topology(text, ts, backend=how)
    ctx.check(len(nodes) == len(ts), "one node per tensor, in order")
    for n, t, ls in zip(nodes, ts, labels):
      ctx.check(list(n.axis_names) == ls and n.backend.name == "numpy", "axis names")
      ctx.eq(data(n), t, "entries")
    wellformed(ctx, nodes, "from_topology")
    for i, a in enumerate(nodes):
      for k, c in enumerate(labels[i]):
        e = a.edges[k]
        ctx.check(e.is_dangling() == (flat.count(c) == 1), "labels that occur once dangle")
        for j, b in enumerate(nodes):
          for m, d in enumerate(labels[j]):
            ctx.check((b.edges[m] is e) == (c == d), "axes with the same label share an edge")
    for t, k in zip(ts, keep):
      ctx.eq(t, k, "tensors unchanged")


def topology_arguments(ctx):
  ts = [ctx.tensor("a", (2, 3)), ctx.tensor("b", (3,))]
  for text in ("xy", "xy,y,z", "xyz,y", "x,y", "xy,", "xy,yz", ""):
    ctx.raises(ValueError, lambda t=text: tn.from_topology(t, ts, backend="numpy"), f"'{text}'")
  s = tn.from_topology("xy,,y", [ts[0], ctx.tensor("s", ()), ts[1]], backend="numpy")
  ctx.check([n.get_rank() for n in s] == [2, 0, 1] and s[0][1] is s[2][0] and s[0][0].is_dangling(), "scalars have an empty part")


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}


def arithmetic(ctx, backend, op, shapes, cplx):
  with shims.on(ctx, backend) as B:
    be, f = B.backend, OPS[op]
    xs = []
    for k, s in enumerate(shapes):
      x = ctx.tensor(f"x{k}", s, cplx)
      if op == "/" and k == 1:
        for i in np.ndindex(*s):
          x[i] = ctx.positive(f"p{i}")
      xs.append(x)
    nodes = [tn.Node(B.arr(x), name=f"n{k}", backend=B.name, axis_names=[f"{k}ax{i}" for i in range(x.ndim)])
             for k, x in enumerate(xs)]
    st = structure_of(B, nodes)
    r = f(nodes[0], nodes[1])
    fresh(ctx, B, r, nodes, f(xs[0], xs[1]), nodes[0].name)
    ctx.check(structure_of(B, nodes) == st, "operands keep their structure")
    for n, x in zip(nodes, xs):
      ctx.eq(B.out(n.tensor), x, "operands unchanged")
    for v in (2, 0.5) + ((1.5 - 2j,) if cplx else ()):
      fresh(ctx, B, f(nodes[0], v), nodes, f(xs[0], v), nodes[0].name)
    for bad in ("2", None, [1]):
      ctx.raises(TypeError, lambda x=bad: f(nodes[0], x), "operand of another type")
    # a result is a node like others: it can be combined again
    fresh(ctx, B, f(r, nodes[1]), nodes + [r], f(f(xs[0], xs[1]), xs[1]), nodes[0].name)


def structure_of(B, nodes):
  return [(n.name, tuple(n.axis_names), tuple(id(e) for e in n.edges), tuple((id(e.node1), e.axis1, e.is_dangling()) for e in n.edges))
          for n in nodes]


def fresh(ctx, B, r, nodes, want, name):
  want = np.asarray(want)
  ctx.check(type(r) is tn.Node and not any(r is n for n in nodes), "a new node")
  ctx.check(r.name == name and r.backend.name == B.name, "name and backend")
  ctx.check(tuple(r.shape) == want.shape and len(r.edges) == want.ndim, "shape")
  ctx.check(all(e.is_dangling() and e.node1 is r and e.axis1 == k for k, e in enumerate(r.edges)), "its own dangling edges")
  ctx.eq(B.out(r.tensor), want, "entries")


def mixed(ctx, op):
  """nodes of different backends, connected nodes, copy nodes"""
  f = OPS[op]
  a = tn.Node(np.ones((2, 2)), backend="numpy")
  for other in ("jax", "tensorflow"):
    b = tn.Node(np.ones((2, 2)), backend=other)
    ctx.raises(TypeError, lambda: f(a, b), "different backends")
    ctx.raises(TypeError, lambda: f(b, a), "different backends")
  ctx.raises((NotImplementedError, TypeError), lambda: f(tn.CopyNode(2, 2, backend="numpy"), a), "copy nodes have no arithmetic")
  x, y = ctx.tensor("x", (2, 2), True), ctx.tensor("y", (2, 2), True)
  if op == "/":
    for i in np.ndindex(2, 2):
      y[i] = ctx.positive(f"p{i}")
  n, m = tn.Node(x, backend="numpy"), tn.Node(y, backend="numpy")
  n[0] ^ m[1]
  m[0] ^ n[1]
  st = structure([n, m])
  r = f(n, m)
  ctx.check(structure([n, m]) == st and all(e.is_dangling() for e in r.edges), "operands stay connected, the result is not")
  wellformed(ctx, [n, m], "operands")
  wellformed(ctx, [r], "result")
  ctx.eq(r.tensor, f(x, y), "entries")


def accessors(ctx, ranks, kinds=None):
  with hash_order(ctx, sign=1):
    pairs, _ = wiring(ctx, ranks)
    dims = (lambda k: 2) if kinds else (lambda k: 2 + k % 2)
    nodes, _ = build(ctx, ranks, pairs, dims, True, flip=lambda j: j % 2, kinds=kinds)
    for i, n in enumerate(nodes):
      n.add_axis_names([f"{i}ax{k}" for k in range(ranks[i])])
    st = structure(nodes)
    legs = {}
    for i, n in enumerate(nodes):
      for k, e in enumerate(n.edges):
        legs.setdefault(id(e), []).append((i, k))
    for i, n in enumerate(nodes):
      r, a = ranks[i], data(n)
      es = list(n.edges)
      ctx.check(n.get_rank() == r and tuple(n.shape) == a.shape and tuple(n.sparse_shape) == a.shape, "rank and shape")
      ctx.check(n.get_all_edges() == es and n.get_all_edges() is not n.edges, "get_all_edges is a copy")
      ctx.check(n[:] == es and n[1:] == es[1:] and n[::-1] == es[::-1], "slices of edges")
      for k in range(r):
        ctx.check(n[k] is es[k] and n.get_edge(k) is es[k] and n[f"{i}ax{k}"] is es[k] and n.get_edge(f"{i}ax{k}") is es[k], "edge of an axis")
        ctx.check(n.get_axis_number(k) == k and n.get_axis_number(f"{i}ax{k}") == k, "axis number")
        ctx.check(n.get_dimension(k) == a.shape[k] and n.get_dimension(f"{i}ax{k}") == a.shape[k] and es[k].dimension == a.shape[k], "dimension")
      for k in (-1, r, r + 1):
        ctx.raises(ValueError, lambda k=k: n.get_dimension(k), "no such axis")
      for f in (n.get_axis_number, n.get_dimension, n.get_edge):
        ctx.raises(ValueError, lambda f=f: f("nothing"), "no such name")
      single = [e for e in es if len(legs[id(e)]) == 1]
      multi = {id(e) for e in es if len(legs[id(e)]) == 2}
      ctx.check([id(e) for e in n.get_all_dangling()] == [id(e) for e in single], "dangling edges in order")
      got = n.get_all_nondangling()
      ctx.check(len(got) == len(multi) and {id(e) for e in got} == multi, "non-dangling edges")
      ctx.check(bool(n.has_dangling_edge()) == bool(single) and bool(n.has_nondangling_edge()) == bool(multi), "has edges")
      for e in es:
        ls = legs[id(e)]
        ctx.check(e.is_dangling() == (len(ls) == 1) and e.is_trace() == (len(ls) == 2 and ls[0][0] == ls[1][0]), "kind of edge")
        ctx.check(e.is_being_used(), "in use")
        ends = [(e.node1, e.axis1)] + ([] if e.is_dangling() else [(e.node2, e.axis2)])
        ctx.check(sorted((next(j for j, m in enumerate(nodes) if m is x), k) for x, k in ends) == sorted(ls), "ends of the edge")
        ctx.check(all(x is y for x, y in zip(e.get_nodes(), [e.node1, e.node2])), "get_nodes")
      given = [e for e in reversed(es)]
      if not any(e.is_trace() for e in es):
        ctx.eq(n.tensor_from_edge_order(given), np.transpose(a, list(range(r))[::-1]), "tensor_from_edge_order")
      others = [e for m in nodes if m is not n for e in m.edges if not any(x is e for x in es)]
      if others:
        ctx.raises(ValueError, lambda: n.tensor_from_edge_order(given[1:] + others[:1]), "edge of another node")
    ctx.check(structure(nodes) == st, "accessors change nothing")


def names(ctx, rank):
  a = ctx.tensor("a", (2,) * rank, True)
  base = [f"ax{k}" for k in range(rank)]
  for make in (lambda x: tn.Node(a, axis_names=x, backend="numpy"), lambda x: tn.CopyNode(rank, 2, axis_names=x, backend="numpy")):
    given = list(base)
    n = make(given)
    ctx.check(list(n.axis_names) == base and [e.name for e in n.edges] == base, "axis and edge names")
    given[0] = "changed"
    ctx.check(list(n.axis_names) == base, "the list stays the caller's")
    for bad, exc in [(base[:-1], ValueError), (base + ["more"], ValueError), ([base[0]] * rank, ValueError if rank > 1 else None), ([1] * rank, TypeError),
                     (base[:-1] + [3], TypeError)]:
      if exc is None:
        continue
      ctx.raises((ValueError, TypeError), lambda b=bad: make(b), "bad axis names")
      ctx.raises((ValueError, TypeError), lambda b=bad: n.add_axis_names(b), "bad axis names")
      ctx.check(list(n.axis_names) == base, "rejected names leave the old ones")
    ctx.raises(TypeError, lambda: n.set_name(3), "name")
    n.set_name("new")
    ctx.check(n.name == "new", "name")
    n.edges[0].set_name("edge")
    ctx.check(n.edges[0].name == "edge" and list(n.axis_names) == base, "edge name")
    ctx.raises(TypeError, lambda: n.edges[0].set_name(None), "edge name")
  m = tn.Node(n, name="of a node")
  ctx.check(m is not n and m.backend.name == "numpy" and all(e.node1 is m and e.is_dangling() for e in m.edges), "node of a node")
  ctx.eq(data(m), data(n), "node of a node")


def disabled(ctx):
  """contracted edges refuse to be used, contracted nodes are free again, disabled nodes refuse to be used"""
  ts = [ctx.tensor(x, (2, 2), True) for x in "abc"]
  a, b, c = (tn.Node(t, backend="numpy", axis_names=[f"{x}0", f"{x}1"]) for t, x in zip(ts, "abc"))
  a[1] ^ b[0]
  e, d = a[1], a[0]
  b[1] ^ c[0]
  f = b[1]
  what = ctx.choice("operation", ["contract", "contract_between", "@", "outer_product"])
  if what == "contract":
    r = tn.contract(e)
  elif what == "contract_between":
    r = tn.contract_between(a, b)
  elif what == "@":
    r = a @ b
  else:
    r = tn.outer_product(a, c)
    b = c
  ctx.check(d.node1 is r and (f.node1 is r or f.node2 is r), "other edges moved to the result")
  for n in (a, b):
    ctx.check(all(x.is_dangling() and x.node1 is n and x.axis1 == k and x is not d and x is not f for k, x in enumerate(n.edges)),
              "contracted nodes have fresh edges")
    ctx.eq(data(n), ts[0 if n is a else (2 if n is c else 1)], "contracted nodes keep their tensor")
  wellformed(ctx, [a, b], "contracted nodes")
  ctx.check(list(a.axis_names) == ["a0", "a1"] and [x.name for x in a.edges] == ["a0", "a1"], "and their axis names")
  if what != "outer_product":
    for g in (lambda: e.name, lambda: e.node1, lambda: e.axis1, lambda: e.node2, lambda: e.axis2, lambda: e.is_being_used()):
      ctx.raises(ValueError, g, "edge was contracted")
  a.disable()
  for g in (lambda: a.edges, lambda: a.shape, lambda: a[0], lambda: a.get_rank(), lambda: a @ r, a.disable):
    ctx.raises(ValueError, g, "node is disabled")
  ctx.eq(data(a), ts[0], "tensor of a disabled node")


def switching(ctx, target, ranks):
  with shims.on(ctx, target) as B, hash_order(ctx, sign=1):
    pairs, _ = wiring(ctx, ranks)
    nodes, _ = build(ctx, ranks, pairs, (lambda k: 2 + k % 2), True)
    free = dangling(nodes)
    st, before = structure(nodes), [data(n).copy() for n in nodes]
    want = value(nodes, free)
    sub = [n for i, n in enumerate(nodes) if ctx.choice(f"switch{i}", [True, False])]
    tn.switch_backend(sub if ctx.choice("container", [0, 1]) else iter(sub), B.name)
    for n, t in zip(nodes, before):
      mine = any(n is s for s in sub)
      ctx.check(n.backend.name == (B.name if mine else "numpy"), "backend")
      ctx.eq(B.out(n.tensor) if mine else data(n), t, "entries")
    ctx.check([s[2:] for s in structure_plain(nodes)] == [s[2:] for s in st], "structure")
    if len(sub) == len(nodes):
      r = tn.contractors.greedy(nodes, output_edge_order=free)
      ctx.eq(B.out(r.tensor), want, "contraction on the new backend")
      ctx.check(r.backend.name == B.name, "backend of the result")


def structure_plain(nodes):
  return [(id(n), None, tuple(id(e) for e in n.edges),
           tuple((id(e.node1), e.axis1, id(e.node2) if e.node2 is not None else None,
                  e.axis2 if e.node2 is not None else None, e.is_disabled, e.name) for e in n.edges),
           tuple(n.axis_names) if n.axis_names else None, n.name) for n in nodes]


def switch_refused(ctx):
  a = tn.Node(np.ones(2), backend="numpy")
  ctx.raises(ValueError, lambda: tn.switch_backend([a], "symmetric"), "to symmetric")
  b = tn.Node(np.ones(2), backend="jax")
  ctx.raises(NotImplementedError, lambda: tn.switch_backend([b], "numpy"), "from jax")
  ctx.check(a.backend.name == "numpy" and b.backend.name == "jax" and isinstance(a.tensor, np.ndarray), "nodes as they were")


def scenarios(tier):
  th = tier == "thorough"
  out = []
  for r in [(0,), (2,), (3,), (1, 1), (2, 1), (2, 2), (1, 1, 1), (2, 1, 1), (0, 2, 1)] + [(2, 2, 1)] * th + [(3, 2)] * th:
    out.append(Scenario(f"topology {r}", topology, r, (2, 3, 2, 1)))
  out.append(Scenario("topology equal dimensions", topology, (2, 2), (2, 2, 2, 2)))
  out.append(Scenario("topology arguments", topology_arguments))
  for op in OPS:
    for b in BACKENDS:
      for shapes in [((), ()), ((2, 3), (2, 3)), ((2,), (2,))] + [((2, 3), (3,)), ((3,), (2, 1))] * (b == "numpy" or th):
        out.append(Scenario(f"arithmetic {op} {b} {shapes}", arithmetic, b, op, shapes, True))
      out.append(Scenario(f"arithmetic {op} {b} real", arithmetic, b, op, ((2, 2), (2, 2)), False))
    out.append(Scenario(f"arithmetic {op} mixed", mixed, op))
  for r in [(0,), (1,), (2,), (3,), (4,), (2, 1), (2, 2), (3, 2), (1, 1, 1), (2, 1, 2)] + [(3, 3), (2, 2, 2)] * th:
    out.append(Scenario(f"accessors {r}", accessors, r))
  for r, k in [((3,), ["copy"]), ((3, 2), ["copy", None]), ((2, 2), [None, "copy"])]:
    out.append(Scenario(f"accessors copy node {r} {k}", accessors, r, k))
  for r in (1, 2, 3):
    out.append(Scenario(f"names {r}", names, r))
  out.append(Scenario("disabled", disabled))
  for b in ("jax", "tensorflow", "numpy"):
    for r in [(2, 1), (2, 2)] + [(3, 2)] * th:
      out.append(Scenario(f"switch to {b} {r}", switching, b, r))
  out.append(Scenario("switch refused", switch_refused))
  return out
