"""Independent reference evaluation of tensornetwork graphs, and graph building helpers."""
import numpy as np
import tensornetwork as tn
from tensornetwork import network_components as nc


class hash_order:
  """set iteration order of nodes and edges becomes a choice of the scenario instead of memory addresses"""

  def __init__(self, ctx, name="hash order", sign=None):
    self.sign = ctx.choice(name, [1, -1]) if sign is None else sign

  def __enter__(self):
    table = {}
    keep = []
    sign = self.sign

    def h(obj):
      k = id(obj)
      if k not in table:
        table[k] = sign * (len(table) + 1)
        keep.append(obj)  # ids stay unique
      return table[k]

    self.old = [(c, c.__dict__.get("__hash__")) for c in (nc.Edge, nc.AbstractNode, nc.Node, nc.CopyNode)]
    for c, _ in self.old:
      c.__hash__ = h
    return self

  def __exit__(self, *a):
    for c, o in self.old:
      if o is None:
        del c.__hash__
      else:
        c.__hash__ = o


def data(node):
  return np.asarray(node.tensor)


def value(nodes, out):
  """sum over all non-dangling edges of the product of node entries, axes as in `out` (a list of edges).
  Reads only node.edges and node.tensor."""
  ids = {}
  args = []
  for n in nodes:
    t = data(n)
    lab = [ids.setdefault(id(e), len(ids)) for e in n.edges]
    args += [t, lab]
  o = [ids[id(e)] for e in out]
  if len(ids) > 50:
    raise ValueError("too many edges")
  return np.einsum(*args, o)


def dangling(nodes):
  out = []
  for n in nodes:
    for e in n.edges:
      if e.node2 is None or e.node1 is None:
        out.append(e)
  return out


def wellformed(ctx, nodes, label="", closed=True):
  """mutual consistency of nodes and edges, read directly from the objects"""
  nodes = list(nodes)
  ok = True
  why = ""
  for n in nodes:
    t = data(n)
    if len(n.edges) != t.ndim:
      ok, why = False, f"{label}: {len(n.edges)} edges on a tensor of rank {t.ndim}"
      break
    for k, e in enumerate(n.edges):
      ends = [(e.node1, e.axis1)]
      if e.node2 is not None:
        ends.append((e.node2, e.axis2))
      if not any(m is n and a == k for m, a in ends):
        ok, why = False, f"{label}: edge {k} of a node does not refer back"
        break
      if e.is_disabled:
        ok, why = False, f"{label}: disabled edge in a node"
        break
      if e.is_dangling() != (len(ends) == 1):
        ok, why = False, f"{label}: is_dangling"
        break
      for m, a in ends:
        if closed and not any(m is x for x in nodes):
          ok, why = False, f"{label}: edge leads outside the network"
          break
        if not (0 <= a < len(m.edges)) or m.edges[a] is not e:
          ok, why = False, f"{label}: edge's end {a} is not that edge"
          break
        if data(m).shape[a] != t.shape[k]:
          ok, why = False, f"{label}: joined axes have different dimension"
          break
      if ok and len(ends) == 2 and e.node1 is e.node2 and e.axis1 == e.axis2:
        ok, why = False, f"{label}: trace edge with one axis"
      count = sum(1 for m in nodes for x in m.edges if x is e)
      if ok and count != len(ends):
        ok, why = False, f"{label}: edge occurs {count} times"
      if not ok:
        break
    if not ok:
      break
  if not ok:
    ctx.fail("nodes and edges consistent", why)
  ctx.check(True, f"nodes and edges consistent {label}")


def structure(nodes):
  """snapshot of a network's wiring, by object identity"""
  return [(id(n), data(n).shape, tuple(id(e) for e in n.edges),
           tuple((id(e.node1), e.axis1, id(e.node2) if e.node2 is not None else None,
                  e.axis2 if e.node2 is not None else None, e.is_disabled, e.name) for e in n.edges),
           tuple(n.axis_names) if n.axis_names else None, n.name) for n in nodes]


def wiring(ctx, ranks, self_edges=True, name="w"):
  """arbitrary wiring of the legs of nodes with the given ranks: list of (leg, leg) and list of free legs"""
  legs = [(i, a) for i, r in enumerate(ranks) for a in range(r)]
  pairs, free = [], []
  rest = list(legs)
  k = 0
  while rest:
    l = rest.pop(0)
    cands = [None] + [m for m in rest if self_edges or m[0] != l[0]]
    c = cands[ctx.pick(f"{name}{k}", 0, len(cands) - 1)]
    k += 1
    if c is None:
      free.append(l)
    else:
      rest.remove(c)
      pairs.append((l, c))
  return pairs, free


def build(ctx, ranks, pairs, dims=None, cplx=False, flip=None, kinds=None, prefix="n"):
  """nodes with symbolic entries wired by pairs; dims: dimension per pair then per free leg"""
  shape = [[0] * r for r in ranks]
  k = 0
  used = set()
  for (a, b) in pairs:
    d = dims(k) if dims else 2
    shape[a[0]][a[1]] = d
    shape[b[0]][b[1]] = d
    used |= {a, b}
    k += 1
  for i, r in enumerate(ranks):
    for x in range(r):
      if (i, x) not in used:
        shape[i][x] = dims(k) if dims else 2
        k += 1
  nodes = []
  for i, s in enumerate(shape):
    if kinds and kinds[i] == "copy":
      nodes.append(tn.CopyNode(rank=len(s), dimension=2, backend="numpy", name=f"{prefix}{i}"))
    else:
      nodes.append(tn.Node(ctx.tensor(f"{prefix}{i}", tuple(s), cplx), backend="numpy", name=f"{prefix}{i}"))
  edges = []
  for j, (a, b) in enumerate(pairs):
    if flip is not None and flip(j):
      a, b = b, a
    edges.append(tn.connect(nodes[a[0]][a[1]], nodes[b[0]][b[1]], name=f"e{j}"))
  return nodes, edges
