"""C10: saving and loading networks (HDF5 and JSON)."""
import io
import json
import h5py
import numpy as np
import tensornetwork as tn
from runner import Scenario
import sym
import shims
import tnlib
from tnlib import data, wiring, build

BOUNDS = ("networks of 1 to 3 nodes of rank 0 to 3 (thorough: 4 legs more) with every wiring (trace edges, parallel edges, several parts, free "
          "legs), arbitrary real or complex entries, edges connected in either direction, every subset of nodes for JSON, names chosen "
          "from distinct, repeated, default and clashing ones; CopyNodes (HDF5); networks of 12 nodes in every rotation of the list; edge "
          "bindings to single edges, lists and edges outside; failing writes; nodes given as list, tuple or iterator; NumPy backend "
          "(HDF5: JAX and TensorFlow too)")
OUTSIDE = ("what the h5py library and the json module do with the bytes (the real libraries are used: entries travel as distinct codes); "
           "JSON for CopyNode, JAX and TensorFlow (not implemented by the library); files written by older versions")
ASSUMPTIONS = ["h5py and numpy.save/load restore the arrays they are given (entries are replaced by distinct codes)"]
BACKENDS = ("numpy", "jax", "tensorflow")
shims.preload(BACKENDS)


class Codes:
  """symbolic entries travel through h5py and numpy.save as distinct numbers"""

  def __init__(self, ctx):
    self.ctx = ctx
    self.table = []

  def enc(self, a):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=np.int64)
    for i in np.ndindex(*a.shape):
      self.table.append(a[i])
      out[i] = len(self.table) - 1
    return out

  def dec(self, c):
    c = np.asarray(c)
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
      out[i] = self.table[int(c[i])]
    return out

  def __enter__(self):
    if not self.ctx.symbolic:
      return self
    G, D = h5py.Group, h5py.Dataset
    self.saved = (G.create_dataset, D.__getitem__, np.save, np.load)
    cd, gi, sv, ld = self.saved
    codes = self

    def create_dataset(g, name, shape=None, dtype=None, data=None, **kw):
      if isinstance(data, sym.S) or (isinstance(data, np.ndarray) and data.dtype == object and dtype is None):
        x = np.empty((), dtype=object)
        if isinstance(data, sym.S):
          x[()] = data
          data = x
        ds = cd(g, name, shape, dtype, data=codes.enc(data), **kw)
        ds.attrs["sym"] = 1
        return ds
      return cd(g, name, shape, dtype, data=data, **kw)

    def getitem(d, args, *a, **k):
      r = gi(d, args, *a, **k)
      return codes.dec(r) if "sym" in d.attrs else r

    def save(f, a, *args, **kw):
      a = np.asarray(a)
      if a.dtype != object:
        return sv(f, a, *args, **kw)
      f.write(b"SYM" + json.dumps([list(a.shape), codes.enc(a).ravel().tolist()]).encode())

    def load(f, *args, **kw):
      p = f.tell()
      if f.read(3) != b"SYM":
        f.seek(p)
        return ld(f, *args, **kw)
      shape, c = json.loads(f.read().decode())
      return codes.dec(np.array(c, dtype=np.int64).reshape(shape))

    G.create_dataset, D.__getitem__, np.save, np.load = create_dataset, getitem, save, load
    sym.ENG.stats.stubs.add("h5py datasets and numpy.save/load: restore the entries")
    return self

  def __exit__(self, *a):
    if self.ctx.symbolic:
      h5py.Group.create_dataset, h5py.Dataset.__getitem__, np.save, np.load = self.saved
    return False


def describe(nodes):
  """wiring by position"""
  pos = {id(n): k for k, n in enumerate(nodes)}
  out = []
  for n in nodes:
    legs = []
    for e in n.edges:
      ends = sorted((pos.get(id(m), -1), a) for m, a in [(e.node1, e.axis1), (e.node2, e.axis2)] if m is not None)
      legs.append((tuple(ends), e.name, e.is_dangling()))
    out.append((type(n).__name__, n.name, tuple(n.axis_names), n.backend.name, tuple(legs)))
  return out


NAMES = ["distinct", "default", "repeated", "clashing"]


def network(ctx, ranks, cplx, kinds=None):
  pairs, free = wiring(ctx, ranks)
  nodes, edges = build(ctx, ranks, pairs, cplx=cplx, kinds=kinds, flip=lambda j: ctx.choice(f"flip{j}", [False, True]))
  how = ctx.choice("names", NAMES)
  alle = []
  for n in nodes:
    for e in n.edges:
      if not any(e is x for x in alle):
        alle.append(e)
  if how == "distinct":
    for k, n in enumerate(nodes):
      n.set_name("n\u00e4me %d" % (len(nodes) - k))
      n.add_axis_names([f"ax{k}{i}" for i in range(len(n.edges))])
    for k, e in enumerate(alle):
      e.set_name(f"bond {len(alle) - k}")
  elif how == "repeated":
    for n in nodes:
      n.set_name("same")
    for e in alle:
      e.set_name("same")
  elif how == "clashing":
    for k, n in enumerate(nodes):
      n.set_name(f"node{len(nodes) - 1 - k}")
    for k, e in enumerate(alle):
      e.set_name(f"edge{len(alle) - 1 - k}")
  return nodes, pairs, free, alle


def given(ctx, nodes):
  form = ctx.choice("given as", ["list", "tuple", "iterator"])
  return {"list": list, "tuple": tuple, "iterator": iter}[form](nodes)


def h5(ctx, name, ranks, cplx, kinds=None):
  with Codes(ctx), shims.on(ctx, name) as B:
    nodes, pairs, free, alle = network(ctx, ranks, cplx, kinds)
    tensors = [data(n) for n in nodes]
    if name != "numpy":
      for n in nodes:
        if type(n) is tn.Node:
          n.backend = B.backend
          n.tensor = B.arr(n.tensor)
    before, d = tnlib.structure(nodes), describe(nodes)
    given_tensors = [n.tensor if type(n) is tn.Node else None for n in nodes]
    f = io.BytesIO()
    tn.save_nodes(given(ctx, nodes) if name == "numpy" else nodes, f)
    ctx.check(tnlib.structure(nodes) == before, "the network saved is unchanged")
    for n, t, x in zip(nodes, given_tensors, tensors):
      if t is not None:
        ctx.check(n.tensor is t, "tensor kept")
        ctx.eq(B.out(t), x, "the tensors saved are unchanged")
    got = tn.load_nodes(f)
    ctx.check(len(got) == len(nodes), "number of nodes")
    if name == "numpy":
      tnlib.wellformed(ctx, got, "loaded")
    ctx.check(describe(got) == d, "names, order, axis names, edge names, wiring and backend of the loaded network")
    for n, x, o in zip(got, tensors, nodes):
      if type(n) is tn.Node:
        ctx.eq(B.out(n.tensor), x, "entries")
        if not ctx.symbolic:
          ctx.check(np.asarray(B.out(n.tensor)).dtype == np.asarray(x).dtype, "dtype")
      else:
        ctx.check(n.rank == o.rank and n.dimension == o.dimension and n.copy_node_dtype == o.copy_node_dtype, "copy node")


def twelve(ctx, fmt):
  """more than ten nodes: names with two digits"""
  n = 12
  shift = ctx.pick("rotation", 0, n - 1)
  nodes = [tn.Node(ctx.tensor(f"t{k}", (2,) if k in (0, n - 1) else (2, 2)), name=f"v{k}", backend="numpy") for k in range(n)]
  for k in range(n - 1):
    tn.connect(nodes[k][0 if k == 0 else 1], nodes[k + 1][0], name=f"b{(7 * k) % n}")
  nodes = nodes[shift:] + nodes[:shift]
  with Codes(ctx):
    before, d = tnlib.structure(nodes), describe(nodes)
    if fmt == "hdf5":
      f = io.BytesIO()
      tn.save_nodes(nodes, f)
      got = tn.load_nodes(f)
    else:
      got, _ = tn.nodes_from_json(tn.nodes_to_json(nodes))
    ctx.check(tnlib.structure(nodes) == before, "the network saved is unchanged")
    ctx.check(describe(got) == d, "names, order, axis names, edge names and wiring of the loaded network")
    for a, b in zip(got, nodes):
      ctx.eq(data(a), data(b), "entries")


class Broken(io.BytesIO):
  """storage that fails at the k-th write"""

  def __init__(self, k):
    super().__init__()
    self.left = k

  def write(self, *a):
    self.left -= 1
    if self.left < 0:
      raise OSError("no space left on device")
    return super().write(*a)


def failing(ctx):
  """a save that fails leaves the network as it was"""
  nodes, _, _, _ = network(ctx, [2, 2], False)
  before = tnlib.structure(nodes)
  k = ctx.pick("failing dataset", 0, 12)
  count = [0]
  orig = h5py.Group.create_dataset

  def create_dataset(*a, **kw):
    count[0] += 1
    if count[0] > k:
      raise OSError("no space left on device")
    return orig(*a, **kw)
  with Codes(ctx):
    orig = h5py.Group.create_dataset
    h5py.Group.create_dataset = create_dataset
    try:
      tn.save_nodes(nodes, io.BytesIO())
    except OSError:
      pass
    finally:
      h5py.Group.create_dataset = orig
  ctx.check(tnlib.structure(nodes) == before, "a failed save leaves the network as it was")


def refused(ctx):
  nodes, pairs, free, _ = network(ctx, [1, 2, 1], False)
  before = tnlib.structure(nodes)
  sub = [n for k, n in enumerate(nodes) if ctx.choice(f"in{k}", [True, False])]
  if not sub:
    return
  if ctx.choice("repeat", [False, True]):
    sub = sub + [sub[0]]
    bad = True
  else:
    inside = {id(n) for n in sub}
    bad = any((id(nodes[a[0]]) in inside) != (id(nodes[b[0]]) in inside) for a, b in pairs)
  if bad:
    with Codes(ctx):
      ctx.raises(ValueError, lambda: tn.save_nodes(sub, io.BytesIO()), "nodes missing or repeated")
  ctx.check(tnlib.structure(nodes) == before, "a refused save leaves the network as it was")


def js(ctx, ranks, cplx):
  with Codes(ctx):
    nodes, pairs, free, alle = network(ctx, ranks, cplx)
    keep = [n for k, n in enumerate(nodes) if ctx.choice(f"in{k}", [True, False])] if len(nodes) > 1 else nodes
    if not keep:
      return
    binding = ctx.choice("binding", ["none", "edges", "lists"])
    bind = None
    if binding == "edges":
      bind = {f"k{i}": e for i, e in enumerate(alle)}
    elif binding == "lists":
      bind = {"all": list(alle), "first": alle[:1], "back": tuple(alle[::-1])}
    before = tnlib.structure(nodes)
    tensors = [ctx.contents(np.array(n.tensor)) for n in nodes]
    text = tn.nodes_to_json(keep, edge_binding=bind)
    ctx.check(tnlib.structure(nodes) == before, "the network saved is unchanged")
    for n, t in zip(nodes, tensors):
      ctx.eq(n.tensor, t, "the tensors saved are unchanged")
    ctx.check(isinstance(text, str), "text")
    got, eb = tn.nodes_from_json(text)
    tnlib.wellformed(ctx, got, "loaded")
    # wiring restricted to the nodes kept
    pos = {id(n): k for k, n in enumerate(keep)}
    want = []
    for n in keep:
      legs = []
      for e in n.edges:
        ends = sorted((pos[id(m)], a) for m, a in [(e.node1, e.axis1), (e.node2, e.axis2)] if m is not None and id(m) in pos)
        legs.append((tuple(ends), e.name, len(ends) == 1))
      want.append((type(n).__name__, n.name, tuple(n.axis_names), n.backend.name, tuple(legs)))
    ctx.check(describe(got) == want, "names, order, axis names, edge names and wiring of the loaded network")
    for a, b in zip(got, keep):
      ctx.eq(a.tensor, b.tensor, "entries")
      if not ctx.symbolic:
        ctx.check(a.tensor.dtype == b.tensor.dtype, "dtype")

    def leg(e):
      ends = [(pos[id(m)], a) for m, a in [(e.node1, e.axis1), (e.node2, e.axis2)] if m is not None and id(m) in pos]
      return ends[0] if ends else None

    exp = {}
    for k, v in (bind or {}).items():
      es = [v] if isinstance(v, tn.Edge) else v
      legs = [leg(e) for e in es if leg(e) is not None]
      if legs:
        exp[k] = legs
    ctx.check(set(eb) == set(exp), "bindings restored")
    for k in exp:
      ctx.check(isinstance(eb[k], tuple) and len(eb[k]) == len(exp[k]) and
                all(got[i].edges[a] is e for (i, a), e in zip(exp[k], eb[k])), "bindings refer to the loaded edges")


def js_refused(ctx):
  nodes, _, _, alle = network(ctx, [1, 1], False)
  before = tnlib.structure(nodes)
  with Codes(ctx):
    ctx.raises(TypeError, lambda: tn.nodes_to_json(nodes, edge_binding={1: alle[0]}), "keys are strings")
    ctx.raises(TypeError, lambda: tn.nodes_to_json(nodes, edge_binding={"a": "b"}), "values are edges")
    ctx.raises(TypeError, lambda: tn.nodes_to_json(nodes, edge_binding={"a": [alle[0], 3]}), "values are edges")
    ctx.raises(TypeError, lambda: tn.nodes_to_json(nodes, edge_binding={"a": 3}), "values are edges")
  ctx.check(tnlib.structure(nodes) == before, "a refused save leaves the network as it was")


def scenarios(tier):
  out = []
  th = tier == "thorough"

  def add(what, fn, *args):
    out.append(Scenario(f"{what} " + " ".join(str(a) if not isinstance(a, bool) else ("c" if a else "r") for a in args), fn, *args))

  rr = [(0,), (1,), (2,), (3,), (0, 1), (1, 1), (2, 1), (2, 2), (1, 1, 1), (1, 2, 1), (0, 2, 0)] + ([(3, 1), (3, 2), (2, 2, 1), (2, 2, 2)] if th else [(3, 1)])
  for r in rr:
    for cplx in (False, True):
      if cplx and sum(r) > 3 and not th:
        continue
      add("hdf5", h5, "numpy", r, cplx)
      add("json", js, r, cplx)
  for b in ("jax", "tensorflow"):
    for cplx in (False, True):
      add("hdf5", h5, b, (2, 1), cplx)
  add("hdf5", h5, "numpy", (2, 3), False, ("node", "copy"))
  add("hdf5", h5, "numpy", (1, 2), False, ("node", "copy"))
  for f in ("hdf5", "json"):
    add("twelve", twelve, f)
  add("failing", failing)
  add("refused", refused)
  add("json refused", js_refused)
  return out
