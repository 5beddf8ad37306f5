"""C35: networks of block-sparse nodes mean the same as networks of the dense tensors."""
import itertools
import warnings
import numpy as np
import tensornetwork as tn
from tensornetwork import network_operations as no
from tensornetwork.backends import backend_factory
from runner import Scenario
import qarr
from bslib import World, dense, is_dense, legs_of, same_legs
from c18 import one, scalar

BOUNDS = ("triangles, chains, parallel edges, traces, disconnected pieces and outer products of two to four block-sparse nodes of two to four "
          "legs with one to three charges each (concrete charges with degeneracies for U(1), Z3 and U(1)xZ2, symbolic U(1) charges for pairs of "
          "nodes), symbolic real or complex entries; every order of pairwise contraction of three nodes, every order of the output edges, "
          "every contractor, ncon with every order of the labels, every way to flatten and to split, every partition of the legs in split_node*")
OUTSIDE = ("rounding; larger networks; slicing and serialisation, which the symmetric backend does not implement; the choice of charges on "
           "new bonds beyond fitting and recombining (C16)")
ASSUMPTIONS = ["numpy.linalg.svd/qr satisfy their contracts on each block"]
warnings.filterwarnings("ignore", message="svd_decomposition truncated to 0")
F, T = False, True
CONTRACTORS = {"greedy": tn.contractors.greedy, "optimal": tn.contractors.optimal, "branch": tn.contractors.branch, "auto": tn.contractors.auto}

# charges of the labels
CH = {
    "U1": ("U1", dict(i="0,1,1", j="0,-1", k="0,1", l="1,2", m="0,1", n="0,-1")),
    "Z3": ("Z3", dict(i="0,1,2", j="0,1", k="2,1", l="0,2", m="1,2", n="0,1")),
    "product": ("U1.Z2", dict(i="0,1;0,1", j="0,-1;1,0", k="0,1;1,0", l="1,2;0,1", m="0,1;0,0", n="0,1;1,1")),
    "symbolic": ("U1", dict(i="a,b", j="0,a", k="b,a", l="a,b", m="b", n="a,0")),
}


def flip(spec):
  return spec.swapcase()


def build(ctx, types, labels, cplx, w=None):
  """nodes with the given labels; an upper case label flows inwards"""
  kind, ch = CH[types]
  w = w or World(ctx, kind)
  ts, ds = [], []
  for n, lab in enumerate(labels):
    t, d = w.tensor(f"t{n}", [ch[x.lower()] for x in lab], [x.isupper() for x in lab], cplx=cplx)
    ts.append(t)
    ds.append(d)
  nodes = [tn.Node(t, name=f"n{k}", backend="symmetric") for k, t in enumerate(ts)]
  return ts, ds, nodes


def join(nodes, labels):
  """connect equal labels; the dangling edges by label"""
  seen, out = {}, {}
  for n, lab in zip(nodes, labels):
    for a, x in enumerate(lab):
      if x.lower() in seen:
        e = tn.connect(seen.pop(x.lower()), n[a])
        e.set_name(x.lower())
        out.pop(x.lower())
      else:
        seen[x.lower()] = n[a]
        out[x.lower()] = n[a]
  return out


def einsum(labels, ds, res):
  """independent of tensordot: sum over products"""
  return np.einsum(",".join(l.lower() for l in labels) + "->" + res, *ds)


def eins(ctx, labels, ds, res):
  if not ctx.symbolic:
    return einsum(labels, ds, res)
  dims = {}
  for l, d in zip(labels, ds):
    for x, s in zip(l.lower(), d.shape):
      dims[x] = s
  names = sorted(dims)
  inner = [x for x in names if x not in res]
  out = np.zeros(tuple(dims[x] for x in res), dtype=object)
  for idx in np.ndindex(*out.shape):
    env = dict(zip(res, idx))
    total = 0
    for jdx in np.ndindex(*[dims[x] for x in inner]):
      env.update(zip(inner, jdx))
      p = 1
      for l, d in zip(labels, ds):
        v = d[tuple(env[x] for x in l.lower())]
        if isinstance(v, (int, float)) and v == 0:
          p = 0
          break
        p = p * v
      total = total + p
    out[idx] = total
  return out


def kept(ctx, ts, ds, label="the tensors are not modified"):
  for t, d in zip(ts, ds):
    ctx.eq(dense(ctx, t), d, label)


def result(ctx, node, edges, labels, ds, what):
  """reorder the dangling edges of the result and compare"""
  res = "".join(sorted(edges))
  if res:
    node.reorder_edges([edges[x] for x in res])
  ctx.check(node.shape == node.tensor.shape, what + ": shape")
  is_dense(ctx, node.tensor, eins(ctx, labels, ds, res), what)


TRI = ("ijk", "KJl", "LIm")
NETS = {
    "triangle": TRI,
    "open triangle": ("ijm", "Kjl".replace("j", "J"), "LIkn"),
    "chain": ("ij", "Jk", "Kl"),
    "parallel": ("ijk", "KIJl", "Lm"),
    "outer": ("ij", "kL"),
    "pieces": ("ij", "IJ", "kL", "Kl"),
    "closed": ("ij", "Jk", "KI"),
}


def contractors(ctx, net, types, cplx, name):
  labels = NETS[net]
  with qarr.on(ctx):
    ts, ds, nodes = build(ctx, types, labels, cplx)
    edges = join(nodes, labels)
    free = sorted(edges)
    order = ctx.choice("order", list(itertools.permutations(free)))
    r = CONTRACTORS[name](nodes, output_edge_order=[edges[x] for x in order], ignore_edge_order=False)
    is_dense(ctx, r.tensor, eins(ctx, labels, ds, "".join(order)), name)
    for a, x in enumerate(order):
      ctx.check(r[a] is edges[x], "edges in the requested order")
    kept(ctx, ts, ds)


def pairwise(ctx, net, types, cplx):
  """contract_between in any order of the nodes"""
  labels = NETS[net]
  with qarr.on(ctx):
    ts, ds, nodes = build(ctx, types, labels, cplx)
    edges = join(nodes, labels)
    live = list(nodes)
    while len(live) > 1:
      a, b = ctx.choice(f"pair{len(live)}", [(x, y) for x in range(len(live)) for y in range(len(live)) if x != y])
      r = tn.contract_between(live[a], live[b], allow_outer_product=True)
      live = [x for k, x in enumerate(live) if k not in (a, b)] + [r]
    result(ctx, live[0], edges, labels, ds, "contract_between")
    kept(ctx, ts, ds)


def ordered(ctx, types, cplx):
  """contract_between with an output order and axis names"""
  labels = ("ijk", "KJlM")
  with qarr.on(ctx):
    ts, ds, nodes = build(ctx, types, labels, cplx)
    edges = join(nodes, labels)
    order = ctx.choice("order", list(itertools.permutations(sorted(edges))))
    a, b = nodes if ctx.choice("first", [0, 1]) == 0 else nodes[::-1]
    r = tn.contract_between(a, b, output_edge_order=[edges[x] for x in order], axis_names=list(order))
    is_dense(ctx, r.tensor, eins(ctx, labels, ds, "".join(order)), "contract_between")
    ctx.check([e.name for e in r.edges] == [e.name for e in (edges[x] for x in order)], "edges in the requested order")
    ctx.check(list(r.axis_names) == list(order), "axis names")


def operator(ctx, types, cplx):
  labels = ("ijk", "KJl", "LIm")
  with qarr.on(ctx):
    ts, ds, nodes = build(ctx, types, labels, cplx)
    edges = join(nodes, labels)
    r = nodes[0] @ nodes[1] @ nodes[2]
    result(ctx, r, edges, labels, ds, "@")


def byedge(ctx, net, types, cplx, how):
  """contract edges one after the other"""
  labels = NETS[net]
  with qarr.on(ctx):
    ts, ds, nodes = build(ctx, types, labels, cplx)
    edges = join(nodes, labels)
    live = set(nodes)
    step = 0
    while True:
      es = sorted({e for n in live for e in n.edges if not e.is_dangling()}, key=lambda e: e.name)
      if not es:
        break
      e = ctx.choice(f"edge{step}", es) if step < 2 else es[0]
      step += 1
      ends = set(e.get_nodes())
      if how == "parallel" and not e.is_trace():
        r = tn.contract_parallel(e)
      elif how == "flatten":
        e = tn.flatten_edges_between(*e.get_nodes()) if not e.is_trace() else e
        if len(ends) == 2:
          ctx.check(len(tn.get_shared_edges(*ends)) == 1, "one edge is left after flattening")
        r = tn.contract(e)
      else:
        r = tn.contract(e)
      live = (live - ends) | {r}
    rest = list(live)
    r = rest[0]
    for x in rest[1:]:
      r = tn.outer_product(r, x)
    result(ctx, r, edges, labels, ds, how)
    if how != "flatten":
      kept(ctx, ts, ds)


def traces(ctx, types, cplx):
  """nodes with trace edges"""
  labels = ctx.choice("labels", ["iI", "iJI", "ijIJ", "jiIk", "ijJkI"[:4] + "I"])
  with qarr.on(ctx):
    kind, ch = CH[types]
    w = World(ctx, kind)
    t, d = w.tensor("t", [ch[x.lower()] for x in labels], [x.isupper() for x in labels], cplx=cplx)
    n = tn.Node(t, backend="symmetric")
    pos = {}
    for a, x in enumerate(labels):
      pos.setdefault(x.lower(), []).append(a)
    tr = [tn.connect(n[p[0]], n[p[1]]) for p in pos.values() if len(p) == 2]
    edges = {x: n[p[0]] for x, p in pos.items() if len(p) == 1}
    how = ctx.choice("how", ["contract", "all", "flatten"]) if len(tr) > 1 else ctx.choice("how", ["contract", "all"])
    if how == "all":
      r = tn.contract_trace_edges(n)
    elif how == "flatten":
      r = tn.contract(tn.flatten_edges(tr))
    else:
      r = n
      for e in tr if ctx.choice("first", [0, 1]) == 0 else tr[::-1]:
        r = tn.contract(e)
    result(ctx, r, edges, [labels], [d], "trace")


def outer(ctx, types, cplx):
  with qarr.on(ctx):
    ts, ds, nodes = build(ctx, types, ("ij", "kL", "m"), cplx)
    edges = {x: n[a] for n, lab in zip(nodes, ("ij", "kL", "m")) for a, x in enumerate(lab)}
    how = ctx.choice("how", ["outer_product", "final", "not allowed", "allowed", "between"])
    if how == "outer_product":
      r = tn.outer_product(nodes[0], nodes[1], axis_names=list("ijkL"))
      is_dense(ctx, r.tensor, eins(ctx, ("ij", "kl"), ds[:2], "ijkl"), "outer product")
      r.reorder_edges([edges[x] for x in "kiLj"])
      is_dense(ctx, r.tensor, eins(ctx, ("ij", "kl"), ds[:2], "kilj"), "outer product")
    elif how == "final":
      r = tn.outer_product_final_nodes(nodes, [edges[x] for x in "Lmjki"])
      is_dense(ctx, r.tensor, eins(ctx, ("ij", "kl", "m"), ds, "lmjki"), "outer product")
    elif how == "not allowed":
      ctx.raises(ValueError, lambda: tn.contract_between(nodes[0], nodes[1]), "outer product only when allowed")
    elif how == "allowed":
      r = tn.contract_between(nodes[0], nodes[2], allow_outer_product=True, output_edge_order=[edges[x] for x in "mij"])
      is_dense(ctx, r.tensor, eins(ctx, ("ij", "m"), [ds[0], ds[2]], "mij"), "outer product")
    else:
      ctx.check(tn.flatten_edges_between(nodes[0], nodes[1]) is None, "nothing to flatten")
    kept(ctx, ts, ds)


def ncon(ctx, net, types, cplx):
  labels = NETS[net]
  with qarr.on(ctx):
    ts, ds, _ = build(ctx, types, labels, cplx)
    allx = "".join(labels).lower()
    inner = sorted({x for x in allx if allx.count(x) == 2})
    free = sorted({x for x in allx if allx.count(x) == 1})
    kind = ctx.choice("labels", ["numbers", "order", "names"])
    perm = ctx.choice("output order", list(itertools.permutations(free))[:6])
    if kind == "names":
      lab = {x: x for x in inner}
      lab.update({x: "-" + str(k) + x for k, x in enumerate(perm)})
      r = tn.ncon(list(ts), [[lab[x] for x in l.lower()] for l in labels], out_order=[lab[x] for x in perm], backend="symmetric")
    else:
      order = ctx.choice("order", list(itertools.permutations(range(len(inner))))[:6]) if inner else ()
      lab = {x: 1 + (order[k] if kind == "numbers" else k) for k, x in enumerate(inner)}
      lab.update({x: -1 - k for k, x in enumerate(perm)})
      kw = {}
      if kind == "order" and inner:
        kw = dict(con_order=[lab[inner[k]] for k in order])
      r = tn.ncon(list(ts), [[lab[x] for x in l.lower()] for l in labels], backend="symmetric", **kw)
    is_dense(ctx, r, eins(ctx, labels, ds, "".join(perm)), "ncon")
    kept(ctx, ts, ds)


def axes(ctx, types, cplx):
  """reorder_edges, reorder_axes, arithmetic, copies, conjugation"""
  with qarr.on(ctx):
    kind, _ = CH[types]
    w = World(ctx, kind)
    ts, ds, (a,) = build(ctx, types, ("ijK",), cplx, w)
    t, d = ts[0], ds[0]
    what = ctx.choice("what", ["reorder_edges", "reorder_axes", "arithmetic", "copy", "conj", "copy_node", "fresh"])
    if what in ("reorder_edges", "reorder_axes"):
      p = ctx.choice("permutation", list(itertools.permutations(range(3))))
      es = list(a.edges)
      a.reorder_edges([es[x] for x in p]) if what == "reorder_edges" else a.reorder_axes(list(p))  # pylint: disable=expression-not-assigned
      want = d.transpose(p) if what == "reorder_edges" else d.transpose(np.argsort(p) if False else p)
      is_dense(ctx, a.tensor, want, what)
      q = ctx.choice("second", list(itertools.permutations(range(3))))
      es = list(a.edges)
      a.reorder_edges([es[x] for x in q])
      is_dense(ctx, a.tensor, want.transpose(q), "twice")
    elif what == "arithmetic":
      u, e = w.tensor("u", [CH[types][1][x] for x in "ijk"], [F, F, T], cplx=cplx)
      b = tn.Node(u, backend="symmetric")
      c = ctx.tensor("c", (1,), cplx)[0]
      ctx.eq(dense(ctx, (a + b).tensor), d + e, "sum")
      ctx.eq(dense(ctx, (a - b).tensor), d - e, "difference")
      ctx.eq(dense(ctx, (a * 3).tensor), d * 3, "multiple")
      ctx.eq(dense(ctx, (a / 4).tensor), d / 4, "quotient")
      kept(ctx, [u], [e])
    elif what in ("copy", "conj"):
      labels = ("ijK", "klJ")
      ts2, ds2, nodes = build(ctx, types, labels, cplx, World(ctx, kind))
      edges = join(nodes, labels)
      nm, em = tn.copy(nodes, conjugate=what == "conj")
      r = tn.contract_between(nm[nodes[0]], nm[nodes[1]])
      cd = [np.conj(x) if what == "conj" else x for x in ds2]
      result(ctx, r, {k: em[e] for k, e in edges.items()}, labels, cd, "copy")
      l = legs_of(nm[nodes[0]].tensor)
      want = [[(q, not f) for q, f in o] for o in legs_of(ts2[0])] if what == "conj" else legs_of(ts2[0])
      ctx.check(same_legs(l, want), "flows of the copy")
      kept(ctx, ts2, ds2)
      if what == "conj":
        # a network and its conjugate contract to the squared norm
        nm, em = tn.copy(nodes, conjugate=True)
        for e in edges.values():
          tn.connect(e, em[e])
        v = tn.contractors.greedy(list(nodes) + [nm[n] for n in nodes])
        full = eins(ctx, labels, ds2, "".join(sorted(edges)))
        ctx.eq(one(ctx, scalar(ctx, v.tensor.item())), one(ctx, np.sum(full * np.conj(full))), "squared norm")
    elif what == "copy_node":
      c = a.copy()
      cc = a.copy(conjugate=True)
      is_dense(ctx, c.tensor, d, "copy")
      is_dense(ctx, cc.tensor, np.conj(d), "conjugated copy")
      x = no.conj(a) if hasattr(no, "conj") else cc
      is_dense(ctx, x.tensor, np.conj(d), "conj")
    else:
      a.fresh_edges()
      is_dense(ctx, a.tensor, d, "tensor kept")
    kept(ctx, ts, ds)


def flatten(ctx, types, cplx):
  """flatten_edges, split_edge"""
  with qarr.on(ctx):
    ts, ds, nodes = build(ctx, types, ("ijk",), cplx)
    a, d = nodes[0], ds[0]
    which = ctx.choice("flattened", [(0, 1), (1, 0), (0, 2), (2, 1), (1, 2), (2, 0, 1), (0, 1, 2)])
    rest = [x for x in range(3) if x not in which]
    e = tn.flatten_edges([a[x] for x in which])
    dims = [d.shape[x] for x in which]
    perm = d.transpose(rest + list(which))
    is_dense(ctx, a.tensor, perm.reshape([d.shape[x] for x in rest] + [int(np.prod(dims))]), "flattened")
    ctx.check(a[len(rest)] is e and e.is_dangling(), "the new edge is the last one")
    if ctx.choice("split", [False, True]):
      es = tn.split_edge(e, tuple(dims))
      ctx.check(len(es) == len(which), "one edge for each dimension")
      a.reorder_edges([x for x in a.edges if x not in es] + list(es))
      is_dense(ctx, a.tensor, perm, "split again")


def flat_pair(ctx, types, cplx):
  """flatten and split the edges between two nodes"""
  labels = ("ijk", "JlKI")
  with qarr.on(ctx):
    ts, ds, nodes = build(ctx, types, labels, cplx)
    edges = join(nodes, labels)
    sh = sorted(tn.get_shared_edges(*nodes), key=lambda e: e.name)
    names = [e.name for e in sh]
    which = ctx.choice("flattened", [c for n in (1, 2, 3) for c in itertools.permutations(range(3), n)])
    e = tn.flatten_edges([sh[x] for x in which]) if ctx.choice("how", ["some", "all"]) == "some" else tn.flatten_edges_between(*nodes)
    ctx.check({x for x in e.get_nodes()} == set(nodes), "still between the nodes")
    if ctx.choice("contract", ["edge", "between", "split"]) == "split" and len(which) < 3:
      dims = tuple(ds[0].shape["ijk".index(names[x])] for x in which)
      if e.dimension == int(np.prod(dims)):
        tn.split_edge(e, dims)
    r = tn.contract_between(*nodes)
    result(ctx, r, edges, labels, ds, "contraction after flattening")


def splits(ctx, types, cplx, how):
  """split_node* for every partition of the legs"""
  ctx.nonzero_svd()
  with qarr.on(ctx):
    ts, ds, nodes = build(ctx, types, ("ijk",), cplx)
    a, d = nodes[0], ds[0]
    p = ctx.choice("order", list(itertools.permutations(range(3))))
    k = ctx.choice("left", [1, 2])
    es = list(a.edges)
    left, right = [es[x] for x in p[:k]], [es[x] for x in p[k:]]
    if how == "full_svd":
      u, s, v, rest = tn.split_node_full_svd(a, left, right)
      parts = [u, s, v]
    elif how == "svd":
      u, v, rest = tn.split_node(a, left, right)
      parts = [u, v]
    elif how == "qr":
      parts, rest = list(tn.split_node_qr(a, left, right)), None
    else:
      parts, rest = list(tn.split_node_rq(a, left, right)), None
    if rest is not None:
      ctx.check(np.asarray(rest.data).size == 0, "nothing discarded")
    ctx.check([parts[0][x] is e for x, e in enumerate(left)] == [True] * len(left), "left edges")
    ctx.check([parts[-1][x + 1] is e for x, e in enumerate(right)] == [True] * len(right), "right edges")
    iso = {"qr": 0, "rq": 1}.get(how)
    if iso is not None:
      q = dense(ctx, parts[iso].tensor)
      if q.size:
        m = q.reshape(-1, q.shape[-1]) if iso == 0 else np.conj(q.reshape(q.shape[0], -1)).T
        ctx.eq(np.conj(m).T @ m, np.eye(m.shape[1]), "isometric")
    r = parts[0]
    for x in parts[1:]:
      r = r @ x
    r.reorder_edges(left + right)
    is_dense(ctx, r.tensor, d.transpose(p), "recombined")
    kept(ctx, ts, ds)


def refused(ctx, types):
  """nodes of different kinds and legs that do not fit"""
  with qarr.on(ctx):
    ts, ds, nodes = build(ctx, types, ("ijk", "Kl"), False)
    dn = tn.Node(np.ones((2, 2)), backend="numpy")
    what = ctx.choice("what", ["backends", "flows", "dimension", "type"])
    if what == "backends":
      e = nodes[0][2]
      tn.connect(e, dn[0])
      ctx.raises((ValueError, TypeError), lambda: tn.contract_between(nodes[0], dn), "different backends")
    elif what == "flows":
      x = tn.Node(ts[0], backend="symmetric")
      tn.connect(nodes[0][2], x[2])  # both flow outwards
      if CH[types][0] == "U1":
        ctx.raises(ValueError, lambda: tn.contract_between(nodes[0], x), "charges that do not fit")
    elif what == "dimension":
      if ds[0].shape[0] == ds[1].shape[1]:
        return
      ctx.raises(ValueError, lambda: tn.connect(nodes[0][0], nodes[1][1]), "different dimensions")
    else:
      ctx.raises(TypeError, lambda: tn.Node(np.ones((2, 2)), backend="symmetric"), "not a block-sparse tensor")
    kept(ctx, ts, ds)


def tensors(ctx, types, cplx):
  """tn.Tensor on the symmetric backend"""
  with qarr.on(ctx):
    w = World(ctx, CH[types][0])
    ts, ds, _ = build(ctx, types, ("ijk", "KJl"), cplx, w)
    a, b = [tn.Tensor(t, backend="symmetric") for t in ts]
    d, e = ds
    what = ctx.choice("what", ["tensordot", "conj", "transpose", "reshape", "scale", "sum", "ncon", "norm", "hconj"])
    if what == "tensordot":
      is_dense(ctx, tn.tensordot(a, b, ([2, 1], [0, 1])).array, np.tensordot(d, e, ([2, 1], [0, 1])), what)
    elif what == "conj":
      is_dense(ctx, a.conj().array, np.conj(d), what)
    elif what == "transpose":
      p = ctx.choice("permutation", list(itertools.permutations(range(3))))
      is_dense(ctx, a.transpose(p).array, d.transpose(p), what)
    elif what == "hconj":
      is_dense(ctx, a.hconj().array, np.conj(d.transpose()), what)
    elif what == "reshape":
      s = (d.shape[0] * d.shape[1], d.shape[2])
      r = a.reshape(s)
      is_dense(ctx, r.array, d.reshape(s), what)
      is_dense(ctx, r.reshape(d.shape).array, d, "and back")
    elif what == "scale":
      is_dense(ctx, (a * 3).array, d * 3, what)
      is_dense(ctx, (3 * a).array, d * 3, what)
      is_dense(ctx, (a / 4).array, d / 4, what)
    elif what == "sum":
      is_dense(ctx, (a + a).array, d + d, what)
      is_dense(ctx, (a - a).array, d * 0, what)
    elif what == "ncon":
      r = tn.ncon([a, b], [[-2, 1, 2], [2, 1, -1]], backend="symmetric")
      is_dense(ctx, r.array if isinstance(r, tn.Tensor) else r, eins(ctx, ("ijk", "kjl"), ds, "li"), what)
    else:
      n = tn.norm(a)
      n = scalar(ctx, n)
      ctx.eq(one(ctx, n * n), one(ctx, np.sum(d * np.conj(d))), what)
    kept(ctx, ts, ds)


def scenarios(tier):
  out = []
  th = tier == "thorough"

  def add(what, fn, *args):
    out.append(Scenario(f"{what} " + " ".join(str(a) if not isinstance(a, bool) else ("c" if a else "r") for a in args), fn, *args))

  for types in CH:
    sym = types == "symbolic"
    for cplx in (False, True):
      if sym and cplx:
        continue
      small = ("chain", "outer", "closed")
      for net in small if sym else NETS:
        for name in CONTRACTORS:
          add("contractor", contractors, net, types, cplx, name)
        add("pairwise", pairwise, net, types, cplx)
        for how in ("edge", "parallel", "flatten"):
          add("edges", byedge, net, types, cplx, how)
        add("ncon", ncon, net, types, cplx)
      if not sym:
        add("operator", operator, types, cplx)
        add("ordered", ordered, types, cplx)
        add("traces", traces, types, cplx)
        add("flatten pair", flat_pair, types, cplx)
      add("outer products", outer, types, cplx)
      add("axes", axes, types, cplx)
      add("flatten", flatten, types, cplx)
      add("Tensor", tensors, types, cplx)
      for how in ("svd", "full_svd", "qr", "rq"):
        add("split_node", splits, types, cplx, how)
    if not sym:
      add("refused", refused, types)
  return out
