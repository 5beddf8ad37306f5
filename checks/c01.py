"""C01: ncon equals the labelled sum, for every labelling within the bounds (labels are symbolic integers)."""
import itertools
import numpy as np
from runner import Scenario
import tensornetwork as tn

BOUNDS = ("(a) arbitrary integer labels in [-3,3]\\{0} (and two integers beyond) on up to 3 tensors with up to 5 axes in total (thorough: 6), "
          "dimension 2; (b) every label structure up to renaming on 2..4 tensors with up to 6 axes in total (thorough 7), "
          "label-dependent dimensions 2 and 3, integer or string labels, plain arrays or tn.Tensor; all entries symbolic, complex")
OUTSIDE = "more axes; other backends (C24); check_network=False"


def spec(tensors, labels, out):
  """sum over closed labels of the product of entries; plain numpy einsum in sublist form"""
  ids = {}
  args = []
  for t, ls in zip(tensors, labels):
    args += [t, [ids.setdefault(l, len(ids)) for l in ls]]
  r = np.einsum(*args, [ids[l] for l in out])
  return r


def order(labels):
  flat = {l for ls in labels for l in ls}
  ints = sorted([l for l in flat if not isinstance(l, str) and l < 0], reverse=True)
  strs = sorted(l for l in flat if isinstance(l, str) and l[0] == "-")
  return ints + strs


def arbitrary(ctx, ranks, wide=False):
  """(a) labels are opaque symbolic integers"""
  k = sum(ranks)
  lab = [ctx.label(f"l{i}", -40 if wide else -3, 40 if wide else 3) for i in range(k)]
  for l in lab:
    ctx.assume(l != 0)
  it = iter(lab)
  net = [[next(it) for _ in range(r)] for r in ranks]
  ts = [ctx.tensor(f"t{i}", (2,) * r) for i, r in enumerate(ranks)]
  res = tn.ncon([t.copy() for t in ts], net, backend="numpy")
  # the path has decided how the labels compare; rebuild that order with independent comparisons
  classes = []
  for l in lab:
    if not any(l == c for c in classes):
      classes.append(l)
  flat = [next(i for i, c in enumerate(classes) if l == c) for l in lab]
  neg = [i for i, c in enumerate(classes) if c < 0]
  neg.sort(key=_Key(classes))
  it = iter(flat)
  ids = [[next(it) for _ in range(r)] for r in ranks]
  ctx.eq(res, spec(ts, ids, neg), "ncon equals the labelled sum")


def _Key(classes):
  import functools
  return functools.cmp_to_key(lambda a, b: -1 if classes[a] > classes[b] else (1 if classes[b] > classes[a] else 0))


def growth(ctx, k, maxlab, first=()):
  """labels up to renaming: closed labels 1,2,.. and open labels -1,-2,.. in order of first appearance"""
  out, p, n = [], 0, 0
  for i in range(k):
    lo, hi = -min(n + 1, maxlab), min(p + 1, maxlab)
    if i < len(first):
      v = first[i]
    else:
      v = ctx.pick(f"l{i}", lo, hi - 1)
      v = v + 1 if v >= 0 else v
    p, n = max(p, v), max(n, -v)
    out.append(v)
  return out


def structures(ctx, ranks, kind="int", cplx=False, first=(), maxlab=4):
  """(b) every structure up to renaming"""
  k = sum(ranks)
  lab = growth(ctx, k, maxlab, first)
  dims = {l: 2 + (abs(l) % 2 if l > 0 else (abs(l) + 1) % 2) for l in lab}
  if k > 5:
    dims = {l: 2 for l in lab}
  if kind == "str":
    names = {l: (f"z{9 - l}" if l > 0 else f"-a{-l}") for l in lab}
  elif kind == "mix":
    names = {l: ((f"z{9 - l}" if l > 0 else f"-a{9 + l}") if l % 2 else l * 3) for l in lab}
  elif kind == "rev":  # reversed numbering: other default orders
    names = {l: (30 - l if l > 0 else -30 - l) for l in lab}
  else:
    names = {l: l for l in lab}
  it = iter(lab)
  ids = [[next(it) for _ in range(r)] for r in ranks]
  net = [[names[l] for l in ls] for ls in ids]
  ts = [ctx.tensor(f"t{i}", tuple(dims[l] for l in ls), cplx) for i, ls in enumerate(ids)]
  if kind == "mix":
    args = [tn.Tensor(t.copy(), backend="numpy") for t in ts]
  else:
    args = [t.copy() for t in ts]
  res = tn.ncon(args, [tuple(n) for n in net] if kind == "str" else net, backend="numpy")
  if kind == "mix":
    ctx.check(isinstance(res, tn.Tensor), "Tensor in, Tensor out")
    res = res.array
  ctx.eq(res, spec(ts, net, order(net)), f"ncon {net}")


def scenarios(tier):
  out = []
  thorough = tier == "thorough"
  for ranks in [(2,), (3,), (1, 1), (2, 1), (1, 1, 1), (2, 2), (4,), (1, 2, 1), (3, 1)]:
    out.append(Scenario(f"labels {ranks}", arbitrary, ranks, validate=4))
  out.append(Scenario("labels wide (2, 1)", arbitrary, (2, 1), wide=True))
  if thorough:
    for ranks in [(3, 2), (2, 2, 1), (1, 1, 1, 1)]:
      out.append(Scenario(f"labels {ranks}", arbitrary, ranks, validate=4))
  sets = [(2, 2), (3, 1), (2, 2, 1), (3, 2), (1, 1, 1, 2), (4, 1), (5,)]
  for ranks in sets:
    for kind in ("int", "str", "mix", "rev"):
      out.append(Scenario(f"structures {kind} {ranks}", structures, ranks, kind, cplx=(kind == "str"), validate=4))
  sets = [(2, 2, 2), (3, 3), (1, 2, 3), (2, 1, 2, 1)]
  if thorough:
    sets += [(3, 2, 2), (2, 2, 2, 1), (4, 3), (1, 1, 1, 1, 2)]
  for ranks in sets:
    for f in itertools.product((-1, 1), (-2, -1, 1, 2)):
      if (f[0] == -1 and f[1] in (-2, -1, 1)) or (f[0] == 1 and f[1] in (-1, 1, 2)):
        out.append(Scenario(f"structures {ranks} {f}", structures, ranks, "int", first=f, maxlab=3, validate=1))
  return out
