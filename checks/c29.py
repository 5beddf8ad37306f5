"""C29: the Keras layers."""
import logging
import os
import sys
import warnings
import numpy as np
import tensornetwork as tn
import sym
from sym import S, Unsupported
from runner import Scenario
import shims
from shims import T, TF, TFArr
from tensornetwork.tn_keras import layers as L

BOUNDS = ("DenseDecomp, DenseMPO (3 to 5 nodes), DenseCondenser, DenseExpander (0 to 3 nodes), DenseEntangler (2 or 3 legs, 1 to 3 levels, equal "
          "and different input and output dimensions) and Conv2DMPO (2 and 3 nodes, kernels up to 2x3, strides 1 and 2, same and valid padding, "
          "dilation 1 and 2, both data formats) of small sizes, with and without bias and with an element-wise activation; batches of one to "
          "three elements and one additional batch dimension; all entries of kernels, bias and input arbitrary")
OUTSIDE = "training, initialisers and regularisers; serialisation of a whole model; rounding; graph mode with unknown shapes"
ASSUMPTIONS = ["tf.vectorized_map applies its function to each element; tf.nn.conv2d computes the documented cross-correlation",
               "NCHW convolutions, which TensorFlow does not offer on a CPU, are replayed through their definition by transposition"]
TIMEOUT = 100
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
shims.preload(("tensorflow",))
warnings.filterwarnings("ignore")
logging.getLogger("tensorflow").setLevel(logging.ERROR)


# -- environment ---------------------------------------------------------------------------------------------------------
def conv2d(x, w, strides, padding, data_format="NHWC", dilations=None, name=None):
  """definition of tf.nn.conv2d"""
  x, w = np.asarray(x), np.asarray(w)
  if data_format == "NCHW":
    x = x.transpose(0, 2, 3, 1)
  two = lambda v: (v, v) if isinstance(v, (int, np.integer)) else tuple(v)
  s, d = two(strides), two(dilations or 1)
  if w.ndim != 4 or x.ndim != 4 or x.shape[3] != w.shape[2]:
    raise ValueError("conv2d shapes")
  n, c = x.shape[0], x.shape[3]
  k = [(w.shape[i] - 1) * d[i] + 1 for i in (0, 1)]
  size = [x.shape[1], x.shape[2]]
  if padding == "SAME":
    out = [-(-size[i] // s[i]) for i in (0, 1)]
    pad = [max((out[i] - 1) * s[i] + k[i] - size[i], 0) for i in (0, 1)]
    off = [p // 2 for p in pad]
  else:
    out = [-(-(size[i] - k[i] + 1) // s[i]) for i in (0, 1)]
    off = [0, 0]
  r = np.empty((n, out[0], out[1], w.shape[3]), dtype=x.dtype)
  for b, i, j, f in np.ndindex(*r.shape):
    t = 0 * x[b, 0, 0, 0]
    for p in range(w.shape[0]):
      for q in range(w.shape[1]):
        y, z = i * s[0] + p * d[0] - off[0], j * s[1] + q * d[1] - off[1]
        if 0 <= y < size[0] and 0 <= z < size[1]:
          for a in range(c):
            t = t + x[b, y, z, a] * w[p, q, a, f]
    r[b, i, j, f] = t
  return r.transpose(0, 3, 1, 2) if data_format == "NCHW" else r


class NN:
  @staticmethod
  def conv2d(*a, **k):
    a = list(a)
    names = ("input", "filters")
    for i, nm in enumerate(names):
      if nm in k:
        a.insert(i, k.pop(nm))
    return T(conv2d(*a, **k))

  @staticmethod
  def bias_add(value, bias, data_format=None, name=None):
    value, bias = np.asarray(value), np.asarray(bias)
    if data_format and data_format.startswith("NC"):
      bias = bias.reshape((1, -1) + (1,) * (value.ndim - 2))
    return T(value + bias)


def vectorized_map(fn, elems, fallback_to_while_loop=True, warn=True):
  if isinstance(elems, (tuple, list)):
    n = elems[0].shape[0]
    rows = [fn(type(elems)(e[i] for e in elems)) for i in range(n)]
  else:
    rows = [fn(elems[i]) for i in range(elems.shape[0])]
  return TF.stack(rows, axis=0)


class patched:
  """tensorflow as the layer modules see it"""

  def __init__(self, ctx):
    self.ctx = ctx

  def __enter__(self):
    self.on = shims.on(self.ctx, "tensorflow")
    self.on.__enter__()
    self.saved = []
    if self.ctx.symbolic:
      type(TF).nn = NN
      type(TF).vectorized_map = staticmethod(vectorized_map)
      type(TF).map_fn = staticmethod(lambda fn, elems, **k: vectorized_map(fn, elems))
      sym.ENG.stats.stubs.add("tf.vectorized_map: maps over the first axis; tf.nn.conv2d: its definition")
      for name, mod in list(sys.modules.items()):
        if name.startswith("tensornetwork.tn_keras.") and "tf" in vars(mod):
          self.saved.append((mod, mod.tf))
          mod.tf = TF
    else:
      import tensorflow as tf
      self.conv = tf.nn.conv2d

      def conv(x, w, strides, padding, data_format="NHWC", **k):
        if data_format == "NCHW":
          return tf.transpose(self.conv(tf.transpose(x, (0, 2, 3, 1)), w, strides, padding, data_format="NHWC", **k), (0, 3, 1, 2))
        return self.conv(x, w, strides, padding, data_format=data_format, **k)
      tf.nn.conv2d = conv
    return self

  def __exit__(self, *a):
    if not self.ctx.symbolic:
      import tensorflow as tf
      tf.nn.conv2d = self.conv
    for mod, tf_ in self.saved:
      mod.tf = tf_
    return self.on.__exit__(*a)


class Bare:
  """the layer's attributes with its variables replaced by tensors; methods come from the layer's class"""

  def __init__(self, layer, values):
    object.__setattr__(self, "_cls", type(layer))
    by_id = {id(w): T(v) for w, v in zip(layer.weights, values)}

    def conv(v):
      if id(v) in by_id:
        return by_id[id(v)]
      if isinstance(v, (list, tuple)):
        return [conv(x) for x in v]
      return v
    for k, v in list(vars(layer).items()):
      self.__dict__[k] = conv(v)

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    f = getattr(self._cls, name)
    return f.__get__(self) if callable(f) else f


def apply(ctx, layer, values, x):
  """what the layer computes"""
  with patched(ctx) as p:
    if ctx.symbolic:
      out = type(layer).call(Bare(layer, values), T(x))
      ctx.check(isinstance(out, TFArr), "a tensor")
      return p.on.out(out)
    layer.set_weights([np.asarray(v, dtype=np.float64) for v in values])
    return np.asarray(layer(np.asarray(x, dtype=np.float64)))


def make(cls, args, kw, shape):
  layer = cls(*args, dtype="float64", **kw)
  layer.build(shape)
  return layer


def square(y):
  return y * y


def run(ctx, cls, args, kw, shape, ref, support=None):
  """layer(x) against ref(x_rows, weights)"""
  bias = ctx.choice("bias", [True, False])
  act = ctx.choice("activation", [None, "square"])
  kw = dict(kw, use_bias=bias)
  layer = make(cls, args, kw, shape)
  if act:
    layer.activation = square
  values = []
  for i, w in enumerate(layer.weights):
    values.append(ctx.tensor(f"w{i}", tuple(w.shape)))
  if support is None:
    x = ctx.tensor("x", shape)
  else:
    x = np.zeros(shape, dtype=object if ctx.symbolic else float)
    for i, v in zip(support, ctx.tensor("x", (len(support),))):
      x.reshape(-1)[i] = v
  x0, v0 = x.copy(), [v.copy() for v in values]
  out = apply(ctx, layer, values, x)
  nodes, b = (values[:-1], values[-1]) if bias else (values, None)
  expected = ref(x, nodes, b)
  if act:
    expected = expected * expected
  ctx.check(tuple(out.shape) == tuple(expected.shape), f"shape {tuple(out.shape)} instead of {tuple(expected.shape)}")
  ctx.eq(out, expected, "layer output")
  ctx.check(tuple(layer.compute_output_shape(tuple(shape))) == tuple(expected.shape), "compute_output_shape")
  ctx.eq(x, x0, "inputs unchanged")
  for v, o in zip(values, v0):
    ctx.eq(v, o, "weights unchanged")
  if not act:
    again = type(layer).from_config(layer.get_config())
    again.build(shape)
    ctx.check([tuple(w.shape) for w in again.weights] == [tuple(w.shape) for w in layer.weights], "shapes of a layer made from the config")
    ctx.eq(apply(ctx, again, values, x), expected, "a layer made from the config computes the same")


def rows(fn):
  """reference for one vector -> reference for any batch shape"""
  def ref(x, nodes, bias):
    flat = x.reshape(-1, x.shape[-1])
    out = [np.asarray(fn(v, nodes)).reshape(-1) for v in flat]
    out = np.stack(out)
    if bias is not None:
      out = out + bias[None, :]
    return out.reshape(x.shape[:-1] + (out.shape[-1],))
  return ref


def dot(a, b, ax):
  return np.tensordot(a, b, ax)


def ref_decomp(v, nodes):
  a, b = nodes
  return dot(dot(v, a, 1), b, 1)


def ref_mpo(v, nodes):
  n = len(nodes)
  k = nodes[0].shape[0]
  # cur[bond, rest of the input..., outputs...] ; first node: in, bond, out
  t = v.reshape((k,) * n)
  cur = dot(nodes[0], t, ([0], [0]))  # bond, out, rest
  cur = np.moveaxis(cur, 1, -1)  # bond, rest, out
  for i in range(1, n - 1):
    cur = dot(nodes[i], cur, ([0, 1], [1, 0]))  # bond', out, rest, outs
    cur = np.moveaxis(cur, 1, -1)
  cur = dot(cur, nodes[-1], ([1, 0], [0, 1]))  # outs, out
  return cur


def ref_condenser(base):
  def fn(v, nodes):
    o = nodes[0].shape[0] if nodes else v.shape[0]
    t = v.reshape((base,) * len(nodes) + (o,))
    for m in nodes:
      t = dot(t, m, ([t.ndim - 1, t.ndim - 2], [0, 1]))
    return t
  return fn


def ref_expander(v, nodes):
  t = v
  for m in nodes:
    t = dot(t, m, ([t.ndim - 1], [0]))
  return t


def ref_entangler(legs, k):
  def fn(v, nodes):
    t = v.reshape((k,) * legs)
    order = list(range(legs))  # which leg each axis of t belongs to
    for i, m in enumerate(nodes):
      p, q = i % legs, (i + 1) % legs
      t = dot(t, m, ([order.index(p), order.index(q)], [0, 1]))
      order = [o for o in order if o not in (p, q)] + [p, q]
    return t
  return fn


def ref_conv(kw):
  def ref(x, nodes, bias):
    w = nodes[0]  # in, k0, bond, out
    ker = np.moveaxis(w, 2, -1)  # in, k0, out, bond
    ins, outs = [w.shape[0]], [w.shape[3]]
    ker = ker.transpose(1, 0, 2, 3)  # k0, IN, OUT, bond
    for m in nodes[1:]:
      ker = dot(ker, m, ([3], [1]))  # k0, IN, OUT, in, nextbond, out
      ker = ker.transpose(0, 1, 3, 2, 5, 4)
      ker = ker.reshape(ker.shape[0], ker.shape[1] * ker.shape[2], ker.shape[3] * ker.shape[4], ker.shape[5])
    ker = ker.transpose(0, 3, 1, 2)
    df = "NCHW" if kw.get("data_format") == "channels_first" else "NHWC"
    out = conv2d(x, ker, kw.get("strides", 1), kw.get("padding", "same").upper(), df, kw.get("dilation_rate", 1))
    if bias is not None:
      out = out + (bias[None, :, None, None] if df == "NCHW" else bias)
    return out
  return ref


def rejected(ctx):
  ctx.raises(AssertionError, lambda: L.DenseMPO(4, num_nodes=2, bond_dim=2), "an MPO needs three nodes")
  ctx.raises(AssertionError, lambda: L.DenseEntangler(4, num_legs=1, num_levels=1), "legs")
  ctx.raises(AssertionError, lambda: L.DenseEntangler(4, num_legs=2, num_levels=0), "levels")
  ctx.raises(ValueError, lambda: L.Conv2DMPO(4, 2, num_nodes=1, bond_dim=2), "nodes")
  ctx.raises(ValueError, lambda: L.Conv2DMPO(4, 2, num_nodes=2, bond_dim=2, padding="full"), "padding")
  ctx.raises(ValueError, lambda: L.Conv2DMPO(4, 2, num_nodes=2, bond_dim=2, data_format="x"), "data format")
  n = ctx.pick("dim", 1, 70)
  k = ctx.choice("nodes", [3, 4, 5, 6])
  root = [b for b in range(1, 80) if b**k == n]
  for cls, args, kw in ((L.DenseMPO, (1,), dict(num_nodes=k, bond_dim=1)), (L.DenseEntangler, (1,), dict(num_legs=k, num_levels=1)),
                        (L.DenseMPO, (n,), dict(num_nodes=k, bond_dim=1)), (L.DenseEntangler, (n,), dict(num_legs=k, num_levels=1))):
    shape = (1, n) if args == (1,) else (1, 1)
    if root:
      make(cls, args, kw, shape)
    else:
      ctx.raises(AssertionError, lambda: make(cls, args, kw, shape), f"{n} is not a power")


def scenarios(tier):
  out = []

  def add(name, fn, *a):
    out.append(Scenario(name, fn, *a))
  for batch in ((1,), (3,), (2, 2)):
    b = "x".join(map(str, batch))
    add(f"decomp batch={b}", run, L.DenseDecomp, (3,), dict(decomp_size=2), batch + (2,), rows(ref_decomp))
    add(f"mpo 3 nodes batch={b}", run, L.DenseMPO, (8,), dict(num_nodes=3, bond_dim=2), batch + (8,), rows(ref_mpo))
    add(f"condenser batch={b}", run, L.DenseCondenser, (), dict(exp_base=2, num_nodes=2), batch + (8,), rows(ref_condenser(2)))
    add(f"expander batch={b}", run, L.DenseExpander, (), dict(exp_base=2, num_nodes=2), batch + (2,), rows(ref_expander))
    add(f"entangler batch={b}", run, L.DenseEntangler, (8,), dict(num_legs=3, num_levels=1), batch + (8,), rows(ref_entangler(3, 2)))
  add("mpo 4 nodes", run, L.DenseMPO, (1,), dict(num_nodes=4, bond_dim=2), (1, 16), rows(ref_mpo))
  add("mpo 4 nodes out", run, L.DenseMPO, (16,), dict(num_nodes=4, bond_dim=2), (1, 1), rows(ref_mpo))
  add("mpo 3 nodes 1 to 27", run, L.DenseMPO, (27,), dict(num_nodes=3, bond_dim=3), (2, 1), rows(ref_mpo))
  add("mpo 5 nodes", run, L.DenseMPO, (32,), dict(num_nodes=5, bond_dim=1), (1, 32), rows(ref_mpo))
  add("mpo 5 nodes 3125", run, L.DenseMPO, (1,), dict(num_nodes=5, bond_dim=1), (1, 3125), rows(ref_mpo),
      [0, 1, 624, 625, 1562, 3100, 3124])
  for base, n, o in ((2, 1, 3), (3, 1, 2), (2, 3, 2), (3, 2, 1)):
    add(f"condenser base={base} nodes={n} out={o}", run, L.DenseCondenser, (), dict(exp_base=base, num_nodes=n), (2, o * base**n),
        rows(ref_condenser(base)))
  for base, n, d in ((2, 1, 3), (3, 1, 2), (2, 3, 2), (3, 2, 1)):
    add(f"expander base={base} nodes={n} in={d}", run, L.DenseExpander, (), dict(exp_base=base, num_nodes=n), (2, d), rows(ref_expander))
  for legs, levels, i, o in ((2, 1, 2, 2), (2, 1, 3, 2), (2, 1, 2, 3), (2, 2, 2, 2), (2, 2, 2, 1), (2, 3, 1, 2), (3, 1, 1, 2), (3, 1, 2, 1),
                             (3, 2, 1, 2), (3, 2, 2, 1), (3, 3, 1, 1), (4, 1, 2, 1), (4, 2, 1, 2)):
    add(f"entangler legs={legs} levels={levels} in={i} out={o}", run, L.DenseEntangler, (o**legs,), dict(num_legs=legs, num_levels=levels),
        (2 if i + o < 5 else 1, i**legs), rows(ref_entangler(legs, i)))
  for df in ("channels_last", "channels_first"):
    for kern, strides, pad, dil, size, nodes, filt, ch in (
        ((2, 2), 1, "same", 1, (3, 3), 2, 4, 4), ((2, 3), (2, 1), "valid", (1, 1), (3, 4), 2, 4, 1), ((2, 2), 1, "valid", (2, 1), (4, 2), 2, 1, 4),
        ((3, 2), (1, 2), "same", 1, (3, 3), 2, 1, 4), ((1, 2), 1, "same", (1, 2), (2, 4), 3, 8, 1), ((2, 1), 1, "valid", 1, (2, 1), 3, 1, 8),
        (2, 1, "same", 1, (2, 4), 2, 4, 1)):
      kw = dict(num_nodes=nodes, bond_dim=2, strides=strides, padding=pad, dilation_rate=dil, data_format=df)
      shape = (2,) + size + (ch,) if df == "channels_last" else (2, ch) + size
      add(f"conv {df} kernel={kern} strides={strides} {pad} dilation={dil} {size} nodes={nodes} {ch}->{filt}", run, L.Conv2DMPO, (filt, kern), kw,
          shape, ref_conv(kw))
  add("rejected", rejected)
  return out
