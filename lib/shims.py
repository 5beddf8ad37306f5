"""Models of the jax.numpy and TensorFlow functions the backends call, on object arrays.

While a SymCtx scenario runs `with on(ctx, "jax")` the module globals jnp/libjax (tf) of the backend modules are these models,
so that the real backend source executes on symbolic entries.  A ConcreteCtx keeps the real libraries: every validated path
compares the model with the library it stands for.
"""
import string
import types
import numpy as np
import sym
from sym import S, SymBool, Unsupported
import stubs
import tensornetwork as tn
from tensornetwork.backends import backend_factory


def _conv(x):
  return x


# -- jax.numpy -----------------------------------------------------------------------------------------------------------
class JArr(np.ndarray):
  """jax arrays are immutable"""

  def __setitem__(self, *a):
    raise TypeError("JAX arrays are immutable")


class _JNP:
  """jax.numpy implements the NumPy functions (its documented contract), with a precision argument in addition"""
  ndarray = np.ndarray

  class linalg:
    svd = staticmethod(lambda *a, **k: np.linalg.svd(*a, **k))
    qr = staticmethod(lambda *a, **k: np.linalg.qr(*a, **k))
    eigh = staticmethod(lambda *a, **k: np.linalg.eigh(*a, **k))
    inv = staticmethod(lambda *a, **k: np.linalg.inv(*a, **k))
    norm = staticmethod(lambda *a, **k: np.linalg.norm(*a, **k))

  def __getattr__(self, name):
    f = getattr(np, name)
    if isinstance(f, type) or not callable(f):
      return f

    def g(*a, **k):
      k.pop("precision", None)
      return f(*a, **k)

    return g


JNP = _JNP()


def _dynamic_slice(x, start, sizes):
  idx = []
  for s, z, d in zip(start, sizes, x.shape):
    s, z = int(s), int(z)
    if z > d or z < 0:
      raise TypeError("slice size")
    if s < 0:
      s += d
    s = min(max(s, 0), d - z)  # start indices are clamped
    idx.append(slice(s, s + z))
  return x[tuple(idx)]


class _TreeUtil:

  @staticmethod
  def Partial(f, *a, **k):
    return lambda *b, **l: f(*a, *b, **{**k, **l})


class _While:
  pass


def _fori_loop(lo, hi, body, val):
  for i in range(int(lo), int(hi)):
    val = body(i, val)
  return val


def _while_loop(cond, body, val):
  n = 0
  while bool(cond(val)):
    val = body(val)
    n += 1
    if n > 200:
      raise Unsupported("while_loop bound")
  return val


def _cond(pred, tf_, ff_, *ops):
  return tf_(*ops) if bool(pred) else ff_(*ops)


LIBJAX = types.SimpleNamespace(
    numpy=JNP, jit=lambda f, *a, **k: f, tree_util=_TreeUtil,
    lax=types.SimpleNamespace(dynamic_slice=_dynamic_slice, fori_loop=_fori_loop, while_loop=_while_loop, cond=_cond,
                              Precision=types.SimpleNamespace(DEFAULT=None, HIGHEST=None)))


# -- tensorflow ----------------------------------------------------------------------------------------------------------
class TShape(tuple):

  def as_list(self):
    return list(self)

  @property
  def ndims(self):
    return len(self)

  @property
  def rank(self):
    return len(self)

  def is_fully_defined(self):
    return True

  def __getitem__(self, k):
    r = tuple.__getitem__(self, k)
    return TShape(r) if isinstance(k, slice) else r

  def __add__(self, o):
    return TShape(tuple(self) + tuple(o))


class TFArr(np.ndarray):
  """stands for an eager tf.Tensor"""
  __array_priority__ = 500

  def get_shape(self):
    return self.shape

  @property
  def shape(self):
    return TShape(np.ndarray.shape.__get__(self))

  def numpy(self):
    return np.asarray(self)

  def __setitem__(self, *a):
    raise TypeError("tf.Tensor does not support item assignment")

  # tensors are immutable: x += y makes a new one
  def __iadd__(self, o):
    return self + o

  def __isub__(self, o):
    return self - o

  def __imul__(self, o):
    return self * o

  def __itruediv__(self, o):
    return self / o

  def __getitem__(self, k):
    r = np.ndarray.__getitem__(self, k)
    return r if isinstance(r, np.ndarray) else T(r)

  def __bool__(self):
    return bool(np.asarray(self).item())

  def set_shape(self, s):
    if tuple(s) != tuple(self.shape):
      raise ValueError("set_shape")

  def __matmul__(self, o):
    return TF.matmul(self, o)


def T(x):
  """object array (or integer array) as a tf tensor"""
  if isinstance(x, TFArr):
    return x
  if isinstance(x, (list, tuple)):
    x = [int(v) if isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype != object else v for v in x]
  a = np.asarray(x) if not isinstance(x, S) else x.reshape(())
  if isinstance(x, (list, tuple)) and len(x) == 0:
    a = np.zeros((0,), dtype=np.float32)
  out = np.empty(a.shape, dtype=a.dtype)
  out[...] = a
  return out.view(TFArr)


def _ints(x):
  return [int(v) for v in np.asarray(x).ravel()] if np.asarray(x).ndim else int(np.asarray(x))


def _axis(a):
  if a is None:
    return None
  a = _ints(a)
  return tuple(a) if isinstance(a, list) else a


def _same(a, b):
  pass


class _Linalg:

  @staticmethod
  def svd(a, full_matrices=False, compute_uv=True):
    u, s, v = np.linalg.svd(np.asarray(a), full_matrices=full_matrices)
    return T(s), T(u), T(np.conj(v.T))

  @staticmethod
  def qr(a, full_matrices=False):
    q, r = stubs.qr(sym.arr(np.asarray(a)), "complete" if full_matrices else "reduced", real_diagonal=True)
    return T(q), T(r)

  @staticmethod
  def eigh(a):
    w, v = np.linalg.eigh(np.asarray(a))
    return T(w), T(v)

  @staticmethod
  def inv(a):
    return T(np.linalg.inv(np.asarray(a)))

  @staticmethod
  def norm(a, **k):
    if k:
      raise Unsupported("tf.linalg.norm options")
    return T(np.linalg.norm(np.asarray(a).ravel()))

  @staticmethod
  def diag_part(a, k=0):
    return T(np.diagonal(np.asarray(a), offset=int(k), axis1=-2, axis2=-1))

  @staticmethod
  def diag(d, k=0):
    d = np.asarray(d)
    k = int(k)
    n = d.shape[-1] + abs(k)
    out = np.empty(d.shape[:-1] + (n, n), dtype=object)
    for i in np.ndindex(*out.shape):
      out[i] = S({})
    for i in np.ndindex(*d.shape):
      r = i[-1] + (-k if k < 0 else 0)
      c = i[-1] + (k if k > 0 else 0)
      out[i[:-1] + (r, c)] = d[i]
    return T(out)

  @staticmethod
  def adjoint(a):
    return T(np.conj(np.swapaxes(np.asarray(a), -1, -2)))

  @staticmethod
  def trace(a):
    return T(np.trace(np.asarray(a), axis1=-2, axis2=-1))

  @staticmethod
  def matmul(*a, **k):
    return TF.matmul(*a, **k)

  @staticmethod
  def tensordot(*a, **k):
    return TF.tensordot(*a, **k)


class _Math:

  @staticmethod
  def conj(a):
    return T(np.conj(np.asarray(a)))

  @staticmethod
  def sign(a):
    return T(np.sign(np.asarray(a)))

  @staticmethod
  def count_nonzero(a):
    return T(np.int64(np.count_nonzero(np.asarray(a))))

  @staticmethod
  def reduce_sum(a, axis=None, keepdims=False):
    return T(np.sum(np.asarray(a), axis=_axis(axis), keepdims=keepdims))

  @staticmethod
  def abs(a):
    return T(np.abs(np.asarray(a)))

  @staticmethod
  def pow(a, b):
    return T(np.power(np.asarray(a), b if not isinstance(b, TFArr) else np.asarray(b)))

  @staticmethod
  def sqrt(a):
    return TF.sqrt(a)

  @staticmethod
  def multiply(a, b):
    return T(np.asarray(a) * np.asarray(b))

  @staticmethod
  def real(a):
    return T(np.real(np.asarray(a)))


class _TF:
  int32, int64, float32, float64, complex64, complex128 = (np.int32, np.int64, np.float32, np.float64, np.complex64,
                                                           np.complex128)
  newaxis = None
  linalg = _Linalg
  math = _Math
  Tensor = TFArr
  dtypes = types.SimpleNamespace(int32=np.int32, int64=np.int64)

  class nn:
    """filled in by the Keras checks"""

  class compat:
    integral_types = (int, np.integer)

    class v1:

      class name_scope:

        def __init__(self, name, default=None, values=None):
          self.name = name or default

        def __enter__(self):
          return self.name

        def __exit__(self, *a):
          return False

      @staticmethod
      def setdiff1d(x, y):
        x, y = _ints(x), _ints(y)
        keep = [i for i, v in enumerate(x) if v not in y]
        return T(np.array([x[i] for i in keep], dtype=np.int32)), T(np.array(keep, dtype=np.int32))

  @staticmethod
  def tensordot(a, b, axes, name=None):
    a, b = np.asarray(a), np.asarray(b)
    if isinstance(axes, (int, np.integer)):
      if axes < 0 or axes > min(a.ndim, b.ndim):
        raise ValueError("tensordot axes")
      return T(np.tensordot(a, b, int(axes)))
    ax = [_ints(x) for x in axes]
    ax = [[x] if isinstance(x, int) else x for x in ax]
    if len(ax) != 2 or len(ax[0]) != len(ax[1]):
      raise ValueError("tensordot axes")
    return T(np.tensordot(a, b, ax))

  @staticmethod
  def reshape(a, shape, name=None):
    s = _ints(T(shape)) if np.asarray(shape).size or np.asarray(shape).ndim else []
    return T(np.reshape(np.asarray(a), s))

  @staticmethod
  def transpose(a, perm=None, conjugate=False):
    a = np.asarray(a)
    r = np.transpose(a, None if perm is None else _ints(perm))
    return T(np.conj(r) if conjugate else r)

  @staticmethod
  def slice(a, begin, size):
    a = np.asarray(a)
    b, s = _ints(begin), _ints(size)
    idx = []
    for x, y, d in zip(b, s, a.shape):
      if y == -1:
        y = d - x
      if x < 0 or y < 0 or x + y > d:
        raise ValueError("slice out of range")
      idx.append(slice(x, x + y))
    return T(a[tuple(idx)])

  @staticmethod
  def shape(a):
    return T(np.array(np.asarray(a).shape, dtype=np.int32))

  @staticmethod
  def rank(a):
    return T(np.int32(np.asarray(a).ndim))

  @staticmethod
  def size(a, out_type=None):
    return T(np.int64(np.asarray(a).size))

  @staticmethod
  def constant(x, dtype=None):
    if isinstance(x, sym.SymInt):
      x = int(x)
    return T(np.asarray(x))

  @staticmethod
  def convert_to_tensor(x, dtype=None, name=None):
    return T(x)

  @staticmethod
  def concat(xs, axis):
    arrs = [np.asarray(T(x)) for x in xs]
    if any(a.dtype == object for a in arrs):
      return T(np.concatenate(arrs, int(axis)))
    return T(np.concatenate([a.astype(np.int32) for a in arrs], int(axis)))

  @staticmethod
  def stack(xs, axis=0):
    return T(np.stack([np.asarray(T(x)) for x in xs], axis))

  @staticmethod
  def gather(x, i):
    i = np.asarray(i)
    return T(np.asarray(x)[i.astype(int)])

  @staticmethod
  def range(*a, dtype=None):
    return T(np.arange(*[int(x) for x in a], dtype=np.int32))

  @staticmethod
  def reduce_prod(x, axis=None):
    x = np.asarray(T(x) if isinstance(x, (list, tuple)) else x)
    if x.dtype != object:
      return T(np.int32(np.prod(x)))
    return T(np.prod(x))

  @staticmethod
  def sqrt(x):
    return T(np.sqrt(np.asarray(x)))

  @staticmethod
  def square(x):
    return T(np.square(np.asarray(x)))

  @staticmethod
  def cumsum(x, axis=0, reverse=False):
    x = np.asarray(x)
    return T(np.flip(np.cumsum(np.flip(x, axis), axis), axis) if reverse else np.cumsum(x, axis))

  @staticmethod
  def cast(x, dtype):
    x = np.asarray(x)
    if dtype in (np.int32, np.int64):
      out = np.empty(x.shape, dtype=np.int64)
      for i in np.ndindex(*x.shape):
        out[i] = int(bool(x[i])) if isinstance(x[i], (SymBool, bool, np.bool_)) else int(x[i])
      return T(out)
    return T(x)

  @staticmethod
  def minimum(a, b):
    return T(np.minimum(np.asarray(a), np.asarray(b)))

  @staticmethod
  def einsum(expr, *ts):
    return T(np.einsum(expr, *[np.asarray(t) for t in ts]))

  @staticmethod
  def matmul(a, b, transpose_a=False, transpose_b=False, adjoint_a=False, adjoint_b=False):
    a, b = np.asarray(a), np.asarray(b)
    if transpose_a or adjoint_a:
      a = np.swapaxes(a, -1, -2)
    if transpose_b or adjoint_b:
      b = np.swapaxes(b, -1, -2)
    if adjoint_a:
      a = np.conj(a)
    if adjoint_b:
      b = np.conj(b)
    if a.ndim < 2 or b.ndim < 2:
      raise ValueError("matmul needs matrices")
    return T(np.matmul(a, b))

  @staticmethod
  def where(c, a, b):
    return T(np.where(np.asarray(c).astype(bool), np.asarray(a), np.asarray(b)))

  @staticmethod
  def ones_like(x):
    x = np.asarray(x)
    return T(np.ones(x.shape, dtype=x.dtype))

  @staticmethod
  def zeros_like(x):
    x = np.asarray(x)
    return T(np.zeros(x.shape, dtype=x.dtype))

  @staticmethod
  def eye(num_rows, num_columns=None, dtype=None):
    return T(np.eye(num_rows, num_columns).astype(object))

  @staticmethod
  def ones(shape, dtype=None):
    return T(np.ones(tuple(_ints(np.atleast_1d(shape)))).astype(object))

  @staticmethod
  def zeros(shape, dtype=None):
    return T(np.zeros(tuple(_ints(np.atleast_1d(shape)))).astype(object))

  @staticmethod
  def reduce_sum(*a, **k):
    return _Math.reduce_sum(*a, **k)

  @staticmethod
  def abs(a):
    return _Math.abs(a)

  @staticmethod
  def expand_dims(a, axis):
    return T(np.expand_dims(np.asarray(a), int(axis)))

  @staticmethod
  def squeeze(a, axis=None):
    return T(np.squeeze(np.asarray(a), _axis(axis)))

  @staticmethod
  def vectorized_map(fn, elems):
    if isinstance(elems, (list, tuple)):
      n = np.asarray(elems[0]).shape[0]
      return T(np.stack([np.asarray(fn(type(elems)(T(np.asarray(e)[i]) for e in elems))) for i in range(n)]))
    x = np.asarray(elems)
    return T(np.stack([np.asarray(fn(T(x[i]))) for i in range(x.shape[0])]))

  map_fn = vectorized_map

  def __getattr__(self, name):
    f = _GENERIC.get(name)
    if f is not None:
      return f
    raise Unsupported(f"tf.{name} is not modelled")


def _n(f):
  return lambda *a, **k: T(f(*[np.asarray(x) if isinstance(x, (TFArr, list, tuple)) else x for x in a],
                             **{i: v for i, v in k.items() if i != "name"}))


def _split(x, n, axis=0):
  x = np.asarray(x)
  n = n if isinstance(n, (int, np.integer)) else np.cumsum(_ints(n))[:-1]
  return [T(v) for v in np.split(x, n, axis)]


_GENERIC = {
    "reverse": lambda x, axis: T(np.flip(np.asarray(x), tuple(_ints(axis)))),
    "identity": lambda x, name=None: T(np.array(np.asarray(x))),
    "stop_gradient": lambda x: x,
    "tile": lambda x, m: T(np.tile(np.asarray(x), _ints(m))),
    "broadcast_to": lambda x, s: T(np.broadcast_to(np.asarray(x), tuple(_ints(s)))),
    "unstack": lambda x, num=None, axis=0: [T(v) for v in np.moveaxis(np.asarray(x), axis, 0)],
    "split": _split,
    "reduce_max": lambda x, axis=None: T(np.max(np.asarray(x), axis=_axis(axis))),
    "reduce_min": lambda x, axis=None: T(np.min(np.asarray(x), axis=_axis(axis))),
    "reduce_mean": lambda x, axis=None: T(np.mean(np.asarray(x), axis=_axis(axis))),
    "pad": lambda x, p: T(np.pad(np.asarray(x), p)),
    "ensure_shape": lambda x, s: x,
    "math": _Math, "linalg": _Linalg, "conj": _Math.conj, "sign": _Math.sign, "pow": _Math.pow, "real": _Math.real,
    "logical_and": _n(np.logical_and), "logical_or": _n(np.logical_or), "logical_not": _n(np.logical_not),
    "reduce_any": lambda x: T(np.any(np.asarray(x))), "reduce_all": lambda x: T(np.all(np.asarray(x))),
    "equal": lambda a, b: T(np.asarray(a) == b), "not_equal": lambda a, b: T(np.asarray(a) != b),
    "greater": lambda a, b: T(np.asarray(a) > b), "less": lambda a, b: T(np.asarray(a) < b),
    "greater_equal": lambda a, b: T(np.asarray(a) >= b), "less_equal": lambda a, b: T(np.asarray(a) <= b),
}
for _name, _f in dict(multiply=np.multiply, add=np.add, subtract=np.subtract, divide=np.true_divide, negative=np.negative,
                      maximum=np.maximum, truediv=np.true_divide, imag=np.imag).items():
  _GENERIC[_name] = _n(_f)


class _MathMeta(type):

  def __getattr__(cls, name):
    f = _GENERIC.get(name) or getattr(type(TF), name, None)
    if f is None:
      raise Unsupported(f"tf.math.{name} is not modelled")
    return f


class _Math2(_Math, metaclass=_MathMeta):
  pass


class _Linalg2(_Linalg, metaclass=_MathMeta):
  einsum = staticmethod(lambda *a, **k: TF.einsum(*a, **k))
  eye = staticmethod(lambda *a, **k: TF.eye(*a, **k))


TF = _TF()
_TF.math = _Math2
_TF.linalg = _Linalg2


# -- switching -----------------------------------------------------------------------------------------------------------
class on:
  """with on(ctx, backend) as B: B.backend, B.arr(object array) -> backend array, B.out(backend array) -> numpy array"""

  def __init__(self, ctx, name):
    self.ctx = ctx
    self.name = name
    self.backend = backend_factory.get_backend(name)
    self.saved = []

  def arr(self, a):
    if self.name == "tensorflow":
      if self.ctx.symbolic:
        return T(a)
      import tensorflow
      return tensorflow.convert_to_tensor(np.asarray(a))
    if self.name == "jax" and not self.ctx.symbolic:
      import jax.numpy
      return jax.numpy.asarray(a)
    return np.array(a, dtype=a.dtype) if isinstance(a, np.ndarray) else a

  def out(self, a):
    if isinstance(a, TFArr) or not self.ctx.symbolic:
      return np.asarray(a)
    return a

  def _set(self, mod, **kw):
    for k, v in kw.items():
      self.saved.append((mod, k, mod.__dict__.get(k, None)))
      setattr(mod, k, v)

  def __enter__(self):
    if self.ctx.symbolic:
      if self.name == "jax":
        from tensornetwork.backends.jax import jax_backend
        self._set(jax_backend, jnp=JNP, libjax=LIBJAX)
        sym.ENG.stats.stubs.add("jax.numpy: implements the NumPy functions of the same name; lax.dynamic_slice clamps")
      elif self.name == "tensorflow":
        from tensornetwork.backends.tensorflow import tensorflow_backend
        self._set(tensorflow_backend, tf=TF)
        sym.ENG.stats.stubs.add("tensorflow: lib/shims.py models the tf functions used on exact entries")
    return self

  def __exit__(self, *a):
    for mod, k, v in reversed(self.saved):
      setattr(mod, k, v)
    self.saved = []
    return False


def preload(names):
  """import the real libraries before the workers fork"""
  if "jax" in names:
    import jax
    jax.config.update("jax_enable_x64", True)
    jax.config.update("jax_platforms", "cpu")
  for n in names:
    backend_factory.get_backend(n)
