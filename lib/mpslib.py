"""Finite MPS with symbolic tensors and the state they represent."""
import numpy as np
import tensornetwork as tn


def dims(n, d, D):
  """bond dimensions 1, .., D, .., 1 that an isometric form allows on both sides"""
  left = [1]
  for _ in range(n):
    left.append(min(D, left[-1] * d))
  right = [1]
  for _ in range(n):
    right.append(min(D, right[-1] * d))
  return [min(a, b) for a, b in zip(left, reversed(right))]


def tensors(ctx, n, d, D, c, cplx, bonds=None, prefix="A"):
  """MPS tensors: arbitrary, except left isometric left of c and right isometric right of c (c None: all arbitrary)"""
  b = bonds or dims(n, d, D)
  out = []
  for i in range(n):
    l, r = b[i], b[i + 1]
    if c is not None and i < c:
      t = ctx.isometry(f"{prefix}{i}", l * d, r, cplx).reshape(l, d, r)
    elif c is not None and i > c:
      t = np.conj(ctx.isometry(f"{prefix}{i}", r * d, l, cplx).reshape(r, d, l)).transpose(2, 1, 0).copy()
    else:
      t = ctx.tensor(f"{prefix}{i}", (l, d, r), cplx)
    out.append(t)
  return out


def make(ts, c, backend="numpy"):
  m = tn.FiniteMPS([t for t in ts], canonicalize=False, backend=backend)
  m.center_position = c
  return m


def state(ts):
  """amplitudes, shape (left bond, d, .., d, right bond)"""
  x = np.asarray(ts[0])
  for t in ts[1:]:
    x = np.tensordot(x, np.asarray(t), 1)
  return x


def norm2(x):
  x = np.asarray(x)
  return np.sum(x * np.conj(x))


def canonical(ctx, ts, c, label=""):
  """left isometric left of c, right isometric right of c"""
  for i, t in enumerate(ts):
    t = np.asarray(t)
    l, d, r = t.shape
    if i < c:
      m = t.reshape(l * d, r)
      ctx.eq(np.conj(m.T) @ m, np.eye(r), f"{label}tensor left of the centre is left isometric")
    elif i > c:
      m = t.reshape(l, d * r)
      ctx.eq(m @ np.conj(m.T), np.eye(l), f"{label}tensor right of the centre is right isometric")
