"""C22: FiniteXXZ / FiniteTFI / FiniteFreeFermion2D contracted to the full operator, all couplings symbolic."""
import numpy as np
from runner import Scenario
from tensornetwork.matrixproductstates.mpo import FiniteXXZ, FiniteTFI, FiniteFreeFermion2D

BOUNDS = ("chains of 2..6 sites (thorough: 7), fermion lattices N1 x N2 with 2..6 sites (thorough: 8); every coupling and "
          "field an independent unknown per bond and site; matrix dimension up to 64")
OUTSIDE = "longer chains; dtype rounding; single-site lattices (no bond exists)"

SX = np.array([[0, 1], [1, 0]], dtype=object)
SZ = np.array([[-1, 0], [0, 1]], dtype=object)
SP = np.array([[0, 0], [1, 0]], dtype=object)
SM = np.array([[0, 1], [0, 0]], dtype=object)
ID = np.array([[1, 0], [0, 1]], dtype=object)
PZ = np.array([[1, 0], [0, -1]], dtype=object)
C = np.array([[0, 1], [0, 0]], dtype=object)
CD = np.array([[0, 0], [1, 0]], dtype=object)
NN = np.array([[0, 0], [0, 1]], dtype=object)


def chain(ops):
  r = ops[0]
  for o in ops[1:]:
    r = np.kron(r, o)
  return r


def at(n, d):
  return chain([d.get(k, ID) for k in range(n)])


def full(mpo):
  """dense operator of an MPO: tensors (left, right, out, in)"""
  t = mpo.tensors[0]
  r = t[0]  # right, out, in
  for m in mpo.tensors[1:]:
    r = np.tensordot(r, m, axes=([0], [0]))  # out, in, right, out2, in2
    r = r.transpose(2, 0, 3, 1, 4)
    r = r.reshape(r.shape[0], r.shape[1] * r.shape[2], r.shape[3] * r.shape[4])
  return r[0]


def _dt(ctx):
  return object if ctx.symbolic else np.float64


def xxz(ctx, n):
  jz, jxy, bz = ctx.tensor("Jz", (n - 1,)), ctx.tensor("Jxy", (n - 1,)), ctx.tensor("Bz", (n,))
  mpo = FiniteXXZ(jz, jxy, bz, _dt(ctx), backend="numpy")
  ctx.check(len(mpo) == n, "number of sites")
  h = sum(bz[k] * at(n, {k: SZ / 2}) for k in range(n))
  for k in range(n - 1):
    h = h + jz[k] * at(n, {k: SZ / 2, k + 1: SZ / 2})
    h = h + jxy[k] * (at(n, {k: SP, k + 1: SM}) + at(n, {k: SM, k + 1: SP})) / 2
  ctx.eq(full(mpo), h, "sum of local terms")


def tfi(ctx, n):
  jx, bz = ctx.tensor("Jx", (n - 1,)), ctx.tensor("Bz", (n,))
  mpo = FiniteTFI(jx, bz, _dt(ctx), backend="numpy")
  ctx.check(len(mpo) == n, "number of sites")
  h = sum(bz[k] * at(n, {k: SZ}) for k in range(n))
  for k in range(n - 1):
    h = h + jx[k] * at(n, {k: SX, k + 1: SX})
  ctx.eq(full(mpo), h, "sum of local terms")


def fermion(ctx, n1, n2):
  t1, t2, v = ctx.real("t1"), ctx.real("t2"), ctx.real("v")
  mpo = FiniteFreeFermion2D(t1, t2, v, n1, n2, _dt(ctx), backend="numpy")
  n = n1 * n2
  ctx.check(len(mpo) == n, "number of sites")

  def hop(i, j):  # c_i^dagger c_j + c_j^dagger c_i with c_k = Z...Z C
    ci = chain([PZ] * i + [C] + [ID] * (n - i - 1))
    cj = chain([PZ] * j + [C] + [ID] * (n - j - 1))
    return ci.T @ cj + cj.T @ ci

  h = sum(v * at(n, {k: NN}) for k in range(n))
  for x in range(n2):
    for y in range(n1):
      k = x * n1 + y
      if y + 1 < n1:
        h = h + t1 * hop(k, k + 1)
      if x + 1 < n2:
        h = h + t2 * hop(k, k + n1)
  ctx.eq(full(mpo), h, "sum of hoppings and potential")


def scenarios(tier):
  top = 6 if tier == "quick" else 7
  out = [Scenario(f"xxz n={n}", xxz, n) for n in range(2, top + 1)]
  out += [Scenario(f"tfi n={n}", tfi, n) for n in range(2, top + 1)]
  big = 6 if tier == "quick" else 8
  for n1 in range(1, big + 1):
    for n2 in range(1, big + 1):
      if 2 <= n1 * n2 <= big:
        out.append(Scenario(f"fermion {n1}x{n2}", fermion, n1, n2))
  return out
