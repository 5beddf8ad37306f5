"""C34: symmetric MPS, MPO and DMRG equal their dense counterparts."""
import io
import warnings
import numpy as np
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor
from tensornetwork.matrixproductstates import dmrg as dmrg_mod
from tensornetwork.matrixproductstates.dmrg import FiniteDMRG
from tensornetwork.matrixproductstates.mpo import FiniteMPO
from runner import Scenario
import qarr
import mpslib as ml
from bslib import World, allowed, dense, legs_of, same_legs, rows
from c18 import scalar, one, proportional
from c19 import exact_left, exact_right, step_left, step_right, left, right
from c20 import act2
import c21

BOUNDS = ("FiniteMPS and FiniteMPO on the symmetric backend of 1 to 4 sites with U(1), Z2, Z3 and U(1)xZ2 charges (also symbolic charges "
          "for two sites), bonds of up to four charges with degeneracies up to two, symbolic real or complex stored entries; moves of the "
          "centre in both directions with and without normalisation and truncation, canonicalisation, environments, local operators, "
          "two-body correlators, one- and two-site gates, check_orthonormality; DMRG environments, effective Hamiltonians, energies, local "
          "updates and one full sweep with an arbitrary symmetric vector returned by the Lanczos solver")
OUTSIDE = ("rounding; longer chains; boundary bonds of dimension above one; charged operators and MPOs (total charge not zero); convergence "
           "of the Lanczos solver (C27)")
warnings.filterwarnings("ignore", message="svd_decomposition truncated to 0")
ASSUMPTIONS = ["numpy.linalg.svd/qr satisfy their contracts on each block",
               "eigsh_lanczos returns a non-zero vector with the charges of the initial state"]
F, T = False, True

# types, physical charges, bond charges, MPO bond charges (inner bonds)
LAY = {
    "1": ("U1", "0,1", ["0", "1"], "0,1,-1"),
    "2": ("U1", "0,1", ["0", "0,1", "1"], "0,1,-1"),
    "2 scaled": ("U1", "0,2", ["1", "3,1", "3"], "0,-2,2"),
    "2 degenerate": ("U1", "0,0,1", ["0", "0,1", "1"], "0,1"),
    "2 Z2": ("Z2", "0,1", ["0", "1,0", "0"], "0,1"),
    "2 Z3": ("Z3", "0,1,2", ["0", "0,2,1", "2"], "0,1"),
    "2 product": ("U1.Z2", "0,1;0,1", ["0;0", "0,1;0,1", "1;1"], "0,1;0,1"),
    "2 symbolic": ("U1", "a,b", ["0", "a,b", "a+b"], "0,a-b"),
    "3": ("U1", "0,1", ["0", "0,1", "0,1", "1"], "0,1,-1"),
    "3 Z2": ("Z2", "0,1", ["0", "0,1", "0,1", "1"], "0,1"),
    "3 fat": ("U1", "0,1", ["0", "0,1", "0,1,1", "1"], "0,1"),
    "4": ("U1", "0,1", ["0", "0,1", "0,1,1,2", "1,2", "2"], "0"),
}
FAT = ("3 fat",)  # bonds too large for isometric tensors


def be():
  return backend_factory.get_backend("symmetric")


class SB:
  """the interface of shims for the symmetric backend"""
  name = "symmetric"

  def __init__(self, ctx):
    self.ctx = ctx
    self.backend = be()

  def out(self, t):
    return dense(self.ctx, t)

  def arr(self, t):
    return t


def isometry(ctx, w, name, specs, flows, out, cplx):
  """arbitrary symmetric tensor that is isometric from leg `out` to the other two"""
  charges = [w.charge(s) for s in specs]
  rs = [rows(c) for c in charges]
  ok = allowed(charges, flows)
  d = np.zeros(ok.shape, dtype=object if ctx.symbolic else (np.complex128 if cplx else np.float64))
  done = []
  for i, q in enumerate(rs[out]):
    for cols in done:
      if all(bool(x == y) for x, y in zip(rs[out][cols[0]], q)):
        cols.append(i)
        break
    else:
      done.append([i])
  for k, cols in enumerate(done):
    mask = np.moveaxis(ok, out, -1)[..., cols[0]]
    idx = [j for j in np.ndindex(*mask.shape) if mask[j]]
    blk = ctx.isometry(f"{name}q{k}", len(idx), len(cols), cplx)
    if out == 0:
      blk = np.conj(blk)
    for j, r in enumerate(idx):
      for c, col in enumerate(cols):
        pos = list(r)
        pos.insert(out, col)
        d[tuple(pos)] = blk[j, c]
  return BlockSparseTensor(d[ok], charges, list(flows)), d


def mps_tensors(ctx, w, lay, cplx, c=None, prefix="A"):
  """symmetric tensors and their dense arrays; canonical about c"""
  _, phys, bonds, _ = LAY[lay]
  ts, ds = [], []
  for i in range(len(bonds) - 1):
    specs, flows = [bonds[i], phys, bonds[i + 1]], [F, F, T]
    if c is not None and i < c:
      t, d = isometry(ctx, w, f"{prefix}{i}", specs, flows, 2, cplx)
    elif c is not None and i > c:
      t, d = isometry(ctx, w, f"{prefix}{i}", specs, flows, 0, cplx)
    else:
      t, d = w.tensor(f"{prefix}{i}", specs, flows, cplx=cplx)
    ts.append(t)
    ds.append(d)
  return ts, ds


def mpo_tensors(ctx, w, lay, cplx):
  _, phys, bonds, k = LAY[lay]
  n = len(bonds) - 1
  zero = ";".join("0" for _ in phys.split(";"))
  b = [zero] + [k] * (n - 1) + [zero]
  ts, ds = [], []
  for i in range(n):
    t, d = w.tensor(f"W{i}", [b[i], b[i + 1], phys, phys], [F, T, F, T], cplx=cplx)
    ts.append(t)
    ds.append(d)
  return ts, ds


def make(ts, c):
  m = tn.FiniteMPS(list(ts), canonicalize=False, backend="symmetric")
  m.center_position = c
  return m


def unchanged(ctx, ts, ds):
  for t, d in zip(ts, ds):
    ctx.eq(dense(ctx, t), d, "the tensors the MPS was made from are not modified")


def fits(ctx, m, ts, label):
  """the bonds fit and the physical legs keep their charges"""
  for i, t in enumerate(m.tensors):
    l = legs_of(t)
    ctx.check(len(l) == 3 and same_legs(l[1:2], legs_of(ts[i])[1:2]), label + ": physical charges kept")
    if i:
      a, b = legs_of(m.tensors[i - 1])[2], l[0]
      ctx.check(same_legs([[(r, not f) for r, f in a]], [b]), label + ": bond charges match")
  for i, k in ((0, 0), (-1, 2)):
    ctx.check(same_legs([legs_of(m.tensors[i])[k]], [legs_of(ts[i])[k]]), label + ": boundary charges kept")


def norm(ctx, m, site):
  return ml.norm2(dense(ctx, m.tensors[site]))


def empty(ctx, t):
  """the state vanishes identically"""
  from c18 import zero
  return zero(ctx, t)


def move(ctx, lay, cplx, canonical):
  n = len(LAY[lay][2]) - 1
  c, site = ctx.pick("centre", 0, n - 1), ctx.pick("site", 0, n - 1)
  normalize = ctx.choice("normalize", [False, True])
  with qarr.on(ctx):
    w = World(ctx, LAY[lay][0])
    ts, ds = mps_tensors(ctx, w, lay, cplx, c if canonical else None)
    psi = ml.state(ds)
    m = make(ts, c)
    z = scalar(ctx, m.position(site, normalize=normalize))
    new = [dense(ctx, t) for t in m.tensors]
    fits(ctx, m, ts, "move")
    unchanged(ctx, ts, ds)
  ctx.check(m.center_position == site, "centre is the requested site")
  lo, hi = (0, n - 1) if canonical else (min(c, site), max(c, site))
  ml.canonical(ctx, new[lo:hi + 1], site - lo)
  for i in range(n):
    if not min(c, site) <= i <= max(c, site):
      ctx.eq(new[i], ds[i], "other tensors keep their value")
  got = ml.state(new)
  if not normalize:
    ctx.eq(got, psi, "state unchanged")
    ctx.eq(one(ctx, z * z), one(ctx, ml.norm2(new[site])), "returns the norm of the centre tensor")
  elif not empty(ctx, new[site]):
    if abs(c - site) <= 1:
      ctx.eq(got * z, psi, "state divided by the returned norm")
    else:
      proportional(ctx, got, psi)
    ctx.eq(one(ctx, ml.norm2(new[site])), one(ctx, 1), "normalised")


def truncating(ctx, lay, cplx, how):
  ctx.nonzero_svd()
  n = len(LAY[lay][2]) - 1
  c, site = ctx.pick("centre", 0, n - 1), ctx.pick("site", 0, n - 1)
  with qarr.on(ctx):
    w = World(ctx, LAY[lay][0])
    ts, ds = mps_tensors(ctx, w, lay, cplx, c)
    m = make(ts, c)
    kw = {"D": dict(D=1), "err": dict(max_truncation_err=0.5), "loose": dict(D=9, max_truncation_err=0.0)}[how]
    m.position(site, normalize=False, **kw)
    new = [dense(ctx, t) for t in m.tensors]
    fits(ctx, m, ts, "truncating move")
    unchanged(ctx, ts, ds)
  ctx.check(m.center_position == site, "centre is the requested site")
  ml.canonical(ctx, new, site)
  if how == "loose":
    ctx.eq(ml.state(new), ml.state(ds), "state unchanged")
  if how == "D":
    for i in range(min(c, site), max(c, site)):
      ctx.check(new[i].shape[2] <= 1, "bond dimension limited")


def canonicalize(ctx, lay, cplx, how):
  """constructor and canonicalize from arbitrary tensors"""
  n = len(LAY[lay][2]) - 1
  with qarr.on(ctx):
    w = World(ctx, LAY[lay][0])
    ts, ds = mps_tensors(ctx, w, lay, cplx)
    psi = ml.state(ds)
    if how == "constructor":
      site = ctx.choice("centre", [None] + list(range(n)))
      m = tn.FiniteMPS(list(ts), center_position=site, backend="symmetric")
      site = site or 0
    else:
      m = make(ts, None)
      site = 0
      m.canonicalize(normalize=how == "normalize")
      site = m.center_position
    new = [dense(ctx, t) for t in m.tensors]
    fits(ctx, m, ts, "canonical")
    unchanged(ctx, ts, ds)
  ctx.check(m.center_position == site, "centre is the requested site")
  ml.canonical(ctx, new, site)
  if how == "unnormalized":
    ctx.eq(ml.state(new), psi, "state unchanged")
  elif not empty(ctx, new[site]):
    proportional(ctx, ml.state(new), psi)
    ctx.eq(one(ctx, ml.norm2(new[site])), one(ctx, 1), "normalised")


def prep(ctx, w, lay, cplx):
  n = len(LAY[lay][2]) - 1
  c = ctx.choice("recorded centre", [None] + (list(range(n)) if lay not in FAT else []))
  ts, ds = mps_tensors(ctx, w, lay, cplx, c)
  return n, c, ts, ds


def env_legs(ctx, e, ref, label):
  """an environment closes the bond of the tensor and of its conjugate"""
  a, b = legs_of(e)
  ctx.check(same_legs([a], [[(r, not f) for r, f in ref]]) and same_legs([b], [ref]), label)


def envs(ctx, lay, cplx):
  with qarr.on(ctx):
    w = World(ctx, LAY[lay][0])
    n, c, ts, ds = prep(ctx, w, lay, cplx)
    m = make(ts, c)
    side = ctx.choice("side", ["left", "right"])
    sites = ctx.choice("sites", [[i] for i in range(0 if side == "left" else -1, n + 1 if side == "left" else n)] + [list(range(n)), list(range(n))[::-1]])
    r = m.left_envs(sites) if side == "left" else m.right_envs(sites)
    ctx.check(sorted(int(k) for k in r) == sorted(sites), "one environment for each site")
    for s in sites:
      if side == "left":
        x = exact_left(ds, c, s) if s < n else step_left(ds[-1], exact_left(ds, c, n - 1))
        ref = legs_of(ts[s])[0] if s < n else [(q, not f) for q, f in legs_of(ts[-1])[2]]
      else:
        x = exact_right(ds, c, s) if s >= 0 else step_right(ds[0], exact_right(ds, c, 0))
        ref = legs_of(ts[s])[2] if s >= 0 else [(q, not f) for q, f in legs_of(ts[0])[0]]
      ctx.eq(dense(ctx, r[s]), x, "environment")
      env_legs(ctx, r[s], ref, "charges of the environment")
    unchanged(ctx, m.tensors, ds)


def operators(ctx, lay, cplx):
  """local operators and correlators"""
  with qarr.on(ctx):
    w = World(ctx, LAY[lay][0])
    n, c, ts, ds = prep(ctx, w, lay, cplx)
    m = make(ts, c)
    phys = LAY[lay][1]
    o1, d1 = w.tensor("o1", [phys, phys], [F, T], cplx=cplx)
    o2, d2 = w.tensor("o2", [phys, phys], [F, T], cplx=cplx)

    def value(ops):
      # everything outside the centre and the operators contracts to the identity
      lo = min(list(ops) + ([c] if c is not None else [0]))
      hi = max(list(ops) + ([c] if c is not None else [n - 1]))
      e = np.eye(ds[lo].shape[0])
      for k in range(lo, hi + 1):
        e = step_left(ds[k], e, ops.get(k))
      return np.trace(e)

    if ctx.choice("what", ["local", "correlator"]) == "local":
      sites = ctx.choice("sites", [[i] for i in range(n)] + [list(range(n))[::-1]])
      r = m.measure_local_operator([o1 if i % 2 == 0 else o2 for i in range(len(sites))], sites)
      for i, s in enumerate(sites):
        ctx.eq(one(ctx, scalar(ctx, r[i])), one(ctx, value({s: d1 if i % 2 == 0 else d2})), "local expectation value")
    else:
      s1 = ctx.pick("site1", 0, n - 1)
      sites = ctx.choice("sites2", [[i] for i in range(n)] + [list(range(n))[::-1]])
      r = m.measure_two_body_correlator(o1, o2, s1, sites)
      for i, s in enumerate(sites):
        want = value({s1: d1, s: d2}) if s != s1 else value({s: d1 @ d2})
        ctx.eq(one(ctx, scalar(ctx, r[i])), one(ctx, want), "correlator")
    ctx.check(len(r) == len(sites), "one value for each site")
    unchanged(ctx, m.tensors, ds)


def gates(ctx, lay, cplx, how):
  with qarr.on(ctx):
    w = World(ctx, LAY[lay][0])
    phys = LAY[lay][1]
    n = len(LAY[lay][2]) - 1
    if how == "one":
      n, c, ts, ds = prep(ctx, w, lay, cplx)
      m = make(ts, c)
      s = ctx.pick("site", 0, n - 1)
      g, dg = w.tensor("g", [phys, phys], [F, T], cplx=cplx)
      m.apply_one_site_gate(g, s)
      want = np.moveaxis(np.tensordot(dg, ml.state(ds), ([1], [1 + s])), 0, 1 + s)
      ctx.eq(ml.state([dense(ctx, t) for t in m.tensors]), want, "state")
      fits(ctx, m, ts, "one-site gate")
      unchanged(ctx, ts, ds)
      return
    ctx.nonzero_svd()
    s = ctx.pick("site1", 0, n - 2)
    c = ctx.choice("recorded centre", [s, s + 1] if how != "qr" else [None] + (list(range(n)) if lay not in FAT else []))
    cp = ctx.choice("center_position", [None, s, s + 1])
    ts, ds = mps_tensors(ctx, w, lay, cplx, c)
    m = make(ts, c)
    g, dg = w.tensor("g", [phys] * 4, [F, F, T, T], cplx=cplx)
    kw = {"qr": {}, "loose": dict(max_singular_values=30), "D": dict(max_singular_values=1), "err": dict(max_truncation_err=0.5)}[how]
    if cp is not None:
      kw["center_position"] = cp
    tw = m.apply_two_site_gate(g, s, s + 1, **kw)
    new = [dense(ctx, t) for t in m.tensors]
    fits(ctx, m, ts, "two-site gate")
    unchanged(ctx, ts, ds)
    for i in range(n):
      if i not in (s, s + 1):
        ctx.eq(new[i], ds[i], "other tensors keep their value")
    if how in ("qr", "loose"):
      ctx.eq(ml.state(new), act2(ml.state(ds), dg, s), "state")
      lost = np.asarray(tw.data if hasattr(tw, "data") and hasattr(tw, "flat_charges") else tw).ravel()
      for x in lost:
        ctx.eq(one(ctx, x), np.zeros(1), "nothing was discarded")
    if how == "D":
      ctx.check(new[s].shape[2] <= 1, "bond dimension limited")
    site = s if cp is None else cp
    if c in (s, s + 1):
      ctx.check(m.center_position == site, "centre is the requested one")
      ml.canonical(ctx, new, site, "after a gate: ")
    else:
      ctx.check(m.center_position is None, "no centre is recorded")


def orthonormality(ctx, lay, cplx):
  with qarr.on(ctx):
    w = World(ctx, LAY[lay][0])
    ts, ds = mps_tensors(ctx, w, lay, cplx)
    m = make(ts, None)
    s = ctx.pick("site", 0, len(ts) - 1)
    which = ctx.choice("which", ["left", "right", "l", "r"])
    r = scalar(ctx, m.check_orthonormality(which, s).item())
    e = step_left(ds[s], np.eye(ds[s].shape[0])) if which[0] == "l" else step_right(ds[s], np.eye(ds[s].shape[2]))
    e = e - np.eye(e.shape[0])
  ctx.eq(one(ctx, r * r), one(ctx, ml.norm2(e)), "distance to the identity")
  ctx.check(r >= 0 if ctx.symbolic else np.real(r) >= 0, "not negative")


def transfer(ctx, lay, cplx):
  with qarr.on(ctx):
    w = World(ctx, LAY[lay][0])
    ts, ds = mps_tensors(ctx, w, lay, cplx)
    m = make(ts, None)
    s = ctx.pick("site", 0, len(ts) - 1)
    d = ctx.choice("direction", ["left", "right", "l", "r", 1, -1])
    _, _, bonds, _ = LAY[lay]
    lft = d in ("left", "l", 1)
    b = bonds[s] if lft else bonds[s + 1]
    x, dx = w.tensor("x", [b, b], [T, F] if lft else [F, T], cplx=cplx)
    r = m.apply_transfer_operator(s, d, x)
    ctx.eq(dense(ctx, r), step_left(ds[s], dx) if lft else step_right(ds[s], dx), "transfer operator")


def energy(ctx, lay, cplx):
  """environments, moves of the simulation, energy"""
  n = len(LAY[lay][2]) - 1
  with qarr.on(ctx):
    w = World(ctx, LAY[lay][0])
    c = ctx.pick("centre", 0, n - 1)
    ts, ds = mps_tensors(ctx, w, lay, cplx, c)
    ws, dw = mpo_tensors(ctx, w, lay, cplx)
    B = SB(ctx)
    dm = FiniteDMRG(make(ts, c), FiniteMPO(ws, backend="symmetric"))
    dm.compute_left_envs()
    dm.compute_right_envs()
    c21.envs_ok(ctx, B, dm, dw, "computed")
    if ctx.choice("then", ["move", "energy"]) == "move":
      p = ctx.pick("position", 0, n - 1)
      dm.position(p)
      ctx.check(dm.mps.center_position == p, "centre is the requested one")
      c21.envs_ok(ctx, B, dm, dw, "moved" if p != c else "not moved")
      ml.canonical(ctx, [B.out(t) for t in dm.mps.tensors], p, "after moving: ")
      fits(ctx, dm.mps, ts, "moved")
    else:
      e = scalar(ctx, dm.compute_energy())
      new = [B.out(t) for t in dm.mps.tensors]
      psi = ml.state(new)
      ctx.eq(one(ctx, e), one(ctx, np.sum(np.conj(psi) * c21.apply(c21.operator(dw), psi))), "<psi|H|psi>")
    unchanged(ctx, ts, ds)


def effective(ctx, lay, cplx, width):
  n = len(LAY[lay][2]) - 1
  with qarr.on(ctx):
    w = World(ctx, LAY[lay][0])
    c = ctx.pick("centre", 0, n - width)
    ts, ds = mps_tensors(ctx, w, lay, cplx, c)
    ws, dw = mpo_tensors(ctx, w, lay, cplx)
    _, phys, bonds, _ = LAY[lay]
    x, dx = w.tensor("x", [bonds[c]] + [phys] * width + [bonds[c + width]], [F] * (width + 1) + [T], cplx=cplx)
    dm = FiniteDMRG(make(ts, c), FiniteMPO(ws, backend="symmetric"))
    dm.compute_left_envs()
    dm.compute_right_envs()
    L, R = dm.left_envs[c], dm.right_envs[c + width - 1]
    got = (dm.single_site_matvec(x, L, ws[c], R) if width == 1 else dm.two_site_matvec(x, L, ws[c], ws[c + 1], R))
    ctx.check(same_legs(legs_of(got), legs_of(x)), "the result has the charges of the vector")
    ctx.eq(dense(ctx, got), c21.project(ds, c, width, c21.apply(c21.operator(dw), c21.embed(ds, c, width, dx))),
           "projection of the full operator")


class Lanczos:
  """stands in for the Krylov solver: returns an unknown vector with the charges of the initial state"""

  def __init__(self, ctx, cplx, energies=None):
    self.ctx, self.cplx, self.calls, self.energies = ctx, cplx, [], energies

  def __enter__(self):
    self.be = be()

    def eigsh_lanczos(A, args=None, initial_state=None, num_krylov_vecs=20, numeig=1, tol=1e-8, delta=1e-8, ndiag=20,
                      reorthogonalize=False, **kw):
      ctx, k = self.ctx, len(self.calls)
      got = A(initial_state, *args)
      same = same_legs(legs_of(got), legs_of(initial_state))
      x = initial_state.copy()
      x.data = ctx.tensor(f"ground state {k}", np.asarray(initial_state.data).shape, self.cplx)
      if ctx.symbolic and x.data.size:
        ctx.eng.assume_nonzero(ml.norm2(x.data))
      e = 3.0 - 0.5 * k if self.energies is None else self.energies[k]
      self.calls.append(dict(v=dense(ctx, initial_state), Av=dense(ctx, got), x=dense(ctx, x), e=e, same=same))
      return [e], [x]

    self.be.__dict__["eigsh_lanczos"] = eigsh_lanczos
    return self

  def __exit__(self, *a):
    del self.be.__dict__["eigsh_lanczos"]
    return False


def update(ctx, lay, cplx, width, maxd):
  ctx.nonzero_svd()
  n = len(LAY[lay][2]) - 1
  c = ctx.pick("centre", 0, n - 1)
  sweep = ctx.choice("sweep_dir", ["right", "left"])
  rt = sweep == "right"
  if c == n - 1 if rt else c == 0:
    return
  s = c if width == 1 or rt else c - 1
  with qarr.on(ctx):
    w = World(ctx, LAY[lay][0])
    ts, ds = mps_tensors(ctx, w, lay, cplx, c)
    ws, dw = mpo_tensors(ctx, w, lay, cplx)
    B = SB(ctx)
    dm = FiniteDMRG(make(ts, c), FiniteMPO(ws, backend="symmetric"))
    dm.compute_left_envs()
    dm.compute_right_envs()
    with Lanczos(ctx, cplx) as lz:
      e = dm._optimize_1s_local(sweep_dir=sweep) if width == 1 else dm._optimize_2s_local(max_bond_dim=maxd, sweep_dir=sweep)
    ctx.check(len(lz.calls) == 1 and e == lz.calls[0]["e"], "one local problem, its energy is returned")
    call = lz.calls[0]
    theta = ds[s] if width == 1 else np.tensordot(ds[s], ds[s + 1], 1)
    ctx.eq(call["v"], theta, "initial state of the local problem")
    ctx.eq(call["Av"], c21.project(ds, s, width, c21.apply(c21.operator(dw), c21.embed(ds, s, width, theta))), "effective Hamiltonian")
    ctx.check(call["same"], "the effective Hamiltonian keeps the charges")
    new = [B.out(t) for t in dm.mps.tensors]
    want = c + 1 if rt else c - 1
    ctx.check(dm.mps.center_position == want, "the centre moved one site")
    c21.envs_ok(ctx, B, dm, dw, "updated")
    fits(ctx, dm.mps, ts, "updated")
    unchanged(ctx, ts, ds)
  ml.canonical(ctx, new, want, "after an update: ")
  x = call["x"]
  n2 = ml.norm2(x)
  nx = n2.sqrt() if ctx.symbolic else np.sqrt(n2)
  a, b = (s, s + 1) if rt or width == 2 else (s - 1, s)
  for i in range(n):
    if i not in (a, b):
      ctx.eq(new[i], ds[i], "other tensors keep their value")
  got = np.tensordot(new[a], new[b], 1)
  if width == 2:
    if maxd is not None:
      ctx.check(new[a].shape[2] <= maxd, "bond dimension limited")
    else:
      ctx.eq(got * nx, x, "the solver's vector, normalised")
  else:
    ctx.eq(got * nx, np.tensordot(x, ds[s + 1], 1) if rt else np.tensordot(ds[s - 1], x, 1), "the solver's vector, normalised")


def sweep(ctx, lay, cplx, width):
  """a full sweep"""
  ctx.nonzero_svd()
  n = len(LAY[lay][2]) - 1
  saved = dmrg_mod.stdout
  dmrg_mod.stdout = io.StringIO()
  hist = []
  try:
    with qarr.on(ctx):
      w = World(ctx, LAY[lay][0])
      c = ctx.pick("centre", 0, n - 1)
      ts, ds = mps_tensors(ctx, w, lay, cplx, c)
      ws, dw = mpo_tensors(ctx, w, lay, cplx)
      B = SB(ctx)
      dm = FiniteDMRG(make(ts, c), FiniteMPO(ws, backend="symmetric"))
      one_, two_ = dm._optimize_1s_local, dm._optimize_2s_local

      def wrap(f):
        def g(*a, **kw):
          p = dm.mps.center_position
          now = [B.out(t) for t in dm.mps.tensors]
          r = kw.get("sweep_dir") in ("r", "right")
          q = p if width == 1 or r else p - 1
          k0 = len(lz.calls)
          e = f(*a, **kw)
          call = lz.calls[k0]
          theta = now[q] if width == 1 else np.tensordot(now[q], now[q + 1], 1)
          ctx.eq(call["v"], theta, "initial state of the local problem")
          ctx.eq(call["Av"], c21.np_apply(now, dw, q, width, theta), "effective Hamiltonian in the sweep")
          hist.append((q, r))
          return e
        return g

      dm._optimize_1s_local, dm._optimize_2s_local = wrap(one_), wrap(two_)
      with Lanczos(ctx, cplx) as lz:
        e = dm.run_one_site(num_sweeps=1) if width == 1 else dm.run_two_site(max_bond_dim=9, num_sweeps=1)
      new = [B.out(t) for t in dm.mps.tensors]
      rt = [(q, True) for q in range(n - 1)]
      lt = [(q, False) for q in (range(n - 1, 0, -1) if width == 1 else range(n - 2, -1, -1))]
      ctx.check(hist == rt + lt, "a sweep optimises every site in both directions")
      ctx.check(e == lz.calls[-1]["e"], "the energy returned is that of the last local problem")
      ctx.check(dm.mps.center_position == 0, "the centre is at the left end")
      c21.envs_ok(ctx, B, dm, dw, "swept", ("right",))
      fits(ctx, dm.mps, ts, "swept")
    ml.canonical(ctx, new, 0, "after a sweep: ")
  finally:
    dmrg_mod.stdout = saved


def scenarios(tier):
  out = []
  th = tier == "thorough"

  def add(what, fn, *args):
    out.append(Scenario(f"{what} " + " ".join(str(a) if not isinstance(a, bool) else ("c" if a else "r") for a in args), fn, *args))

  for cplx in (False, True):
    for lay in LAY:
      if lay == "2 symbolic" and cplx:
        continue
      n = len(LAY[lay][2]) - 1
      fat = lay in FAT
      add("moves", move, lay, cplx, not fat)
      add("environments", envs, lay, cplx)
      add("operators", operators, lay, cplx)
      add("one-site gate", gates, lay, cplx, "one")
      if not (cplx and lay == "3"):
        add("orthonormality", orthonormality, lay, cplx)
      add("transfer", transfer, lay, cplx)
      for how in ("constructor", "normalize", "unnormalized"):
        if n < 4:
          add("canonicalize", canonicalize, lay, cplx, how)
      if n < 4 and not fat:
        add("energy", energy, lay, cplx)
        add("effective", effective, lay, cplx, 1)
      if n > 1:
        for how in ("D", "err", "loose") if not fat else ():
          # many orders of the singular values of four sites; ties of a degenerate sector are C16's
          if not (how == "err" and n == 4) and not (how == "loose" and (n == 4 or "symbolic" in lay)):
            add("truncating", truncating, lay, cplx, how)
        for how in ("qr", "loose", "D", "err") if not fat else ("qr",):
          if how != "err" or n < 4 or th:
            add("two-site gate", gates, lay, cplx, how)
        if n < 4 and not fat:
          add("effective", effective, lay, cplx, 2)
          add("update", update, lay, cplx, 1, None)
          add("update", update, lay, cplx, 2, None)
          add("update", update, lay, cplx, 2, 1)
          if n == 2 or th:
            add("sweep", sweep, lay, cplx, 1)
            add("sweep", sweep, lay, cplx, 2)
  return out
