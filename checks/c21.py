"""C21: DMRG environments, effective Hamiltonians, energies and local updates."""
import io
import numpy as np
import tensornetwork as tn
from tensornetwork.matrixproductstates import dmrg as dmrg_mod
from tensornetwork.matrixproductstates.mpo import FiniteMPO
from tensornetwork.matrixproductstates.dmrg import FiniteDMRG
from runner import Scenario
import mpslib as ml
import shims
from c18 import scalar, one

BOUNDS = ("FiniteMPS of 1 to 4 sites (thorough: 5), physical dimension 2 (also 3 for two sites), bond dimension up to 2, arbitrary real or "
          "complex tensors satisfying the canonical form at every centre; FiniteMPO with arbitrary (not Hermitian) tensors, bond dimension "
          "1 to 2; one and two moves of the centre after the environments were computed, for all positions; single- and two-site updates in "
          "both directions with an arbitrary vector returned by the Lanczos solver; one full sweep with one and two sites; NumPy, JAX, "
          "TensorFlow for two sites")
OUTSIDE = ("rounding; longer chains; convergence of the Lanczos solver (C27: what it returns is an unknown tensor here); environments on "
           "the far side of the centre; two-site DMRG of a single site; that a kept singular value is the right one (C08)")
ASSUMPTIONS = ["LAPACK's qr and svd satisfy their contracts", "eigsh_lanczos returns a non-zero vector of the shape of the initial state"]
BACKENDS = ("numpy", "jax", "tensorflow")
shims.preload(BACKENDS)


def mpo_tensors(ctx, n, d, k, cplx):
  b = [1] + [k] * (n - 1) + [1]
  return [ctx.tensor(f"W{i}", (b[i], b[i + 1], d, d), cplx) for i in range(n)]


def operator(ws):
  """dense operator [out1..outn, in1..inn] of MPO tensors (left, right, out, in)"""
  n = len(ws)
  r = np.asarray(ws[0])[0]  # right, out, in
  for w in ws[1:]:
    r = np.tensordot(r, np.asarray(w), ([0], [0]))  # out.. in, right, out, in
    k = r.ndim - 3
    r = np.moveaxis(r, k, 0)
    # order: right, (out,in)*, out, in
  # axes: right(1), out1, in1, out2, in2 ...
  r = r[0]
  return r.transpose(list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2)))


def left_env(ts, ws, m):
  """[mpo, mps, conj mps]: everything left of site m"""
  e = np.ones((1, ts[0].shape[0], ts[0].shape[0]), dtype=np.asarray(ts[0]).dtype)
  for t, w in zip(ts[:m], ws[:m]):
    x = np.tensordot(e, t, ([1], [0]))  # k, b', s, a
    x = np.tensordot(x, w, ([0, 2], [0, 3]))  # b', a, k2, out
    x = np.tensordot(x, np.conj(t), ([0, 3], [0, 1]))  # a, k2, b
    e = x.transpose(1, 0, 2)
  return e


def right_env(ts, ws, m):
  e = np.ones((1, ts[-1].shape[2], ts[-1].shape[2]), dtype=np.asarray(ts[-1]).dtype)
  for t, w in list(zip(ts, ws))[:m:-1]:
    x = np.tensordot(t, e, ([2], [1]))  # a, s, k, b'
    x = np.tensordot(x, w, ([1, 2], [3, 1]))  # a, b', k2, out
    x = np.tensordot(x, np.conj(t), ([1, 3], [2, 1]))  # a, k2, b
    e = x.transpose(1, 0, 2)
  return e


def envs_ok(ctx, B, dm, ws, label, sides=("left", "right")):
  c = dm.mps.center_position
  ts = [B.out(t) for t in dm.mps.tensors]
  if "left" in sides:
    for m in range(c + 1):
      ctx.check(m in dm.left_envs, f"{label}: left environment kept")
      ctx.eq(B.out(dm.left_envs[m]), left_env(ts, ws, m), f"{label}: left environment")
    for m in dm.left_envs:
      if m > c and label == "moved":
        ctx.fail("no stale left environments are kept", str(m))
  if "right" in sides:
    for m in range(c, len(ts)):
      ctx.check(m in dm.right_envs, f"{label}: right environment kept")
      ctx.eq(B.out(dm.right_envs[m]), right_env(ts, ws, m), f"{label}: right environment")
    for m in dm.right_envs:
      if m < c and label == "moved":
        ctx.fail("no stale right environments are kept", str(m))


def make(ctx, B, name, ts, ws, c):
  m = ml.make([B.arr(t) for t in ts], c, name)
  o = FiniteMPO([B.arr(w) for w in ws], backend=name)
  return FiniteDMRG(m, o)


def moves(ctx, name, n, d, D, k, cplx, steps):
  """environments after computing them and moving the centre"""
  c = ctx.pick("centre", 0, n - 1)
  ts = ml.tensors(ctx, n, d, D, c, cplx)
  ws = mpo_tensors(ctx, n, d, k, cplx)
  orig = [ctx.contents(t) for t in ts]
  with shims.on(ctx, name) as B:
    dm = make(ctx, B, name, ts, ws, c)
    given = list(dm.mps.tensors)
    dm.compute_left_envs()
    dm.compute_right_envs()
    envs_ok(ctx, B, dm, ws, "computed")
    ctx.check(dm.mps.center_position == c, "computing environments does not move the centre")
    for s in range(steps):
      p = ctx.pick(f"position{s}", 0, n - 1)
      r = dm.position(p)
      ctx.check(r is dm, "position returns the simulation")
      ctx.check(dm.mps.center_position == p, "centre is the requested one")
      envs_ok(ctx, B, dm, ws, "moved" if p != c else "not moved")
      new = [B.out(t) for t in dm.mps.tensors]
      ml.canonical(ctx, new, p, "after moving: ")
    for t, o in zip(given, orig):
      ctx.eq(B.out(t), o, "the arrays the MPS was made from are not modified")
    for i in (-1, n):
      ctx.raises(IndexError, lambda i=i: dm.position(i), "site out of range")
    ctx.check(dm.mps.center_position == (p if steps else c), "a refused move changes nothing")


def exchanged(ctx, name, n, d, D, k, cplx, what):
  """the MPS or the MPO was changed by hand after environments had been computed: they describe the tensors as they are now"""
  c = ctx.pick("centre", 0, n - 1)
  ts = ml.tensors(ctx, n, d, D, c, cplx)
  new = ml.tensors(ctx, n, d, D, c, cplx, prefix="B")
  ws = mpo_tensors(ctx, n, d, k, cplx)
  with shims.on(ctx, name) as B:
    dm = make(ctx, B, name, ts, ws, c)
    dm.compute_left_envs()
    dm.compute_right_envs()
    if what == "tensors":
      for i in range(n):
        dm.mps.tensors[i] = B.arr(new[i])
    else:
      p = ctx.pick("moved to", 0, n - 1)
      dm.mps.position(p)   # not through the simulation
    dm.compute_left_envs()
    dm.compute_right_envs()
    envs_ok(ctx, B, dm, ws, "recomputed")
    if what == "tensors" and n < 3:
      e = dm.compute_energy()
      psi = ml.state([B.out(t) for t in dm.mps.tensors])
      ctx.eq(one(ctx, scalar(ctx, e)), one(ctx, np.sum(np.conj(psi) * apply(operator(ws), psi))), "energy of the new state")


def embed(ts, s, width, x):
  """the state with the tensors s .. s+width-1 replaced by x"""
  r = np.asarray(x)
  for t in reversed(ts[:s]):
    r = np.tensordot(np.asarray(t), r, 1)
  for t in ts[s + width:]:
    r = np.tensordot(r, np.asarray(t), 1)
  return r


def project(ts, s, width, psi):
  """the adjoint of embed: tensor of the shape of x"""
  n = len(ts)
  r = psi  # (l, d.., r)
  for t in ts[:s]:
    r = np.tensordot(np.conj(np.asarray(t)), r, ([0, 1], [0, 1]))
  for t in reversed(ts[s + width:]):
    r = np.tensordot(r, np.conj(np.asarray(t)), ([r.ndim - 2, r.ndim - 1], [1, 2]))
  return r


def apply(op, psi):
  n = op.ndim // 2
  r = np.tensordot(op, psi, (list(range(n, 2 * n)), list(range(1, n + 1))))
  # out.., left, right
  return np.moveaxis(r, n, 0)


def effective(ctx, name, n, d, D, k, cplx, width):
  """the effective Hamiltonian is the projection of the full operator"""
  c = ctx.pick("centre", 0, n - 1)
  s = c if width == 1 else ctx.choice("first site", [x for x in (c - 1, c) if 0 <= x < n - 1])
  ts = ml.tensors(ctx, n, d, D, c, cplx)
  ws = mpo_tensors(ctx, n, d, k, cplx)
  shape = (ts[s].shape[0],) + (d,) * width + (ts[s + width - 1].shape[2],)
  x = ctx.tensor("x", shape, cplx)
  with shims.on(ctx, name) as B:
    dm = make(ctx, B, name, ts, ws, c)
    dm.compute_left_envs()
    dm.compute_right_envs()
    if s < c:
      L, R = dm.left_envs[s], dm.right_envs[c]
    else:
      L, R = dm.left_envs[s], None
      if width == 1:
        R = dm.right_envs[s]
      else:
        R = dm.right_envs[s + 1]
    W = [B.arr(w) for w in ws]
    if width == 1:
      got = B.out(dm.single_site_matvec(B.arr(x), L, W[s], R))
    else:
      got = B.out(dm.two_site_matvec(B.arr(x), L, W[s], W[s + 1], R))
  want = project(ts, s, width, apply(operator(ws), embed(ts, s, width, x)))
  ctx.eq(got, want, "projection of the full operator")


def energy(ctx, name, n, d, D, k, cplx, solver):
  """compute_energy, run_*_site(num_sweeps=0)"""
  c = ctx.pick("centre", 0, n - 1)
  ts = ml.tensors(ctx, n, d, D, c, cplx)
  ws = mpo_tensors(ctx, n, d, k, cplx)
  with shims.on(ctx, name) as B:
    dm = make(ctx, B, name, ts, ws, c)
    if ctx.choice("environments", ["computed before", "not computed"]) == "computed before":
      dm.compute_left_envs()
      dm.compute_right_envs()
    if solver == "energy":
      e = dm.compute_energy()
    elif solver == "one":
      e = dm.run_one_site(num_sweeps=0)
    else:
      e = dm.run_two_site(max_bond_dim=D, num_sweeps=0)
    new = [B.out(t) for t in dm.mps.tensors]
    ctx.check(dm.mps.center_position == 0, "the centre is at the left end")
    envs_ok(ctx, B, dm, ws, "energy", ("right",))
    ctx.eq(B.out(dm.left_envs[0]), left_env(new, ws, 0), "left boundary")
  ml.canonical(ctx, new, 0, "energy: ")
  psi = ml.state(new)
  ctx.eq(one(ctx, scalar(ctx, e)), one(ctx, np.sum(np.conj(psi) * apply(operator(ws), psi))), "<psi|H|psi>")
  ctx.eq(one(ctx, ml.norm2(new[0])), one(ctx, 1), "the state is normalised")


class Lanczos:
  """stands in for the Krylov solver: records what it was asked and returns an unknown vector"""

  def __init__(self, ctx, B, cplx, energies=None):
    self.ctx, self.B, self.cplx = ctx, B, cplx
    self.calls = []
    self.energies = energies

  def __enter__(self):
    be = self.B.backend
    self.be = be

    def eigsh_lanczos(A, args=None, initial_state=None, num_krylov_vecs=20, numeig=1, tol=1e-8, delta=1e-8, ndiag=20,
                      reorthogonalize=False, **kw):
      ctx, B = self.ctx, self.B
      k = len(self.calls)
      v = B.out(initial_state)
      got = B.out(A(initial_state, *args))
      x = ctx.tensor(f"ground state {k}", v.shape, self.cplx)
      if ctx.symbolic:
        ctx.eng.assume_nonzero(ml.norm2(x))
      e = 0.5 * k + 1.0 if self.energies is None else self.energies[k]
      self.calls.append(dict(v=v, Av=got, x=ctx.contents(x), e=e, n=numeig, mkv=num_krylov_vecs))
      return [e], [B.arr(x)]

    be.__dict__["eigsh_lanczos"] = eigsh_lanczos
    return self

  def __exit__(self, *a):
    del self.be.__dict__["eigsh_lanczos"]
    return False


def update(ctx, name, n, d, D, k, cplx, width, maxd):
  """a local update with an arbitrary ground state"""
  ctx.nonzero_svd()
  c = ctx.pick("centre", 0, n - 1)
  sweep = ctx.choice("sweep_dir", ["r", "right", "l", "left"])
  right = sweep[0] == "r"
  if width == 2 and (c == n - 1 if right else c == 0):
    return
  ts = ml.tensors(ctx, n, d, D, c, cplx)
  ws = mpo_tensors(ctx, n, d, k, cplx)
  orig = [ctx.contents(t) for t in ts]
  s = c if width == 1 or right else c - 1
  with shims.on(ctx, name) as B:
    dm = make(ctx, B, name, ts, ws, c)
    dm.compute_left_envs()
    dm.compute_right_envs()
    given = list(dm.mps.tensors)
    with Lanczos(ctx, B, cplx) as lz:
      if width == 1:
        e = dm._optimize_1s_local(sweep_dir=sweep)
      else:
        e = dm._optimize_2s_local(max_bond_dim=maxd, sweep_dir=sweep)
    ctx.check(len(lz.calls) == 1, "one local problem")
    call = lz.calls[0]
    ctx.check(e == call["e"], "the energy is the solver's")
    theta = ts[s] if width == 1 else np.tensordot(ts[s], ts[s + 1], 1)
    ctx.eq(call["v"], theta, "initial state of the local problem")
    ctx.eq(call["Av"], project(ts, s, width, apply(operator(ws), embed(ts, s, width, theta))), "effective Hamiltonian")
    for t, o in zip(given, orig):
      ctx.eq(B.out(t), o, "the arrays the MPS was made from are not modified")
    new = [B.out(t) for t in dm.mps.tensors]
    want = min(c + 1, n - 1) if right else max(c - 1, 0)
    ctx.check(dm.mps.center_position == want, "the centre moved one site")
    ends = width == 1 and (c == n - 1 if right else c == 0)
    envs_ok(ctx, B, dm, ws, "updated")
  if not ends:
    ml.canonical(ctx, new, want, "after an update: ")
  # the updated tensors carry the solver's vector
  x = call["x"]
  n2 = ml.norm2(x)
  nx = n2.sqrt() if ctx.symbolic else np.sqrt(n2)
  if ends:
    # the phase of the single state left may change
    t = new[s]
    ctx.parallel(t, x / nx, "the solver's vector up to normalisation")
    ctx.eq(one(ctx, ml.norm2(t)), one(ctx, 1), "normalised")
    for i in range(n):
      if i != s:
        ctx.eq(new[i], ts[i], "other tensors keep their value")
    return
  keep = {s, s + 1} if right or width == 2 else {s - 1, s}
  for i in range(n):
    if i not in keep:
      ctx.eq(new[i], ts[i], "other tensors keep their value")
  a, b = (s, s + 1) if right or width == 2 else (s - 1, s)
  got = np.tensordot(new[a], new[b], 1)
  ctx.check(new[a].shape[2] == new[b].shape[0], "bond dimensions match")
  if width == 2:
    full = min(x.shape[0] * d, d * x.shape[3])
    if maxd is not None:
      ctx.check(new[a].shape[2] == min(maxd, full), "bond dimension limited")
    if maxd is None or maxd >= full:
      ctx.eq(got * nx, x, "the solver's vector, normalised")
  elif right:
    ctx.eq(got * nx, np.tensordot(x, ts[s + 1], 1), "the solver's vector, normalised")
  else:
    ctx.eq(got * nx, np.tensordot(ts[s - 1], x, 1), "the solver's vector, normalised")


def sweep(ctx, name, n, d, D, k, cplx, width, sweeps):
  """run_one_site / run_two_site with an arbitrary solver"""
  ctx.nonzero_svd()
  c = ctx.pick("centre", 0, n - 1)
  ts = ml.tensors(ctx, n, d, D, c, cplx)
  ws = mpo_tensors(ctx, n, d, k, cplx)
  per = (2 * (n - 1) or 1)
  plan = ctx.choice("energies", ["all different", "second sweep repeats"])
  es = []
  for j in range(sweeps + 1):
    for i in range(per + 1):
      es.append(3.0 + 0.5 * i if plan == "second sweep repeats" else 3.0 - 0.5 * i - 7.0 * j)
  saved = dmrg_mod.stdout
  dmrg_mod.stdout = io.StringIO()
  hist = []
  try:
    with shims.on(ctx, name) as B:
      dm = make(ctx, B, name, ts, ws, c)
      if ctx.choice("environments", ["computed before", "not computed"]) == "computed before":
        dm.compute_left_envs()
        dm.compute_right_envs()
      if n > 1:
        energies = []
        for j in range(sweeps):
          energies += [3.0 + 0.5 * i - (0 if plan == "second sweep repeats" else 7.0 * j) for i in range(per)]
      else:
        energies = [3.0] * (sweeps * 2)
      orig1, orig2 = dm._optimize_1s_local, dm._optimize_2s_local

      def wrap(f):
        def g(*a, **kw):
          # what the local problem looks like when it is solved
          p = dm.mps.center_position
          now = [B.out(t) for t in dm.mps.tensors]
          r = kw.get("sweep_dir") in ("r", "right")
          q = p if width == 1 or r else p - 1
          k0 = len(lz.calls)
          e = f(*a, **kw)
          call = lz.calls[k0]
          theta = now[q] if width == 1 else np.tensordot(now[q], now[q + 1], 1)
          ctx.eq(call["v"], theta, "initial state of the local problem")
          ctx.eq(call["Av"], np_apply(now, ws, q, width, theta), "effective Hamiltonian in the sweep")
          hist.append((q, r))
          return e
        return g
      dm._optimize_1s_local, dm._optimize_2s_local = wrap(orig1), wrap(orig2)
      with Lanczos(ctx, B, cplx, energies) as lz:
        if width == 1:
          e = dm.run_one_site(num_sweeps=sweeps, precision=1e-6)
        else:
          e = dm.run_two_site(max_bond_dim=D, num_sweeps=sweeps, precision=1e-6)
      new = [B.out(t) for t in dm.mps.tensors]
      done = sweeps if plan == "all different" else min(sweeps, 2)
      if n > 1:
        right = [(q, True) for q in range(n - 1)]
        left = [(q, False) for q in (range(n - 1, 0, -1) if width == 1 else range(n - 2, -1, -1))]
        ctx.check(hist == (right + left) * done, "a sweep optimises every site in both directions until converged")
      ctx.check(e == lz.calls[-1]["e"], "the energy returned is that of the last local problem")
      ctx.check(dm.mps.center_position == 0, "the centre is at the left end")
      envs_ok(ctx, B, dm, ws, "swept", ("right",))
      ctx.eq(B.out(dm.left_envs[0]), left_env(new, ws, 0), "left boundary")
    if n > 1:
      ml.canonical(ctx, new, 0, "after a sweep: ")
  finally:
    dmrg_mod.stdout = saved


def np_apply(now, ws, q, width, theta):
  """effective Hamiltonian built from dense environments of the current tensors"""
  L, R = left_env(now, ws, q), right_env(now, ws, q + width - 1)
  x = np.tensordot(L, theta, ([1], [0]))  # k, b, s.., r
  if width == 1:
    x = np.tensordot(x, ws[q], ([0, 2], [0, 3]))  # b, r, k2, out
    x = np.tensordot(x, R, ([2, 1], [0, 1]))  # b, out, b'
    return x
  x = np.tensordot(x, ws[q], ([0, 2], [0, 3]))  # b, s2, r, k2, o1
  x = np.tensordot(x, ws[q + 1], ([3, 1], [0, 3]))  # b, r, o1, k3, o2
  return np.tensordot(x, R, ([3, 1], [0, 1]))  # b, o1, o2, b'


def rejected(ctx):
  ts = ml.tensors(ctx, 2, 2, 2, 0, False)
  ws = mpo_tensors(ctx, 2, 2, 2, False)
  m = ml.make(ts, None, "numpy")
  o = FiniteMPO(ws, backend="numpy")
  ctx.raises(ValueError, lambda: FiniteDMRG(m, o), "no canonical form")
  m = ml.make(ts, 0, "numpy")
  o3 = FiniteMPO(mpo_tensors(ctx, 3, 2, 2, False), backend="numpy")
  ctx.raises(ValueError, lambda: FiniteDMRG(m, o3), "different lengths")
  ctx.raises(TypeError, lambda: FiniteDMRG(m, FiniteMPO([np.ones((1, 1, 2, 2), dtype=np.int8)] * 2, backend="numpy")), "different dtypes")


def scenarios(tier):
  out = []
  th = tier == "thorough"

  def add(what, fn, *args, **kw):
    out.append(Scenario(f"{what} " + " ".join(str(a) if not isinstance(a, bool) else ("c" if a else "r") for a in args), fn, *args, **kw))

  for b in BACKENDS:
    for cplx in (False, True):
      top = {"numpy": 4, "jax": 3, "tensorflow": 2}[b] + (1 if th else 0)
      for n in range(1, top + 1):
        small = n >= 4
        add("moves", moves, b, n, 2, 2, 2 if not small else 1, cplx, 2 if n <= 2 or (n == 3 and th) else 1)
        add("energy", energy, b, n, 2, 2, 2 if n < 4 else 1, cplx, "energy")
        add("effective", effective, b, n, 2, 2, 2 if n < 4 else 1, cplx, 1)
        add("update", update, b, n, 2, 2, 2 if n < 4 else 1, cplx, 1, None)
        if n > 1:
          add("effective", effective, b, n, 2, 2, 2 if n < 4 else 1, cplx, 2)
          for maxd in (None, 1, 2):
            add("update", update, b, n, 2, 2, 2 if n < 4 else 1, cplx, 2, maxd)
      for n in (2, 3):
        if n <= top and (b == "numpy" or n == 2):
          add("exchanged", exchanged, b, n, 2, 2, 2, cplx, "tensors")
          add("exchanged", exchanged, b, n, 2, 2, 2, cplx, "moved")
      if b == "numpy":
        add("effective", effective, b, 2, 3, 2, 2, cplx, 1)
        for s in ("one", "two"):
          add("energy", energy, b, 2, 2, 2, 2, cplx, s)
      for n in (1, 2, 3):
        if n > top or (b != "numpy" and n > 2):
          continue
        for width in (1, 2):
          if n == 1 and width == 2:
            continue
          add("sweep", sweep, b, n, 2, 2, 1, cplx, width, 1)
          if n == 2:
            add("sweep", sweep, b, n, 2, 2, 1, cplx, width, 3)
  add("rejected", rejected)
  return out
