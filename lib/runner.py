"""Runs the scenarios of one check, reports violations, writes evidence."""
import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [REPO, HERE, os.path.join(VERIF, "checks")]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True

os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "-1")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Scenario:

  def __init__(self, name, fn, *args, max_paths=100000, timeout=None, validate=2, tier="quick", tol=1e-6, **kw):
    self.name = name
    self.fn0 = fn
    self.args = args
    self.kw = kw
    self.max_paths = max_paths
    self.timeout = timeout
    self.validate = validate
    self.tier = tier
    self.tol = tol

  def fn(self, ctx):
    return self.fn0(ctx, *self.args, **self.kw)


class Timeout(BaseException):
  pass


def _alarm(*_):
  raise Timeout()


_SCEN = None
NSCEN = 0
_END = None


def _work(i):
  import engine
  sc = _SCEN[i % NSCEN]
  engine.SLOW = 1 if i < NSCEN else 5
  st = engine.Stats()
  t0 = time.time()
  if t0 > _END:
    st.complete = False
    return i, pack(st), [], 0.0, True
  deadline = min(_END, t0 + (sc.timeout or 100000))
  signal.signal(signal.SIGALRM, _alarm)
  viol = []
  signal.setitimer(signal.ITIMER_REAL, max(1.0, deadline - t0 + 20))
  try:
    viol = engine.explore(sc.fn, st, deadline, REPO, sc.max_paths, sc.validate)
  except Timeout:
    st.complete = False
    st.inconclusive.append("scenario did not finish in time")
  except MemoryError:
    st.complete = False
    st.inconclusive.append("out of memory")
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
  return i, pack(st), [(v.label, v.detail[:1500], v.values, v.exact, _likely(sc, v)) for v in viol], time.time() - t0, False


def _likely(sc, v):
  """does the counterexample fail in this process as well (the reported replay is a fresh process)"""
  import engine
  signal.setitimer(signal.ITIMER_REAL, 60)
  try:
    return any(engine.run_concrete(sc.fn, vals, sc.tol)[0] == "fail" for vals in v.values)
  except BaseException:  # pylint: disable=broad-except
    return True
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)


def _serve(conn):
  signal.signal(signal.SIGTERM, signal.SIG_DFL)
  while True:
    i = conn.recv()
    if i is None:
      return
    try:
      r = _work(i)
    except BaseException as e:  # pylint: disable=broad-except
      r = _lost(i, f"{type(e).__name__}: {e}")
    conn.send(r)


def _lost(i, why):
  import engine
  st = engine.Stats()
  st.complete = False
  st.inconclusive.append(why)
  return i, pack(st), [], 0.0, False


def _parallel(todo, jobs, per_worker=8):
  """results of _work as they come; a worker that dies or hangs costs its scenario only"""
  from multiprocessing.connection import wait
  ctx = mp.get_context("fork")
  todo = list(todo)[::-1]
  workers = {}

  def start():
    here, there = ctx.Pipe()
    p = ctx.Process(target=_serve, args=(there,), daemon=True)
    p.start()
    there.close()
    workers[here] = [p, None, 0, 0.0]
    give(here)

  def give(c):
    w = workers[c]
    if todo and w[2] < per_worker:
      w[1], w[2] = todo.pop(), w[2] + 1
      w[3] = min(_END, time.time() + (_SCEN[w[1] % NSCEN].timeout or 100000)) + 90
      c.send(w[1])
      return
    stop(c)
    if todo:
      start()

  def stop(c, kill=False):
    w = workers.pop(c)
    if kill:
      w[0].kill()
    else:
      try:
        c.send(None)
      except OSError:
        pass
    c.close()
    w[0].join(5)

  try:
    for _ in range(jobs):
      if todo:
        start()
    while workers:
      for c in wait(list(workers), timeout=5):
        try:
          r = c.recv()
        except (EOFError, OSError):
          i = workers[c][1]
          stop(c, True)
          if todo:
            start()
          yield _lost(i, "the worker died")
          continue
        give(c)
        yield r
      for c in [c for c, w in workers.items() if time.time() > w[3]]:
        i = workers[c][1]
        stop(c, True)
        if todo:
          start()
        yield _lost(i, "scenario did not finish in time")
  finally:
    for c in list(workers):
      stop(c, True)


def pack(st):
  d = dict(st.__dict__)
  d["functions"] = sorted(st.functions)
  d["stubs"] = sorted(st.stubs)
  return d


def load(prop):
  import stubs
  mod = importlib.import_module(prop.lower())
  stubs.install()
  return mod


def known_findings():
  out = []
  p = os.path.join(VERIF, "known_findings.jsonl")
  if os.path.exists(p):
    with open(p) as f:
      for l in f:
        l = l.strip()
        if l:
          out.append(json.loads(l))
  return out


def replay(path):
  with open(path) as f:
    r = json.load(f)
  mod = load(r["property"])
  import engine
  tiers = [r.get("tier", TIER), "quick", "thorough"]
  sc = next(s for t in tiers for s in mod.scenarios(t) if s.name == r["scenario"])
  for vals in r["candidates"]:
    st, detail, _ = engine.run_concrete(sc.fn, vals, sc.tol)
    if st == "fail":
      print(f"REPRODUCED property={r['property']} scenario={r['scenario']}: {detail}")
      print("values: " + json.dumps(vals)[:2000])
      return 1
  print("not reproduced")
  return 0


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("property")
  ap.add_argument("--replay")
  ap.add_argument("--only")
  ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
  ap.add_argument("-v", action="store_true")
  ap.add_argument("--budget", type=float)
  a = ap.parse_args()
  a.property = a.property.upper()
  if a.replay:
    sys.exit(replay(a.replay))
  global _SCEN, _END, NSCEN
  prop = a.property
  t0 = time.time()
  budget = a.budget or (240 if TIER == "quick" else 1500)
  _END = t0 + budget
  mod = load(prop)
  scen = [s for s in mod.scenarios(TIER) if not a.only or a.only in s.name]
  names = [s.name for s in scen]
  assert len(set(names)) == len(names), "duplicate scenario names"
  _SCEN, NSCEN = scen, len(scen)
  again = []
  repdir = os.path.join(VERIF, "evidence", "replays")
  os.makedirs(repdir, exist_ok=True)
  for f in glob.glob(os.path.join(repdir, f"{prop}-*.json")):
    os.remove(f)
  findings = [k for k in known_findings() if k.get("property") == prop and k.get("kind") == "finding"]
  tot = dict(paths=0, decisions=0, obligations=0, discharged=0, queries=0, solver_time=0.0, validated=0, witnesses=0,
             inst=0)
  functions, stubset, notes, inconc, samples = set(), set(), set(), [], []
  complete, hard, nviol, nskipped = True, 0, 0, 0
  unlikely = 0
  per = []
  violations = []
  seen_findings = set()

  def handle(res):
    nonlocal complete, hard, nviol, nskipped
    i, st, viol, dt, skipped = res
    first, sc = i < NSCEN, scen[i % NSCEN]
    if first and ("MISMATCH" in st["notes"] or any(exact and not likely for _, _, _, exact, likely in viol)) and not any(
        likely for _, _, _, _, likely in viol):
      # a solver that ran out of time leads to this too: try again, with more of it
      again.append(i + NSCEN)
      return
    if skipped:
      nskipped += 1
    for k in tot:
      tot[k] += st[k]
    functions.update(st["functions"])
    stubset.update(st["stubs"])
    notes.update(st["notes"])
    complete = complete and st["complete"]
    inconc.extend(f"{sc.name}: {x}" for x in st["inconclusive"])
    if st["complete"] and st["paths"] and not st["obligations"] and not viol and not skipped:
      inconc.append(f"{sc.name}: vacuous, no path reaches an assertion")
    if any(x == "MISMATCH" for x in st["notes"]):
      hard += 1
    for s in st["samples"][:1]:
      if len(samples) < 12:
        samples.append(dict(scenario=sc.name, **s))
    per.append((dt, sc.name, st["paths"], st["obligations"]))
    if a.v:
      print(f"{sc.name}: paths={st['paths']} obl={st['discharged']}/{st['obligations']} q={st['queries']} "
            f"inst={st['inst']} solver={st['solver_time']:.1f} {dt:.1f}s {st['inconclusive'][:2]}", flush=True)
    for label, detail, values, exact, likely in viol:
      if not likely:
        nonlocal unlikely
        unlikely += 1
        if unlikely > 8:
          inconc.append(f"{sc.name}: candidate not reproduced in the worker: {label}: {detail[:300]}")
          if exact:
            hard += 1
          continue
      n = len(os.listdir(repdir))
      path = os.path.join(repdir, f"{prop}-{n}.json")
      with open(path, "w") as f:
        json.dump(dict(property=prop, tier=TIER, scenario=sc.name, label=label, detail=detail, candidates=values), f, indent=1)
      try:
        r = subprocess.run([sys.executable, os.path.join(HERE, "runner.py"), prop, "--replay", path],
                           capture_output=True, text=True, timeout=120, check=False)
        ok, out = r.returncode == 1 and "REPRODUCED" in r.stdout, (r.stdout + r.stderr)[-1500:]
      except subprocess.TimeoutExpired:
        ok, out = True, "the replay does not terminate"
      if ok:
        kf = [k for k in findings if k["scenario"] == sc.name and k.get("match", "") in out]
        if kf:
          if kf[0]["what"] not in seen_findings:
            seen_findings.add(kf[0]["what"])
            print(f"KNOWN-FINDING: property={prop} {kf[0]['what']}", flush=True)
          continue
        nviol += 1
        violations.append(path)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  scenario {sc.name}: {label}: {detail[:600]}")
        print("  " + out.strip()[:1200], flush=True)
      else:
        inconc.append(f"{sc.name}: candidate not reproduced: {label}: {detail[:300]} [{out.strip()[:200]}]")
        if exact:
          hard += 1

  todo = list(range(len(scen)))
  if a.jobs <= 1:
    for i in todo:
      handle(_work(i))
  else:
    for res in _parallel(todo, min(a.jobs, max(1, len(scen)))):
      handle(res)
      if nviol >= int(os.environ.get("VERIF_MAX_VIOLATIONS", "3")):
        complete = False
        break
  if again and nviol < int(os.environ.get("VERIF_MAX_VIOLATIONS", "3")):
    print(f"{len(again)} scenarios tried again with longer solver time limits")
    _END = max(_END, time.time() + 120)
    for res in _parallel(again, min(4, len(again))):
      handle(res)
  wall = time.time() - t0
  per.sort(reverse=True)
  ev = dict(
      property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="model_checking",
      coverage=dict(
          states=tot["paths"], transitions=tot["decisions"], traces_validated_against_impl=tot["validated"],
          obligations=tot["obligations"], discharged=tot["discharged"], samples=samples or [dict(note="none")],
          solver_queries=tot["queries"], solver_time_s=round(tot["solver_time"], 2),
          hypothesis_instances=tot["inst"], reachability_witnesses=tot["witnesses"], scenarios=len(scen),
          scenarios_skipped=nskipped, functions_encoded=sorted(functions), environment_stubs=sorted(stubset),
          bounds=getattr(mod, "BOUNDS", ""), outside=getattr(mod, "OUTSIDE", ""), inconclusive=inconc[:40],
          notes=sorted(notes)[:20], exhaustive=bool(complete and not inconc),
          explanation="states: symbolic execution paths completed; transitions: branch decisions put to z3; "
          "obligations: assertions over all values of the unknowns, discharged: those z3 answered unsat",
          slowest=[dict(scenario=n, s=round(d, 1), paths=p, obligations=o) for d, n, p, o in per[:5]]),
      assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
          "exact arithmetic: numpy arrays of exact polynomials stand for floating point arrays (rounding is outside)"
      ],
      wall_s=round(wall, 2), violations=nviol)
  with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
    json.dump(ev, f, indent=1)
  for x in inconc[:10]:
    print("INCONCLUSIVE " + x[:700])
  print(f"{prop}: scenarios={len(scen)} paths={tot['paths']} decisions={tot['decisions']} "
        f"obligations={tot['discharged']}/{tot['obligations']} queries={tot['queries']} solver={tot['solver_time']:.1f}s "
        f"validated={tot['validated']} complete={complete} wall={wall:.1f}s")
  if nviol:
    sys.exit(1)
  if hard or not tot["discharged"]:
    print("ERROR: the encoding disagrees with the code or nothing was discharged")
    sys.exit(2)
  sys.exit(0)


if __name__ == "__main__":
  main()
