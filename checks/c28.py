"""C28: default-backend and node-collection contexts nest like a stack."""
import numpy as np
import tensornetwork as tn
from tensornetwork import backend_contextmanager as bc
from tensornetwork.backends.numpy.numpy_backend import NumPyBackend
from runner import Scenario
import shims

BOUNDS = ("every program of up to 4 steps (thorough: 5) over: entering a context for a backend given by name or as an object, entering "
          "an already open context object again, entering a node collection (new list, new set or the container already open), leaving "
          "normally or by an exception (caught at any level, Exception, BaseException, GeneratorExit, KeyboardInterrupt or StopIteration), setting the default inside and outside, "
          "invalid arguments; after every step the default, new nodes, copy nodes, tensors, eye, ncon, MPS/MPO tensors, node copies, "
          "contractions and splits are compared with a model stack")
OUTSIDE = "threads; contexts left in another order than entered (generators)"
shims.preload(("jax",))


class Boom(Exception):
  pass


class BoomBase(BaseException):
  pass


class BoomExit(GeneratorExit):
  pass


class BoomKey(KeyboardInterrupt):
  pass


class BoomStop(StopIteration):
  pass


BOOMS = [BoomExit, BoomKey, BoomStop, Boom, BoomBase]


OBJ = NumPyBackend()


def reset():
  """a broken tree may have left contexts open on an earlier path"""
  for _ in range(20):
    try:
      tn.set_default_backend("numpy")
      break
    except AssertionError:
      try:
        bc._default_backend_stack.stack.pop()
      except (AttributeError, IndexError):
        break


class Run:

  def __init__(self, ctx, steps, kinds, heavy, booms=(Boom, BoomBase)):
    self.ctx = ctx
    self.left = steps
    self.k = 0
    self.kinds = kinds
    self.heavy = heavy
    self.booms = list(booms)
    self.default = "numpy"
    self.backends = []  # (backend, context object)
    self.colls = []  # (container, expected list, is set)
    self.exp = {}  # id(container) -> expected nodes
    self.conts = []

  def observe(self):
    ctx = self.ctx
    b = self.backends[-1][0] if self.backends else self.default
    ctx.check(bc.get_default_backend() is b or bc.get_default_backend() == b, "default backend is that of the innermost open context")

    def same(x):
      return x.backend is b if not isinstance(b, str) else x.backend.name == b

    made = []
    n = tn.Node(np.ones((2,)))
    made.append(n)
    ctx.check(same(n), "new nodes use the default backend")
    if self.heavy:
      c = tn.CopyNode(2, 2)
      m = tn.Node(np.ones((2,)), backend="numpy")
      t = tn.Tensor(np.ones((2,)))
      e = tn.eye(2)
      made += [c, m]
      ctx.check(same(c) and same(t) and same(e), "copy nodes, tensors and eye use the default backend")
      ctx.check(m.backend.name == "numpy", "an explicit backend wins")
      tn.ncon([np.ones((2,)), np.ones((2,))], [[1], [1]])
      if self.colls:
        made += self._inner(n, m)
    if self.colls:
      self.exp[id(self.colls[-1])] += made
    for cont in self.conts:
      exp = self.exp[id(cont)]
      if isinstance(cont, set):
        ctx.check(all(any(x is y for y in cont) for x in exp), "the innermost collection has every node created inside")
        ids = {id(x) for x in exp}
        ctx.check(all(id(x) in ids or self.auto(x) for x in cont), "no other nodes are collected")
      else:
        got = [x for x in cont if not self.auto(x) or any(x is y for y in exp)]
        ctx.check(len(got) == len(exp) and all(x is y for x, y in zip(got, exp)), "list collections have exactly the nodes created inside, in order")

  def auto(self, x):
    """nodes made inside library functions (ncon); which of those exist is not specified"""
    return self.heavy

  def _inner(self, n, m):
    """nodes which library functions return are created inside the collection as well"""
    a, b = tn.Node(np.ones((2, 2)), backend="numpy"), tn.Node(np.ones((2, 2)), backend="numpy")
    a[1] ^ b[0]
    c = tn.contract_between(a, b)
    u, v, _ = tn.split_node(c, [c[0]], [c[1]])
    w = v.copy()
    return [a, b, c, u, v, w]

  def block(self, level):
    """the body of one with statement (level 0: outside)"""
    ctx = self.ctx
    while self.left > 0:
      self.left -= 1
      self.k += 1
      kinds = [k for k in self.kinds if (level or k not in ("exit", "raise")) and (k != "reenter" or self.backends) and
               (k != "same coll" or self.colls)]
      op = ctx.choice(f"op{self.k}", kinds)
      if op == "exit":
        return
      if op == "raise":
        kind = ctx.choice(f"exception{self.k}", self.booms)
        e = kind()
        e.levels = ctx.pick(f"caught{self.k}", 1, level)
        raise e
      if op == "set default":
        v = ctx.choice(f"new default{self.k}", ["jax", OBJ, "unknown", 3])
        if self.backends:
          ctx.raises(AssertionError, lambda: tn.set_default_backend(v), "setting the default inside a context is refused")
        elif v in ("unknown", 3):
          ctx.raises(ValueError, lambda: tn.set_default_backend(v), "invalid default is refused")
        else:
          tn.set_default_backend(v)
          self.default = v
      elif op == "bad context":
        ctx.raises(ValueError, lambda: tn.DefaultBackend(3), "invalid backend is refused")
        ctx.raises(ValueError, lambda: tn.NodeCollection((1,)), "invalid container is refused")
      else:
        if op in ("context", "reenter"):
          if op == "context":
            v = ctx.choice(f"backend{self.k}", ["jax", "numpy", OBJ])
            cm = tn.DefaultBackend(v)
          else:
            v, cm = self.backends[ctx.pick(f"which{self.k}", 0, len(self.backends) - 1)]
          stack, item = self.backends, (v, cm)
        else:
          if op == "same coll":
            cont = self.colls[ctx.pick(f"which{self.k}", 0, len(self.colls) - 1)]
          else:
            cont = [] if op == "list coll" else set()
            self.exp[id(cont)] = []
            self.conts.append(cont)
          cm = tn.NodeCollection(cont)
          stack, item = self.colls, cont
        self.observe()  # constructing the context has no effect
        escaped = True
        exc = None
        try:
          with cm:
            stack.append(item)
            self.observe()
            self.block(level + 1)
            escaped = False
        except tuple(BOOMS) as e:
          exc = e
        stack.pop()
        ctx.check(exc is not None or not escaped, "the exception is not swallowed")
        self.observe()
        if exc is not None and level:
          exc.levels -= 1
          if exc.levels > 0:
            raise exc
      self.observe()


def program(ctx, first, steps, kinds, heavy, booms=(Boom, BoomBase)):
  reset()
  try:
    r = Run(ctx, steps, kinds, heavy, booms)
    old = ctx.choice
    if first is not None:
      ctx.assume(True)
      r.kinds = [first]
      names = list(kinds)

      def choice(name, opts):
        if name == "op1":
          return first
        return old(name, opts)

      r.kinds = names
      ctx.choice = choice
    r.block(0)
    r.observe()
  finally:
    ctx.__dict__.pop("choice", None)
    reset()


def scenarios(tier):
  th = tier == "thorough"
  out = []
  back = ["context", "reenter", "exit", "raise", "set default", "bad context"]
  coll = ["list coll", "set coll", "same coll", "exit", "raise"]
  mixed = ["context", "list coll", "exit", "raise", "set default"]
  for name, kinds, n in (("backend", back, 5 if th else 4), ("collection", coll, 5 if th else 4), ("mixed", mixed, 5 if th else 4)):
    for first in kinds:
      if first in ("exit", "raise", "reenter", "same coll"):
        continue
      out.append(Scenario(f"{name} {n} steps, first {first}", program, first, n, kinds, False))
      out.append(Scenario(f"{name} {n - 2} steps, first {first}, all constructors", program, first, n - 2, kinds, True))
  for first in ("context", "list coll", "set coll"):
    out.append(Scenario(f"exceptions, first {first}", program, first, 3, ["context", "list coll", "raise"], False, BOOMS))
  return out
