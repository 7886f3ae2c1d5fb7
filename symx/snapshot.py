"""Module- and class-level state of the code under test, put back before every path.

Paths are explored one after another in one process; state that the code keeps at module
or class level (caches, counters, registries, class attributes set at run time) would
leak from one path into the next.  The state right after import is recorded and restored:
module globals, class attributes, instance attributes, function defaults, closure cells
and the contents of every container reachable from them."""
import collections
import copy
import itertools
import sys
import types
import weakref

LEAF = (int, float, complex, str, bytes, type(None), bool, range, slice,
        types.BuiltinFunctionType, types.ModuleType)
COUNTERS = (itertools.count, itertools.cycle)
MAPS = (dict, collections.OrderedDict, collections.defaultdict)
SEQS = (list, collections.deque, bytearray)
SKIP = {'__dict__', '__weakref__', '__builtins__', '_abc_impl', '__doc__', '__module__'}


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class Snapshot:
    def __init__(self, prefix):
        self.prefix = prefix
        self.seen = {}
        self.owners = []  # (object, attributes)
        self.items = []  # (container, contents)
        self.caches = []
        self.cells = []
        self.defaults = []
        self.counters = []  # (owner, name, value)
        for name, m in sorted(sys.modules.items()):
            if name == prefix or name.startswith(prefix + '.'):
                self.owner(m)

    def mine(self, o):
        mod = getattr(o, '__module__', None)
        return isinstance(mod, str) and (mod == self.prefix or
                                         mod.startswith(self.prefix + '.'))

    def owner(self, o):
        vs = {k: v for k, v in vars(o).items() if k not in SKIP}
        self.owners.append((o, vs))
        for k, v in vs.items():
            if isinstance(v, COUNTERS):
                self.counters.append((o, k, copy.copy(v)))
            self.visit(v)

    def visit(self, v, depth=0):
        if isinstance(v, LEAF) or id(v) in self.seen or depth > 6:
            return
        self.seen[id(v)] = v
        if isinstance(v, type):
            if self.mine(v):
                self.owner(v)
        elif isinstance(v, types.FunctionType):
            if not self.mine(v):
                return
            self.defaults.append((v, v.__defaults__, v.__kwdefaults__))
            for d in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                self.visit(d, depth + 1)
            for c in v.__closure__ or ():
                try:
                    self.cells.append((c, c.cell_contents))
                except ValueError:
                    continue
                self.visit(c.cell_contents, depth + 1)
            if v.__dict__:
                self.owner(v)
        elif isinstance(v, (staticmethod, classmethod)):
            self.visit(v.__func__, depth + 1)
        elif isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                self.visit(f, depth + 1)
        elif hasattr(v, 'cache_clear'):
            self.caches.append(v)
        elif isinstance(v, MAPS):
            self.items.append((v, list(v.items())))
            for x in list(v.values()):
                self.visit(x, depth + 1)
        elif isinstance(v, SEQS):
            self.items.append((v, list(v)))
            for x in list(v):
                self.visit(x, depth + 1)
        elif isinstance(v, set):
            self.items.append((v, list(v)))
        elif isinstance(v, (tuple, frozenset)):
            for x in v:
                self.visit(x, depth + 1)
        elif isinstance(v, (weakref.WeakKeyDictionary, weakref.WeakValueDictionary)):
            self.items.append((v.data, list(v.data.items())))
        elif isinstance(v, weakref.WeakSet):
            self.items.append((v.data, list(v.data)))
        elif self.mine(v) or type(v).__module__ == 'symx.sched' or self.mine(type(v)):
            if hasattr(v, '__dict__'):
                self.owner(v)

    def restore(self):
        for o, vs in self.owners:
            now = {k: v for k, v in vars(o).items() if k not in SKIP}
            if len(now) == len(vs) and all(now.get(k, o) is v for k, v in vs.items()):
                continue
            put = type.__setattr__ if isinstance(o, type) else object.__setattr__
            cut = type.__delattr__ if isinstance(o, type) else object.__delattr__
            if isinstance(o, types.ModuleType):
                put, cut = setattr, delattr
            for k in now:
                if k not in vs and not (isinstance(o, types.ModuleType) and
                                        isinstance(now[k], types.ModuleType)):
                    cut(o, k)
            for k, v in vs.items():
                if now.get(k, o) is not v:
                    put(o, k, v)
        for c, was in self.items:
            if isinstance(c, MAPS):
                now = list(c.items())
                if not (len(now) == len(was) and all(
                        a[0] is b[0] and a[1] is b[1] for a, b in zip(now, was))):
                    c.clear()
                    for k, v in was:
                        c[k] = v
            elif isinstance(c, set):
                if sorted(map(id, c)) != sorted(map(id, was)):
                    c.clear()
                    c.update(was)
            elif not same(list(c), was):
                c.clear()
                c.extend(was)
        for f in self.caches:
            f.cache_clear()
        for c, v in self.cells:
            if c.cell_contents is not v:
                c.cell_contents = v
        for f, d, k in self.defaults:
            if f.__defaults__ is not d:
                f.__defaults__ = d
            if f.__kwdefaults__ is not k:
                f.__kwdefaults__ = k
        for o, k, v in self.counters:
            setattr(o, k, copy.copy(v))
