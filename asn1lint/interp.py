"""The elaborator: constant propagation over the declarations of /repo.

Every module of the package is a sequence of declarations: classes, OIDs,
tags, registrations.  The elaborator walks the syntax trees in import order and
propagates constants through them over the summaries of model.py.  What it
cannot know (input, the environment, anything outside the analysed code) is
`Unknown`, the top of the lattice; a branch that depends on it is joined, and
a loop over it is walked once.  No code of /repo or of pyasn1 is imported or
executed: helper functions are walked like everything else.

The result is a World: for each module the value bound to each name, where
each was declared, and a log of the effects the module's import has on
anything that is not its own (registrations, attribute writes, calls out).
"""
import ast
import builtins
import functools
import ntpath
import operator
import os
import posixpath
import re
import sys
import types

from . import model
from .lattice import Unknown, Opaque, Outside, NeedsJoin, is_unknown
from .model import Here

MAX_STEPS = 4000000
MAX_DEPTH = 80

PURE = set(['functools', 'itertools', 'operator', 'collections', 'string',
            'binascii', 'base64', 'struct', 're', 'copy', 'types', 'math',
            'textwrap', 'numbers', 'enum', 'abc', '__future__', 'typing',
            'collections.abc', 'keyword', 'decimal', 'fractions', 'contextlib',
            'dataclasses', 'bisect', 'heapq', 'json', 'ast', 'zlib', 'unicodedata'])

# functions of os.path that only compute with names
NAMES_ONLY = frozenset('splitext basename dirname join split normpath isabs commonprefix normcase splitdrive'.split())


class Unsupported(NeedsJoin):
    pass


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Budget(Exception):
    """The analysis gives up on a construct."""


class Fault(Exception):
    """The analysed code definitely raises here."""

    def __init__(self, exc, loc):
        Exception.__init__(self, '%s: %s' % (type(exc).__name__, exc))
        self.exc = exc
        self.loc = loc


class Event(object):
    __slots__ = ('kind', 'module', 'loc', 'data')

    def __init__(self, kind, data):
        self.kind = kind
        self.module = Here.module
        self.loc = Here.loc
        self.data = data

    def __repr__(self):
        return 'Event(%s, %s, %s, %r)' % (self.kind, self.module, self.loc, self.data)


ALL = object()          # every key of a dictionary


class ADict(dict):
    """A dictionary of the analysed code; remembers who writes and reads it."""

    def __init__(self, *a, **k):
        self._loc, self._module, self.world_id = Here.loc, Here.module, Here.world
        self.backward = Here.backward
        self.where = {}
        self.maybe = set()
        self.writes = []        # (key, value, module, loc, replaced)
        self.removals = []
        self.readers = []       # (module, loc, key or ALL)
        dict.__init__(self)
        if a or k:
            self.update(*a, **k)

    def __hash__(self):
        return id(self)

    def __setitem__(self, key, value):
        old = dict.get(self, key, model.noValue)
        self.writes.append((key, value, Here.module, Here.loc, old))
        self.where[key] = (Here.module, Here.loc)
        if Here.maybe:
            self.maybe.add(key)
        dict.__setitem__(self, key, value)

    def update(self, *a, **k):
        for other in a:
            if is_unknown(other):
                self.writes.append((other, other, Here.module, Here.loc, None))
                continue
            items = other.items() if hasattr(other, 'keys') else other
            for kk, v in list(items):
                src = getattr(other, 'where', {}).get(kk)
                self[kk] = v
                if src is not None:
                    self.where[kk] = (Here.module, src[1])
        for kk, v in k.items():
            self[kk] = v

    def setdefault(self, key, value=None):
        self._read(key)
        if not dict.__contains__(self, key):
            self[key] = value
        else:
            # what it would have put there, had it come first
            self.writes.append((key, value, Here.module, Here.loc, None))
        return dict.__getitem__(self, key)

    def __delitem__(self, key):
        dict.__delitem__(self, key)
        self.removals.append((key, Here.module, Here.loc))

    def pop(self, key, *d):
        if dict.__contains__(self, key):
            self.removals.append((key, Here.module, Here.loc))
        return dict.pop(self, key, *d)

    def popitem(self):
        if self.backward and len(self):
            k = next(dict.__iter__(self))
            v = dict.pop(self, k)
        else:
            k, v = dict.popitem(self)
        self.removals.append((k, Here.module, Here.loc))
        return k, v

    def clear(self):
        for k in list(dict.keys(self)):
            self.removals.append((k, Here.module, Here.loc))
        dict.clear(self)

    def _read(self, key=ALL):
        if Here.module is not None:
            self.readers.append((Here.module, Here.loc, key))

    def __getitem__(self, key):
        self._read(key)
        return dict.__getitem__(self, key)

    def get(self, key, d=None):
        self._read(key)
        return dict.get(self, key, d)

    def __contains__(self, key):
        self._read(key)
        return dict.__contains__(self, key)

    def ordered(self):
        # before Python 3.7 a program may not rely on any order
        if not self.backward:
            return self
        return dict(list(dict.items(self))[::-1])

    def __iter__(self):
        self._read()
        return dict.__iter__(self.ordered())

    def keys(self):
        self._read()
        return dict.keys(self.ordered())

    def values(self):
        self._read()
        return dict.values(self.ordered())

    def items(self):
        self._read()
        return dict.items(self.ordered())

    def copy(self):
        return ADict(self)

    def __len__(self):
        self._read()
        return dict.__len__(self)

    def __or__(self, other):
        d = ADict(self)
        d.update(other)
        return d

    def __ior__(self, other):
        self.update(other)
        return self


Here.maybe = 0


class Mod(object):
    """A module of the analysed code, or a summary of an external one."""

    def __init__(self, name, path=None, ns=None, api=None):
        d = self.__dict__
        d['_name'], d['_path'] = name, path
        d['_ns'] = {} if ns is None else ns
        d['_binds'] = {}      # name -> (kind, loc)
        d['_tree'] = None
        d['_api'] = api
        d['_faults'] = []
        d['_done'] = False
        d['_imports'] = []    # (module name, loc)
        d['_outer'] = Outside
        d['_reads'] = set()   # names read since they were last bound

    def __repr__(self):
        return '<module %s>' % self._name

    def get(self, name):
        if name in self._ns:
            self._reads.add(name)
            return self._ns[name]
        if name == '__dict__':
            return self._ns
        if name == '__name__':
            return self._name
        if self._api is not None and name in self._api:
            return self._outer('%s.%s' % (self._name, name))
        raise AttributeError("module '%s' has no attribute '%s'" % (self._name, name))


class ForeignNames(dict):
    """The names of a module, in the hands of another one."""
    def __init__(self, mod, world):
        dict.__init__(self, mod._ns)
        self.mod, self.world = mod, world

    __hash__ = object.__hash__

    def __setitem__(self, k, v):
        self.world.set_attr(self.mod, k, v)
        dict.__setitem__(self, k, v)

    def update(self, *a, **k):
        for kk, v in dict(*a, **k).items():
            self[kk] = v

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]

    def __delitem__(self, k):
        self[k] = Unknown('deleted')

    def pop(self, k, *d):
        v = self.get(k, *d)
        del self[k]
        return v


class Scope(object):
    __slots__ = ('vars', 'module', 'parent', 'kind', 'globals_', 'nonlocals',
                 'func', 'first', 'maybe_returns', 'reads', 'name')

    def __init__(self, vars, module, parent=None, kind='module', func=None):
        self.vars, self.module, self.parent, self.kind = vars, module, parent, kind
        self.globals_, self.nonlocals = (), ()
        self.func = func
        self.first = None
        self.maybe_returns = []
        self.reads = set()      # names read since they were last bound


class Func(object):
    """A function of the analysed code."""

    def __init__(self, world, node, scope, defaults, kw_defaults, name):
        self.world, self.node, self.scope = world, node, scope
        self.defaults, self.kw_defaults = defaults, kw_defaults
        self.__name__ = self.__qualname__ = name
        self.__module__ = scope.module._name
        self.__doc__ = None
        self.defclass = None
        self.loc = world.locof(node, scope.module)
        self.is_gen = _is_generator(node)

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return BoundFunc(self, obj)

    # what the interpreter's own operations expect of these methods
    SIGNALS = {'__next__': StopIteration, 'next': StopIteration, '__getitem__': LookupError,
               '__getattr__': AttributeError, '__missing__': KeyError}

    def __call__(self, *args, **kwargs):
        if self.__name__ in self.SIGNALS:
            try:
                return self.world.call_func(self, args, kwargs)
            except Fault as f:
                if isinstance(f.exc, self.SIGNALS[self.__name__]):
                    raise f.exc
                raise
        return self.world.call_func(self, args, kwargs)

    def __repr__(self):
        return '<function %s>' % self.__name__


class BoundFunc(object):
    def __init__(self, func, obj):
        self.__func__, self.__self__ = func, obj

    def __call__(self, *args, **kwargs):
        return self.__func__(self.__self__, *args, **kwargs)

    def __getattr__(self, name):
        return getattr(self.__func__, name)


def _is_generator(node):
    if isinstance(node, ast.Lambda):
        stack = [node.body]
    else:
        stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _has_yield(node):
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ASet(set):
    """A set of the analysed code.  No Python gives it an order that a program
    may rely on; here it is the alphabetical or the opposite one."""
    __hash__ = None

    def __iter__(self):
        return iter(sorted(set.__iter__(self), key=repr, reverse=Here.backward))

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError('pop from an empty set')


class AFrozenSet(frozenset):
    def __iter__(self):
        return iter(sorted(frozenset.__iter__(self), key=repr, reverse=Here.backward))


def _wrap(cls, name):
    plain = getattr(cls.__base__, name)

    def method(self, *args):
        r = plain(self, *args)
        return r if r is NotImplemented else cls(r)
    method.__name__ = name
    setattr(cls, name, method)


for _cls in ASet, AFrozenSet:
    for _name in ('__or__ __ror__ __and__ __rand__ __sub__ __rsub__ __xor__ __rxor__ union intersection difference '
                  'symmetric_difference copy').split():
        _wrap(_cls, _name)


def deep_unknown(x, depth=2):
    if is_unknown(x):
        return True
    if depth and type(x) in (list, tuple, set, ASet):
        return any(deep_unknown(y, depth - 1) for y in x)
    return False


STORING = set(['append', 'insert', 'setdefault', '__setitem__', 'add', 'update'])

_HOST_TYPES = (str, bytes, int, float, list, tuple, set, frozenset, dict,
               bool, complex, bytearray, type(None))

BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod, ast.Pow: operator.pow,
    ast.LShift: operator.lshift, ast.RShift: operator.rshift,
    ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
    ast.BitXor: operator.xor, ast.MatMult: operator.matmul,
}
IBINOPS = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul,
    ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv,
    ast.Mod: operator.imod, ast.Pow: operator.ipow,
    ast.LShift: operator.ilshift, ast.RShift: operator.irshift,
    ast.BitOr: operator.ior, ast.BitAnd: operator.iand,
    ast.BitXor: operator.ixor, ast.MatMult: operator.imatmul,
}
CMPOPS = {
    ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt,
    ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
}


class Super(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def lookup(self, name):
        obj = self.obj
        mro = (obj if isinstance(obj, type) else type(obj)).__mro__
        i = mro.index(self.cls) + 1
        for c in mro[i:]:
            if name in c.__dict__:
                f = c.__dict__[name]
                if isinstance(obj, type):
                    return f.__get__(None, obj) if hasattr(f, '__get__') else f
                return f.__get__(obj, type(obj)) if hasattr(f, '__get__') else f
        raise AttributeError(name)


class HostMod(object):
    def __init__(self, name):
        self.name = name
        try:
            self.mod = __import__(name, fromlist=['x'])
        except ImportError:
            self.mod = None
        if name == 'functools':
            # the functions of the analysed code keep their body in attributes
            self.mod = types.ModuleType(name)
            self.mod.__dict__.update(functools.__dict__)
            self.mod.update_wrapper = lambda w, f, *a, **k: functools.update_wrapper(w, f, updated=())
            self.mod.wraps = lambda f, *a, **k: functools.partial(functools.update_wrapper, wrapped=f, updated=())


# the methods of containers that change them
CHANGING = frozenset('update append extend insert setdefault pop popitem clear remove add discard sort reverse '
                     '__setitem__ __delitem__'.split())

_trees = {}


def parse_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    hit = _trees.get(path)
    if hit and hit[0] == key:
        return hit[1], hit[2]
    with open(path, 'rb') as f:
        data = f.read()
    tree = ast.parse(data, filename=path)
    _trees[path] = (key, tree, data)
    return tree, data


def listing(f):
    def call(*args):
        return list(f(*args))
    call.__name__, call.__module__ = f.__name__, 'builtins'
    return call


# methods of the builtin types: the first Python that has them
NEW_METHODS = {
    'clear': ((3, 3), list, bytearray), 'copy': ((3, 3), list, bytearray), 'hex': ((3, 5), bytes, bytearray),
    'casefold': ((3, 3), str), 'isidentifier': ((3, 0), str), 'isprintable': ((3, 0), str),
    'format_map': ((3, 2), str), 'isascii': ((3, 7), str, bytes, bytearray), 'fromhex': ((3, 0), bytes),
    'removeprefix': ((3, 9), str, bytes, bytearray), 'removesuffix': ((3, 9), str, bytes, bytearray),
    'to_bytes': ((3, 2), int), 'from_bytes': ((3, 2), int), 'bit_count': ((3, 10), int),
    'as_integer_ratio': ((3, 8), int), 'is_integer': ((3, 12), int),
}


class World(object):
    LOOPS = 20000

    def __init__(self, root, package='pyasn1_modules', version=(3, 12, 3), api=None):
        self.root, self.package = root, package
        # where else it may run: python -O, another system, another pyasn1
        self.elsewhere = 'elsewhere' in version
        self.version = version = tuple(x for x in version if isinstance(x, int))
        Here.backward = version < (3, 6)
        self.mods = {}
        self.order = []
        self.events = []
        self.attr_reads = set()         # (class, attribute) loaded since it was set
        self.unresolved = []      # (loc, why)
        self.steps = 0
        self.depth = 0
        self.statements = 0
        self.made = []                  # the classes the package makes
        self.calls = 0
        self.dicts = []
        self.api = api or {}
        self.hooks = {}
        self._builtins = self._make_builtins()
        self._models = {}
        for name, ns in model.modules().items():
            self._models[name] = Mod(name, ns=ns, api=self.api.get(name, None))
        self._dispatch_e = {}
        self._dispatch_s = {}
        for n in dir(self):
            if n.startswith('e_'):
                self._dispatch_e[getattr(ast, n[2:])] = getattr(self, n)
            elif n.startswith('s_'):
                cls = getattr(ast, n[2:], None)
                if cls is not None:
                    self._dispatch_s[cls] = getattr(self, n)

    # ------------------------------------------------------------ utilities

    def rel(self, path):
        return os.path.relpath(path, self.root)

    def locof(self, node, mod):
        return (mod._rel, getattr(node, 'lineno', 0))

    def log(self, kind, **data):
        e = Event(kind, data)
        self.events.append(e)
        return e

    def give_up(self, why, loc=None):
        self.unresolved.append((loc or Here.loc, why))
        return Unknown(why)

    def tick(self):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Budget('step budget exhausted')

    # -------------------------------------------------------------- modules

    def module_path(self, name):
        parts = name.split('.')
        p = os.path.join(self.root, *parts)
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def is_ours(self, name):
        return name == self.package or name.startswith(self.package + '.')

    def load(self, name):
        """Elaborate a module of the package (once)."""
        if name in self.mods:
            return self.mods[name]
        path = self.module_path(name)
        if path is None:
            raise ImportError("No module named '%s'" % name)
        if '.' in name:
            self.load(name.rpartition('.')[0])
        return self.load_path(name, path)

    def load_path(self, name, path):
        mod = Mod(name, path)
        mod.__dict__['_rel'] = self.rel(path)
        self.mods[name] = mod
        mod._ns.update({'__name__': name, '__file__': path, '__doc__': None,
                        '__package__': name if path.endswith('__init__.py') else name.rpartition('.')[0]})
        tree, _ = parse_file(path)
        mod.__dict__['_tree'] = tree
        saved = (Here.loc, Here.stmt, Here.module, Here.maybe, self.depth)
        Here.module, Here.maybe, self.depth = name, 0, 0
        scope = Scope(mod._ns, mod)
        try:
            for stmt in tree.body:
                Here.stmt = (mod._rel, stmt.lineno)
                try:
                    self.exec(stmt, scope)
                except NeedsJoin as e:
                    self.give_up(str(e), (mod._rel, stmt.lineno))
                    self.clobber(stmt, scope)
                except Budget as e:
                    self.give_up(str(e), (mod._rel, stmt.lineno))
                    self.clobber(stmt, scope)
                    self.steps = 0
                except RecursionError:
                    self.give_up('recursion', (mod._rel, stmt.lineno))
                    self.clobber(stmt, scope)
                except Fault as f:
                    mod._faults.append(f)
                    self.clobber(stmt, scope, keep=True)
                except (ReturnSig, BreakSig, ContinueSig):
                    pass
        finally:
            (Here.loc, Here.stmt, Here.module, Here.maybe, self.depth) = saved
        mod.__dict__['_done'] = True
        self.order.append(name)
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            if parent in self.mods:
                self.mods[parent]._ns[leaf] = mod
        return mod

    def closure(self, name):
        """The modules importing `name` brings in, itself included."""
        cache = self.__dict__.setdefault('_closures', {})
        hit = cache.get(name)
        if hit is None:
            hit, todo = set(), [name]
            while todo:
                n = todo.pop()
                if n in hit:
                    continue
                hit.add(n)
                m = self.mods.get(n)
                if m is not None:
                    todo.extend(x for x, loc in m._imports)
            cache[name] = hit
        return hit

    def import_module(self, name, loc):
        """What `import name` gives, for any module."""
        Here.world = id(self)
        Here.backward = self.version < (3, 6)
        if self.is_ours(name):
            if self.module_path(name) is None:
                raise ImportError("No module named '%s'" % name)
            if Here.module in self.mods:
                self.mods[Here.module]._imports.append((name, loc))
            m = self.load(name)
            if not m._done and Here.module is not None:
                self.log('cycle', target=name)
            return m
        if name in self._models:
            return self._models[name]
        if name == 'pyasn1' or name.startswith('pyasn1.'):
            return self.pyasn1_package(name)
        if name == 'sys':
            return self.sys_stub()
        if name in PURE:
            h = HostMod(name)
            if h.mod is not None:
                return h
        if name == 'importlib':
            return Mod('importlib', ns={'import_module': lambda n, package=None: self.import_module(n, Here.loc)})
        hook = self.hooks.get('module')
        if hook is not None:
            m = hook(name)
            if m is not None:
                return m
        self.log('external-import', name=name)
        return Opaque(name, {'name': 'nt' if self.elsewhere else 'posix'} if name == 'os' else ())

    def pyasn1_package(self, name):
        hit = self._models.get(name)
        if hit is not None:
            return hit
        if name.startswith('pyasn1.codec') and name.split('.')[-1] in ('encoder', 'decoder', 'eoo'):
            ns = {}
            codec = name.split('.')[-2]
            if name.endswith('encoder'):
                def encode(value, asn1Spec=None, *a, **k):
                    if codec == 'der' and isinstance(value, model.Asn1Type):
                        return model.DerOf(value)
                    return Unknown('%s.encode' % codec)
                ns['encode'] = encode
            elif name.endswith('decoder'):
                ns['decode'] = lambda *a, **k: (Unknown('decoded'), Unknown('rest'))
            m = Mod(name, ns=ns, api=self.api.get(name))
        else:
            if name not in self.api and self.api:
                raise ImportError("No module named '%s'" % name)
            m = Mod(name, ns={}, api=self.api.get(name))
            if name == 'pyasn1':
                m._ns['__version__'] = '0.4.8' if self.elsewhere else '0.5.1'
        self._models[name] = m
        return m

    def sys_stub(self):
        hit = self._models.get('sys')
        if hit is None:
            world = self

            class Modules(object):
                def __getitem__(self, k):
                    if k in world.mods:
                        return world.mods[k]
                    return Unknown('sys.modules')

                def __contains__(self, k):
                    raise NeedsJoin('sys.modules')

                def get(self, k, d=None):
                    return self[k]

                def change(self, *a):
                    world.log('foreign-set', what='sys.modules of another library', attr='an item')
                    return Unknown('sys.modules')

                __setitem__ = __delitem__ = pop = update = setdefault = clear = change
            v = self.version

            class VersionInfo(tuple):
                major, minor, micro = v[0], v[1], v[2]
                releaselevel, serial = 'final', 0
            hit = Mod('sys', ns={
                'version_info': VersionInfo(tuple(v) + ('final', 0)), 'modules': Modules(),
                'version': Unknown('sys.version'), 'hexversion': (v[0] << 24) | (v[1] << 16) | (v[2] << 8) | 0xf0,
                'maxsize': 2 ** 31 - 1 if self.elsewhere else 2 ** 63 - 1,
                'byteorder': 'big' if self.elsewhere else 'little',
                'platform': 'win32' if self.elsewhere else 'linux'}, api=set(dir(sys)))
            hit.__dict__['_outer'] = Opaque
            self._models['sys'] = hit
        return hit

    # ------------------------------------------------------------- builtins

    def _make_builtins(self):
        ns = {}
        for n in ('abs all any ascii bin bool bytearray bytes callable chr complex divmod '
                  'enumerate filter float format frozenset hash hex id int isinstance issubclass '
                  'iter len list map max min next object oct ord pow range repr reversed round set '
                  'slice sorted str sum tuple zip property staticmethod classmethod '
                  'BaseException Exception ArithmeticError AssertionError AttributeError EOFError '
                  'ImportError ModuleNotFoundError IndexError KeyError LookupError NameError '
                  'NotImplementedError OSError IOError OverflowError RuntimeError StopIteration '
                  'SyntaxError TypeError ValueError UnicodeError UnicodeDecodeError '
                  'UnicodeEncodeError ZeroDivisionError KeyboardInterrupt SystemExit '
                  'DeprecationWarning UserWarning Warning PendingDeprecationWarning '
                  'NotImplemented Ellipsis __debug__ GeneratorExit').split():
            ns[n] = getattr(builtins, n)
        ns['True'], ns['False'], ns['None'] = True, False, None
        ns['__debug__'] = not self.elsewhere
        ns['dict'], ns['set'], ns['frozenset'] = ADict, ASet, AFrozenSet
        ns['isinstance'] = self.b_isinstance
        ns['callable'] = lambda x: Unknown('callable') if is_unknown(x) else callable(x)
        ns['getattr'] = self.b_getattr
        ns['hasattr'] = self.b_hasattr
        ns['setattr'] = lambda o, n, v: self.set_attr(o, n, v)
        ns['delattr'] = lambda o, n: None
        ns['type'] = self.b_type
        ns['super'] = None   # special-cased
        ns['print'] = lambda *a, **k: self.external('print', a, k)
        ns['open'] = lambda *a, **k: self.external('open', a, k)
        ns['input'] = lambda *a, **k: self.external('input', a, k)
        ns['exec'] = lambda *a, **k: self.external('exec', a, k)
        ns['eval'] = lambda *a, **k: self.external('eval', a, k)
        ns['compile'] = lambda *a, **k: self.external('compile', a, k)
        ns['vars'] = lambda o: self.get_attr(o, '__dict__')
        ns['dir'] = lambda *a: Unknown('dir')
        ns['__import__'] = lambda n, *a, **k: self.import_module(n, Here.loc)
        if self.version[0] == 2:
            ns['unicode'] = str
            ns['long'] = int
            ns['xrange'] = range
            for n in ('map', 'filter', 'zip', 'range'):
                ns[n] = listing(getattr(builtins, n))
            ns['raw_input'] = ns['input']
            ns['reduce'] = __import__('functools').reduce
            ns['basestring'] = str
            ns['unichr'] = chr
            ns['execfile'] = ns['exec']
            ns['file'] = ns['open']
        return ns

    def external(self, name, a, k):
        if name.startswith('os.path.') and name[8:] in NAMES_ONLY:
            if any(deep_unknown(x) or not isinstance(x, (str, list, tuple)) for x in list(a) + list(k.values())):
                return Unknown(name)
            return getattr(ntpath if self.elsewhere else posixpath, name[8:])(*a, **k)
        self.log('external-call', name=name, args=a, kwargs=k)
        hook = self.hooks.get('external')
        if hook is not None:
            return hook(name, a, k)
        return Unknown(name)

    def b_isinstance(self, obj, cls):
        if is_unknown(obj) or deep_unknown(cls):
            return Unknown('isinstance')
        if isinstance(cls, (Mod, HostMod)):
            raise TypeError('isinstance() arg 2 must be a type')
        return isinstance(obj, cls)

    def b_getattr(self, obj, name, *default):
        try:
            return self.get_attr(obj, name)
        except AttributeError:
            if default:
                return default[0]
            raise

    def b_hasattr(self, obj, name):
        try:
            v = self.get_attr(obj, name)
        except AttributeError:
            return False
        if is_unknown(obj):
            return Unknown('hasattr')
        return True

    def b_type(self, *args, **k):
        if len(args) == 1:
            if is_unknown(args[0]):
                return Unknown('type')
            return type(args[0])
        name, bases, ns = args
        return self.make_class(name, bases, dict(ns), Here.loc)

    # --------------------------------------------------------------- access

    def get_attr(self, obj, name):
        if is_unknown(obj):
            return getattr(obj, name) if not name.startswith('__') else Unknown(name)
        if isinstance(obj, Mod):
            if name not in obj._ns and self.is_ours(obj._name) and obj._path and \
                    obj._path.endswith('__init__.py') and (obj._name + '.' + name) in self.mods:
                return self.mods[obj._name + '.' + name]
            if name == '__dict__' and obj._name != Here.module:
                return ForeignNames(obj, self)
            if name not in obj._ns and not obj._done and obj._path:
                raise AttributeError("partially initialized module '%s' has no attribute '%s'" % (obj._name, name))
            return obj.get(name)
        if isinstance(obj, HostMod):
            return getattr(obj.mod, name)
        if isinstance(obj, Super):
            return obj.lookup(name)
        if isinstance(obj, type):
            if name == '__name__':
                return obj.__name__
            self.attr_reads.add((obj, name))
        if name == '__dict__' and isinstance(obj, type):
            return dict(obj.__dict__)
        since = NEW_METHODS.get(name)
        if since is not None and self.version < since[0]:
            kind = obj if isinstance(obj, type) else type(obj)
            if issubclass(kind, since[1:]):
                raise AttributeError("'%s' has no attribute '%s'" % (kind.__name__, name))
        if self.version[0] == 2 and isinstance(obj, dict):
            if name in ('iterkeys', 'itervalues', 'iteritems', 'viewkeys', 'viewvalues', 'viewitems'):
                plain = getattr(obj, name[4:])
                return plain if name[0] == 'v' else lambda: iter(plain())
            if name in ('keys', 'values', 'items'):
                plain = getattr(obj, name)
                return lambda: list(plain())
            if name == 'has_key':
                return lambda k: k in obj
        try:
            return getattr(obj, name)
        except AttributeError:
            if isinstance(obj, model.Placed) or (isinstance(obj, type) and issubclass(obj, (model.Placed, model.TagSet))) \
                    or isinstance(obj, model.TagSet):
                kind = obj if isinstance(obj, type) else type(obj)
                for c in kind.__mro__:
                    if name in self.api.get('class:' + c.__name__, ()):
                        if name.startswith('_') and not name.startswith('__') and not isinstance(obj, type):
                            return Outside('%s of a %s' % (name, c.__name__))       # the private state of pyasn1
                        return self.give_up('unmodelled %s.%s' % (c.__name__, name))
                if not self.api:
                    return self.give_up('unmodelled %s' % name)
            raise

    def outside(self, obj, what):
        if isinstance(obj, (Opaque, Outside)):
            self.log('foreign-set', what='%s of another library' % obj.why, attr=what)

    def set_attr(self, obj, name, value):
        if is_unknown(obj):
            self.outside(obj, name)
            return
        if isinstance(obj, Mod):
            if obj._path is None:
                self.log('foreign-set', what='module %s' % obj._name, attr=name)
                return
            if obj._name != Here.module:
                self.log('foreign-set', what='module %s' % obj._name, attr=name)
            obj._ns[name] = value
            obj._binds[name] = ('def', Here.loc)
            return
        if isinstance(obj, HostMod):
            self.log('foreign-set', what='module %s' % obj.name, attr=name)
            return
        if isinstance(obj, type):
            home = obj.__dict__.get('_module')
            if home is None:
                self.log('foreign-set', what='class %s of an external library' % obj.__name__, attr=name)
                return
            if home != Here.module:
                self.log('foreign-set', what='class %s.%s' % (home, obj.__name__), attr=name)
            if Here.maybe:
                value = Unknown('conditional %s' % name)
            elif name in obj.__dict__ and (obj, name) not in self.attr_reads:
                self.log('overwritten', name=name, old=obj.__dict__[name], new=value, cls=obj.__name__)
            setattr(obj, name, value)
            self.attr_reads.discard((obj, name))
            return
        if isinstance(obj, model.Asn1Type):
            self.note_mutation(obj, name)
        if name.startswith('_') and not name.startswith('__') and isinstance(obj, (model.Placed, model.TagSet)) and \
                '_module' not in type(obj).__dict__ and self.api and self.may_have(obj, name):
            self.log('foreign-set', what='the private state of a %s of pyasn1' % type(obj).__name__, attr=name)
            return
        setattr(obj, name, value)

    def note_mutation(self, obj, what):
        by = obj.__dict__.get('_bymodule')
        if by is not None and by != Here.module and Here.module is not None:
            self.log('foreign-set', what='object %s declared in %s' % (type(obj).__name__, by), attr=what)

    def get_item(self, obj, key):
        if isinstance(obj, Outside):
            return obj[0]
        if is_unknown(obj) or (is_unknown(key) and not isinstance(obj, type)):
            return Unknown('item')
        if isinstance(obj, type):   # typing-style subscripts
            return Unknown('class item')
        return obj[key]

    def set_item(self, obj, key, value):
        if is_unknown(obj):
            self.outside(obj, 'an item')
            return
        if isinstance(obj, model.Asn1Type):
            self.note_mutation(obj, '[%r]' % (key,))
            vals = getattr(obj, '_vals', None)
            if vals is not None and not Here.maybe:
                old = dict(vals)
                obj[key] = value
                for k, v in old.items():
                    if vals.get(k) is not v:
                        self.log('replaced', name=key, old=v, new=vals.get(k), obj=obj)
                return
        if isinstance(obj, ADict) or isinstance(obj, model.Asn1Type) or not is_unknown(key):
            obj[key] = value
        elif isinstance(obj, list):
            for i in range(len(obj)):
                obj[i] = Unknown('item')

    # ----------------------------------------------------------------- names

    def lookup(self, name, scope, node):
        s = scope
        if s.kind != 'module' and name in s.globals_:
            s = None
        while s is not None:
            if s.kind != 'class' or s is scope:
                if name in s.vars:
                    s.reads.add(name)
                    if s.kind == 'module':
                        s.module._reads.add(name)
                    return s.vars[name]
            if s.parent is None:
                break
            s = s.parent
        g = scope.module._ns
        if name in g:
            scope.module._reads.add(name)
            return g[name]
        if name in self._builtins:
            return self._builtins[name]
        if name in ('globals', 'locals'):
            return (lambda: scope.module._ns) if name == 'globals' else (lambda: scope.vars)
        raise NameError("name '%s' is not defined" % name)

    def bind(self, name, value, scope, loc, kind='def'):
        if scope.kind != 'module' and name in scope.globals_:
            scope.module._ns[name] = value
            scope.module._binds[name] = (kind, loc)
            return
        if scope.kind != 'module' and name in scope.nonlocals:
            s = scope.parent
            while s is not None:
                if s.kind == 'function' and name in s.vars:
                    s.vars[name] = value
                    return
                s = s.parent
        if scope.kind == 'class' and name in scope.vars and name not in scope.reads:
            self.log('overwritten', name=name, old=scope.vars[name], new=value, cls=scope.name)
        elif scope.kind == 'module' and name in scope.vars and name not in scope.module._reads and not Here.maybe:
            self.log('rebound', name=name, old=scope.vars[name], new=value,
                     was=scope.module._binds.get(name, (None, None)))
        scope.vars[name] = value
        scope.reads.discard(name)
        if scope.kind == 'module':
            scope.module._binds[name] = (kind, loc)
            scope.module._reads.discard(name)

    def clobber(self, stmt, scope, keep=False):
        """The names a statement binds become unknown."""
        for n in ast.walk(stmt):
            name = None
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                name = n.id
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is stmt:
                name = n.name
            elif isinstance(n, ast.alias):
                name = n.asname or n.name.split('.')[0]
                if name == '*':
                    continue
            if name is not None and not (keep and name in scope.vars):
                self.bind(name, Unknown('unresolved statement'), scope, self.locof(stmt, scope.module))
        if isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Call) and \
                isinstance(stmt.value.func, ast.Attribute):
            self.clobber_receiver(stmt.value.func.value, scope)
        for t in getattr(stmt, 'targets', ()):
            if isinstance(t, (ast.Subscript, ast.Attribute)):
                self.clobber_receiver(t.value, scope)

    def clobber_receiver(self, node, scope):
        try:
            obj = self.ev(node, scope)
        except Exception:
            return
        if isinstance(obj, ADict):
            obj.writes.append((Unknown('key'), Unknown('value'), Here.module, Here.loc, None))
        elif isinstance(obj, list):
            obj[:] = [Unknown('polluted')]

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts, scope):
        for s in stmts:
            self.exec(s, scope)

    def exec(self, node, scope):
        self.tick()
        self.statements += 1
        Here.loc = (scope.module._rel, node.lineno)
        f = self._dispatch_s.get(type(node))
        if f is None:
            raise Unsupported('statement %s' % type(node).__name__)
        try:
            return f(node, scope)
        except (NeedsJoin, Budget, Fault, ReturnSig, BreakSig, ContinueSig, RecursionError):
            raise
        except Exception as exc:
            raise Fault(exc, Here.loc or (scope.module._rel, node.lineno))

    def s_Pass(self, node, scope):
        pass

    def s_Expr(self, node, scope):
        if isinstance(node.value, ast.Constant):
            return
        v = self.ev(node.value, scope)
        if isinstance(node.value, ast.Call) and scope.kind in ('class', 'module') and \
                isinstance(v, model.DECLARATIONS) and isinstance(node.value.func, (ast.Name, ast.Attribute)):
            f = self.ev(node.value.func, scope)
            if isinstance(f, type) and type(v) is f:
                self.log('dropped', value=v, cls=getattr(scope, 'name', None))

    def s_Assign(self, node, scope):
        try:
            value = self.ev(node.value, scope)
        except NeedsJoin as e:
            value = self.give_up(str(e), (scope.module._rel, node.lineno))
        for t in node.targets:
            self.assign(t, value, scope)

    def s_AnnAssign(self, node, scope):
        if node.value is not None:
            self.assign(node.target, self.ev(node.value, scope), scope)

    def s_AugAssign(self, node, scope):
        t = node.target
        load = _as_load(t)
        cur = self.ev(load, scope)
        val = self.ev(node.value, scope)
        if isinstance(cur, ADict) and isinstance(val, dict):
            cur.update(val)
            new = cur
        else:
            new = self.binop(IBINOPS[type(node.op)], cur, val)
        self.assign(t, new, scope)

    def assign(self, t, value, scope):
        if isinstance(t, ast.Name):
            self.bind(t.id, value, scope, self.locof(t, scope.module))
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, scope)
            Here.loc = self.locof(t, scope.module)
            self.set_attr(obj, t.attr, value)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, scope)
            key = self.ev(t.slice, scope)
            Here.loc = self.locof(t, scope.module)
            self.set_item(obj, key, value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if is_unknown(value):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Unknown('unpacked'), scope)
                return
            vals = list(value)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                tail = n - i - 1
                if len(vals) < n - 1:
                    raise ValueError('not enough values to unpack')
                vals = vals[:i] + [vals[i:len(vals) - tail]] + vals[len(vals) - tail:]
            if len(vals) != n:
                raise ValueError('cannot unpack %d values into %d' % (len(vals), n))
            for e, v in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, v, scope)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, value, scope)
        else:
            raise Unsupported('target')

    def s_Delete(self, node, scope):
        for t in node.targets:
            if isinstance(t, ast.Name):
                if t.id not in scope.vars:
                    raise NameError("name '%s' is not defined" % t.id)
                del scope.vars[t.id]
                if scope.kind == 'module':
                    scope.module._binds.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.ev(t.value, scope)
                key = self.ev(t.slice, scope)
                if is_unknown(obj):
                    self.outside(obj, 'an item')
                elif not is_unknown(key):
                    del obj[key]
            elif isinstance(t, ast.Attribute):
                obj = self.ev(t.value, scope)
                if is_unknown(obj):
                    self.outside(obj, t.attr)
                else:
                    if isinstance(obj, Mod):
                        obj._ns.pop(t.attr, None)
                    else:
                        delattr(obj, t.attr)

    def s_FunctionDef(self, node, scope):
        value = self.make_func(node, scope, node.name)
        for d in reversed(node.decorator_list):
            dec = self.ev(d, scope)
            value = self.call(dec, [value], {}, d)
        self.bind(node.name, value, scope, self.locof(node, scope.module))

    def s_AsyncFunctionDef(self, node, scope):
        self.bind(node.name, Unknown('coroutine'), scope, self.locof(node, scope.module))

    def make_func(self, node, scope, name):
        a = node.args
        defaults = [self.ev(d, scope) for d in a.defaults]
        kwd = [None if d is None else (self.ev(d, scope),) for d in a.kw_defaults]
        s = scope
        while s is not None and s.kind == 'class':
            s = s.parent
        f = Func(self, node, s or Scope(scope.module._ns, scope.module), defaults, kwd, name)
        if not isinstance(node, ast.Lambda) and node.body and isinstance(node.body[0], ast.Expr) and \
                isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str):
            f.__doc__ = node.body[0].value.value
        return f

    def s_ClassDef(self, node, scope):
        loc = self.locof(node, scope.module)
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.ev(b.value, scope))
            else:
                bases.append(self.ev(b, scope))
        ns = {}
        cscope = Scope(ns, scope.module, scope, 'class')
        cscope.name = node.name
        for s in node.body:
            try:
                self.exec(s, cscope)
            except NeedsJoin as e:
                self.give_up(str(e), (scope.module._rel, s.lineno))
                self.clobber(s, cscope)
        Here.loc = loc
        if any(k.arg == 'metaclass' for k in node.keywords):
            cls = self.give_up('metaclass', loc)
        else:
            cls = self.make_class(node.name, bases, ns, loc)
        for d in reversed(node.decorator_list):
            cls = self.call(self.ev(d, scope), [cls], {}, d)
        self.bind(node.name, cls, scope, loc)

    def make_class(self, name, bases, ns, loc):
        if any(is_unknown(b) for b in bases) or is_unknown(name):
            return self.give_up('class %s has an unresolved base' % (name,), loc)
        for b in bases:
            if not isinstance(b, type):
                if isinstance(b, (model.Placed, Func, Mod, HostMod)):
                    raise TypeError('a base of class %s is not a class' % name)
                return self.give_up('class %s has an odd base' % name, loc)
        ns = dict(ns)
        ns['_loc'], ns['_module'] = loc, Here.module
        ns.setdefault('__module__', Here.module)
        if '__eq__' in ns and '__hash__' not in ns:
            ns['__hash__'] = None
        ns.pop('__slots__', None)
        ns.pop('__annotations__', None)
        bases = tuple(bases) or (object,)
        cls = type(name, bases, ns)
        self.made.append(cls)
        for v in ns.values():
            f = v
            if isinstance(f, (staticmethod, classmethod)):
                f = f.__func__
            if isinstance(f, property):
                for g in (f.fget, f.fset, f.fdel):
                    if isinstance(g, Func):
                        g.defclass = cls
            if isinstance(f, Func):
                f.defclass = cls
        return cls

    def s_Import(self, node, scope):
        loc = self.locof(node, scope.module)
        for a in node.names:
            m = self.import_module(a.name, loc)
            Here.loc = loc
            if a.asname:
                self.bind(a.asname, m, scope, loc, 'import')
            else:
                top = a.name.split('.')[0]
                if top != a.name:
                    m = self.top_package(a.name, m)
                self.bind(top, m, scope, loc, 'import')

    def top_package(self, name, leaf):
        top = name.split('.')[0]
        if self.is_ours(top):
            return self.load(top)
        parts = name.split('.')
        m = leaf
        for i in range(len(parts) - 1, 0, -1):
            parent = '.'.join(parts[:i])
            if isinstance(leaf, (Mod,)):
                p = self._models.get(parent) or self.pyasn1_package(parent)
                p._ns[parts[i]] = m
                m = p
            elif isinstance(leaf, HostMod):
                return HostMod(top)
            else:
                return Opaque(top)
        return m

    def resolve_relative(self, node, scope):
        if not node.level:
            return node.module
        pkg = scope.module._ns.get('__package__') or ''
        parts = pkg.split('.') if pkg else []
        if node.level > 1:
            parts = parts[:-(node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))

    def s_ImportFrom(self, node, scope):
        loc = self.locof(node, scope.module)
        name = self.resolve_relative(node, scope)
        if name == '__future__':
            return
        m = self.import_module(name, loc)
        Here.loc = loc
        for a in node.names:
            if a.name == '*':
                if isinstance(m, Mod):
                    names = m._ns.get('__all__')
                    if names is None:
                        names = [n for n in m._ns if not n.startswith('_')]
                    for n in names:
                        self.bind(n, m.get(n), scope, loc, 'import')
                elif isinstance(m, HostMod):
                    for n in getattr(m.mod, '__all__', [n for n in dir(m.mod) if not n.startswith('_')]):
                        self.bind(n, getattr(m.mod, n), scope, loc, 'import')
                else:
                    self.give_up('import * from %s' % name, loc)
                continue
            value = self.import_name(m, name, a.name, loc)
            Here.loc = loc
            self.bind(a.asname or a.name, value, scope, loc, 'import')

    def import_name(self, m, modname, name, loc):
        if is_unknown(m):
            return getattr(m, name)
        if isinstance(m, HostMod):
            try:
                return getattr(m.mod, name)
            except AttributeError:
                raise ImportError("cannot import name '%s' from '%s'" % (name, modname))
        if name in m._ns and not (m._path and m._path.endswith('__init__.py') and isinstance(m._ns[name], Mod)):
            return m._ns[name]
        full = modname + '.' + name
        if self.is_ours(full):
            if self.module_path(full):
                return self.import_module(full, loc)
        elif full in self._models or (full in self.api and modname.startswith('pyasn1')):
            return self.import_module(full, loc)
        elif full.startswith('pyasn1.') and not self.api:
            return self.import_module(full, loc)
        try:
            return m.get(name)
        except AttributeError:
            raise ImportError("cannot import name '%s' from '%s'" % (name, modname))

    def s_Global(self, node, scope):
        scope.globals_ = tuple(scope.globals_) + tuple(node.names)

    def s_Nonlocal(self, node, scope):
        scope.nonlocals = tuple(scope.nonlocals) + tuple(node.names)

    def s_Assert(self, node, scope):
        if self.elsewhere:
            return              # python -O
        c = self.truth(node.test, scope)
        if c is False:
            raise AssertionError('assertion')

    def s_Return(self, node, scope):
        raise ReturnSig(None if node.value is None else self.ev(node.value, scope))

    def s_Break(self, node, scope):
        raise BreakSig()

    def s_Continue(self, node, scope):
        raise ContinueSig()

    def s_Raise(self, node, scope):
        if node.exc is None:
            cur = getattr(self, '_handling', None)
            if cur is not None:
                raise cur
            raise RuntimeError('No active exception to reraise')
        exc = self.ev(node.exc, scope)
        if is_unknown(exc):
            exc = RuntimeError('raised')
        if isinstance(exc, type) and issubclass(exc, BaseException):
            exc = exc()
        if not isinstance(exc, BaseException):
            exc = TypeError('exceptions must derive from BaseException')
        raise Fault(exc, self.locof(node, scope.module))

    def truth(self, test, scope):
        """True, False, or None when unknown."""
        try:
            v = self.ev(test, scope)
            if is_unknown(v):
                return None
            return bool(v)
        except NeedsJoin:
            return None

    def s_If(self, node, scope):
        c = self.truth(node.test, scope)
        if c is True:
            return self.exec_block(node.body, scope)
        if c is False:
            return self.exec_block(node.orelse, scope)
        self.log('unknown-branch', line=node.lineno)
        self.join([lambda: self.exec_block(node.body, scope),
                   lambda: self.exec_block(node.orelse, scope)], scope)

    def join(self, branches, scope):
        before = dict(scope.vars)
        snaps = [(v, list(v) if isinstance(v, list) else set(v))
                 for v in before.values() if type(v) in (list, set, ASet)]
        ends, signals = [], []
        Here.maybe += 1
        try:
            for b in branches:
                scope.vars.clear()
                scope.vars.update(before)
                try:
                    b()
                    ends.append(dict(scope.vars))
                except ReturnSig as r:
                    signals.append(r)
                except (BreakSig, ContinueSig) as s:
                    signals.append(s)
                except Fault as f:
                    self.log('maybe-fault', exc=str(f))
        finally:
            Here.maybe -= 1
        polluted = [v for v, was in snaps if v != was]
        scope.vars.clear()
        if not ends:
            scope.vars.update(before)
            if signals and all(isinstance(s, ReturnSig) for s in signals):
                vals = [s.value for s in signals]
                raise ReturnSig(_merge(vals))
            if signals:
                raise signals[0]
            raise NeedsJoin('all branches fail')
        for s in signals:
            if isinstance(s, ReturnSig):
                f = scope
                while f is not None and f.kind not in ('function', 'module'):
                    f = f.parent
                f.maybe_returns.append(s.value)
        names = set()
        for e in ends:
            names.update(e)
        for n in names:
            vals = [e.get(n, model.noValue) for e in ends]
            v = _merge(vals)
            if any(v is p for p in polluted):
                v = Unknown('conditionally mutated')
            scope.vars[n] = v
            if scope.kind == 'module' and n not in scope.module._binds:
                scope.module._binds[n] = ('def', Here.loc)

    def s_For(self, node, scope):
        try:
            it = self.ev(node.iter, scope)
            if is_unknown(it):
                raise NeedsJoin('loop over unknown')
            if isinstance(it, type):
                raise TypeError('not iterable')
            it = iter(it)
        except NeedsJoin:
            return self.loop_unknown(node, scope)
        while True:
            try:
                item = next(it)
            except StopIteration:
                break
            self.tick()
            for n in ast.walk(node.target):
                if isinstance(n, ast.Name):
                    scope.reads.add(n.id)
                    if scope.kind == 'module':
                        scope.module._reads.add(n.id)
            self.assign(node.target, item, scope)
            try:
                self.exec_block(node.body, scope)
            except ContinueSig:
                continue
            except BreakSig:
                return
        self.exec_block(node.orelse, scope)

    def loop_unknown(self, node, scope):
        self.log('unknown-loop', line=node.lineno)

        def once():
            if isinstance(node, ast.For):
                self.assign(node.target, Unknown('loop variable'), scope)
            try:
                self.exec_block(node.body, scope)
            except (BreakSig, ContinueSig):
                pass
        stored = [n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
        self.join([once, lambda: None], scope)
        for n in stored:
            if n in scope.vars:
                scope.vars[n] = Unknown('assigned in unknown loop')

    def s_While(self, node, scope):
        n = 0
        while True:
            c = self.truth(node.test, scope)
            if c is None:
                return self.loop_unknown(node, scope)
            if c is False:
                break
            n += 1
            if n > self.LOOPS:
                raise Budget('loop bound')
            self.tick()
            try:
                self.exec_block(node.body, scope)
            except ContinueSig:
                continue
            except BreakSig:
                return
        self.exec_block(node.orelse, scope)

    def s_Try(self, node, scope):
        try:
            try:
                self.exec_block(node.body, scope)
            except Fault as f:
                for h in node.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.ev(h.type, scope)
                        if is_unknown(t) or deep_unknown(t):
                            raise NeedsJoin('unknown handler')
                        match = isinstance(f.exc, t)
                    if match:
                        if h.name:
                            self.bind(h.name, f.exc, scope, self.locof(h, scope.module))
                        saved = getattr(self, '_handling', None)
                        self._handling = f
                        try:
                            self.exec_block(h.body, scope)
                        finally:
                            self._handling = saved
                        return
                raise
            else:
                self.exec_block(node.orelse, scope)
        finally:
            if node.finalbody:
                self.exec_block(node.finalbody, scope)

    def s_With(self, node, scope):
        exits = []
        for item in node.items:
            cm = self.ev(item.context_expr, scope)
            if is_unknown(cm):
                val = Unknown('context')
            else:
                val = self.call(self.get_attr(cm, '__enter__'), [], {}, node)
                exits.append(cm)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, val, scope)
        try:
            self.exec_block(node.body, scope)
        finally:
            for cm in reversed(exits):
                self.call(self.get_attr(cm, '__exit__'), [None, None, None], {}, node)

    # ----------------------------------------------------------- expressions

    def ev(self, node, scope):
        self.tick()
        f = self._dispatch_e.get(type(node))
        if f is None:
            raise Unsupported('expression %s' % type(node).__name__)
        return f(node, scope)

    def e_Constant(self, node, scope):
        return node.value

    def e_Name(self, node, scope):
        try:
            return self.lookup(node.id, scope, node)
        except NameError:
            Here.loc = self.locof(node, scope.module)
            raise

    def e_Attribute(self, node, scope):
        obj = self.ev(node.value, scope)
        try:
            return self.get_attr(obj, node.attr)
        except AttributeError:
            Here.loc = self.locof(node, scope.module)
            raise

    def e_Subscript(self, node, scope):
        return self.get_item(self.ev(node.value, scope), self.ev(node.slice, scope))

    def e_Index(self, node, scope):
        return self.ev(node.value, scope)

    def e_Slice(self, node, scope):
        parts = [None if p is None else self.ev(p, scope) for p in (node.lower, node.upper, node.step)]
        if any(is_unknown(p) for p in parts):
            return Unknown('slice')
        return slice(*parts)

    def elements(self, elts, scope):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.ev(e.value, scope))
            else:
                out.append(self.ev(e, scope))
        return out

    def e_Tuple(self, node, scope):
        return tuple(self.elements(node.elts, scope))

    def e_List(self, node, scope):
        return self.elements(node.elts, scope)

    def e_Set(self, node, scope):
        return ASet(self.elements(node.elts, scope))

    def e_Dict(self, node, scope):
        Here.loc = self.locof(node, scope.module)
        d = ADict()
        self.dicts.append(d)
        for k, v in zip(node.keys, node.values):
            if k is None:
                other = self.ev(v, scope)
                Here.loc = self.locof(v, scope.module)
                d.update(other)
                continue
            kk, vv = self.ev(k, scope), self.ev(v, scope)
            Here.loc = self.locof(k, scope.module)
            d[kk] = vv
        return d

    def e_JoinedStr(self, node, scope):
        parts = [self.ev(v, scope) for v in node.values]
        if any(is_unknown(p) for p in parts):
            return Unknown('f-string')
        return ''.join(parts)

    def e_FormattedValue(self, node, scope):
        v = self.ev(node.value, scope)
        if is_unknown(v):
            return v
        if node.conversion == ord('r'):
            v = repr(v)
        elif node.conversion == ord('s'):
            v = str(v)
        spec = self.ev(node.format_spec, scope) if node.format_spec else ''
        if is_unknown(spec):
            return spec
        return format(v, spec)

    def e_UnaryOp(self, node, scope):
        if isinstance(node.op, ast.Not):
            c = self.truth(node.operand, scope)
            return Unknown('not') if c is None else (not c)
        v = self.ev(node.operand, scope)
        if is_unknown(v):
            return Unknown('unary')
        return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(node.op)](v)

    def e_BinOp(self, node, scope):
        a, b = self.ev(node.left, scope), self.ev(node.right, scope)
        Here.loc = self.locof(node, scope.module)
        return self.binop(BINOPS[type(node.op)], a, b)

    def binop(self, op, a, b):
        if is_unknown(a) or is_unknown(b):
            return Unknown('arithmetic')
        if op is operator.mod and isinstance(a, str) and deep_unknown(b):
            return Unknown('format')
        if isinstance(a, dict) and isinstance(b, dict) and op in (operator.or_, operator.ior):
            if self.version < (3, 9):
                raise TypeError("unsupported operand type(s) for |: 'dict' and 'dict'")
            if op is operator.or_:
                a = ADict(a)
                self.dicts.append(a)
            a.update(b)
            return a
        try:
            return op(a, b)
        except TypeError as exc:
            if getattr(exc, 'certain', False):
                raise
            name = op.__name__.strip('_')
            if op in IBINOPS.values():
                if self.may_have(a, '__%s__' % name):
                    return self.give_up('unmodelled operator')
                name = name[1:]
            if not self.may_have(a, '__%s__' % name) and not self.may_have(b, '__r%s__' % name):
                raise           # no version of pyasn1 gives these two this operator
            if isinstance(a, (model.Placed, model.TagSet)) or isinstance(b, (model.Placed, model.TagSet)):
                return self.give_up('unmodelled operator')
            raise

    def may_have(self, x, name):
        """Whether a value has this method in some version of pyasn1."""
        if not isinstance(x, (model.Placed, model.TagSet)):
            return hasattr(type(x), name)
        listed = [self.api['class:' + c.__name__] for c in type(x).__mro__
                  if 'class:' + c.__name__ in self.api]
        return not listed or any(name in names for names in listed)

    def e_BoolOp(self, node, scope):
        is_and = isinstance(node.op, ast.And)
        unknown = False
        v = None
        for i, x in enumerate(node.values):
            try:
                v = self.ev(x, scope)
                c = None if is_unknown(v) else bool(v)
            except NeedsJoin:
                c = None
            if c is None:
                unknown = True
                continue
            if c != is_and:        # decides
                if not unknown:
                    return v
                return Unknown('boolean') if is_and or True else v
        return Unknown('boolean') if unknown else v

    def e_Compare(self, node, scope):
        left = self.ev(node.left, scope)
        for op, r in zip(node.ops, node.comparators):
            right = self.ev(r, scope)
            v = self.compare(op, left, right)
            if is_unknown(v):
                return v
            if not v:
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if is_unknown(a) or is_unknown(b):
                return Unknown('is')
            return (a is b) == isinstance(op, ast.Is)
        if isinstance(op, (ast.In, ast.NotIn)):
            if is_unknown(b) or is_unknown(a):
                return Unknown('in')
            r = a in b
            return r == isinstance(op, ast.In)
        if is_unknown(a) or is_unknown(b):
            return Unknown('compare')
        return CMPOPS[type(op)](a, b)

    def e_IfExp(self, node, scope):
        c = self.truth(node.test, scope)
        if c is True:
            return self.ev(node.body, scope)
        if c is False:
            return self.ev(node.orelse, scope)
        return _merge([self.ev(node.body, scope), self.ev(node.orelse, scope)])

    def e_Lambda(self, node, scope):
        return self.make_func(node, scope, '<lambda>')

    def e_NamedExpr(self, node, scope):
        v = self.ev(node.value, scope)
        s = scope
        while s.kind == 'comp':
            s = s.parent
        self.bind(node.target.id, v, s, self.locof(node, scope.module))
        return v

    def e_Starred(self, node, scope):
        raise Unsupported('starred')

    def comp(self, node, scope, emit):
        inner = Scope({}, scope.module, scope, 'comp')
        # the first iterable is evaluated in the enclosing scope

        def walk(i):
            if i == len(node.generators):
                emit(inner)
                return
            g = node.generators[i]
            it = self.ev(g.iter, scope if i == 0 else inner)
            for item in it:
                self.tick()
                self.assign(g.target, item, inner)
                ok = True
                for c in g.ifs:
                    t = self.truth(c, inner)
                    if t is None:
                        raise NeedsJoin('comprehension filter')
                    if not t:
                        ok = False
                        break
                if ok:
                    walk(i + 1)
        walk(0)

    def e_ListComp(self, node, scope):
        out = []
        self.comp(node, scope, lambda s: out.append(self.ev(node.elt, s)))
        return out

    def e_SetComp(self, node, scope):
        return ASet(self.e_ListComp(node, scope))

    def e_GeneratorExp(self, node, scope):
        # lazily, like Python; the outermost iterable is evaluated now
        inner = Scope({}, scope.module, scope, 'comp')
        first = self.ev(node.generators[0].iter, scope)
        if is_unknown(first):
            raise NeedsJoin('generator over unknown')

        def walk(i):
            if i == len(node.generators):
                yield self.ev(node.elt, inner)
                return
            g = node.generators[i]
            it = first if i == 0 else self.ev(g.iter, inner)
            for item in it:
                self.tick()
                self.assign(g.target, item, inner)
                ok = True
                for c in g.ifs:
                    t = self.truth(c, inner)
                    if t is None:
                        raise NeedsJoin('comprehension filter')
                    if not t:
                        ok = False
                        break
                if ok:
                    for x in walk(i + 1):
                        yield x
        return walk(0)

    def e_DictComp(self, node, scope):
        Here.loc = self.locof(node, scope.module)
        d = ADict()
        self.dicts.append(d)

        def emit(s):
            k, v = self.ev(node.key, s), self.ev(node.value, s)
            Here.loc = self.locof(node.key, scope.module)
            d[k] = v
        self.comp(node, scope, emit)
        return d

    def e_Call(self, node, scope):
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and 'super' not in scope.vars:
            return self.make_super(node, scope)
        if isinstance(node.func, ast.Name) and node.func.id in ('globals', 'locals', 'vars', 'dir') \
                and not node.args and node.func.id not in scope.module._ns:
            if node.func.id == 'dir':
                return sorted(scope.vars)
            return scope.module._ns if node.func.id == 'globals' else scope.vars
        func = self.ev(node.func, scope)
        args, kwargs = [], {}
        for a in node.args:
            if isinstance(a, ast.Starred):
                args.extend(self.ev(a.value, scope))
            else:
                args.append(self.ev(a, scope))
        for k in node.keywords:
            v = self.ev(k.value, scope)
            if k.arg is None:
                for kk, vv in v.items():
                    if kk in kwargs:
                        raise TypeError('multiple values for keyword argument %r' % kk)
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        Here.loc = self.locof(node, scope.module)
        if isinstance(node.func, ast.Name) and node.func.id in ('eval', 'exec') and args and not kwargs and \
                func is self._builtins.get(node.func.id) and isinstance(args[0], str) and \
                all(a is scope.module._ns for a in args[1:]) and (scope.kind == 'module' or node.func.id == 'eval'):
            return self.run_text(node, args[0], scope, node.func.id)
        return self.call(func, args, kwargs, node)

    def run_text(self, node, text, scope, how):
        """eval() or exec() of a known text, in the scope it is called in."""
        tree = ast.parse(text.strip() if how == 'eval' else text, mode=how)
        for x in ast.walk(tree):
            if hasattr(x, 'lineno'):
                x.lineno, x.col_offset = node.lineno, node.col_offset
        if how == 'eval':
            return self.ev(tree.body, scope)
        self.exec_block(tree.body, scope)

    def make_super(self, node, scope):
        if node.args:
            args = [self.ev(a, scope) for a in node.args]
            return Super(*args)
        s = scope
        while s is not None and (s.func is None or s.func.defclass is None):
            s = s.parent
        if s is None:
            raise NeedsJoin('super')
        return Super(s.func.defclass, s.first)

    def call(self, func, args, kwargs, node):
        self.calls += 1
        if is_unknown(func):
            if isinstance(func, Opaque):
                return self.external(func._path, args, kwargs)
            if isinstance(func, Outside) and func.why.count('.') > 1 and \
                    func.why.rpartition('.')[2] in CHANGING:
                self.log('foreign-set', what='%s of another library' % func.why.rpartition('.')[0], attr='the contents')
            elif isinstance(func, Outside) and re.match('(un)?(set|register|install|patch|enable|disable)(_|[A-Z]|$)',
                                                        func.why.rpartition('.')[2]):
                self.log('external-call', name=func.why, args=args, kwargs=kwargs)
            for a in list(args) + list(kwargs.values()):
                if isinstance(a, ADict):
                    a.maybe.add('*')
            return Unknown('result of %s' % func.why)
        if isinstance(func, (Func, BoundFunc)):
            return func(*args, **kwargs)
        host = getattr(func, '__self__', None)
        plain = isinstance(host, _HOST_TYPES) and not isinstance(func, type)
        name = getattr(func, '__name__', '')
        if (plain or getattr(func, '__module__', None) in ('builtins',) or func in (str, int, bytes, len, sorted)
                or (callable(func) and not isinstance(func, type) and
                    getattr(func, '__module__', '') in PURE)):
            if name not in STORING and not isinstance(host, ADict) and func not in (list, tuple, set, ADict, ASet, AFrozenSet):
                vals = list(args) + list(kwargs.values())
                if name in ('isinstance', 'map', 'filter', 'zip', 'partial', 'enumerate', 'reduce', 'b_isinstance'):
                    pass
                elif any(deep_unknown(v, 1) for v in vals):
                    return Unknown('%s(...)' % name)
            elif name in ('extend', 'update') and not isinstance(host, ADict) and args and is_unknown(args[0]):
                raise NeedsJoin('%s with unknown' % name)
        if name == 'extend' and plain and args and is_unknown(args[0]):
            raise NeedsJoin('extend with unknown')
        try:
            return func(*args, **kwargs)
        except NeedsJoin as e:
            return self.give_up('%s: %s' % (name, e))
        except (AttributeError, TypeError, NotImplementedError) as exc:
            if self.in_model(exc):
                return self.give_up('unmodelled use of %s: %s' % (name, exc))
            raise

    def in_model(self, exc):
        """True if the error comes from inside the summaries rather than from
        a call with a wrong signature or from the analysed code itself."""
        if getattr(exc, 'certain', False):
            return False
        tb = exc.__traceback__
        last = None
        while tb is not None:
            last = tb.tb_frame.f_code.co_filename
            tb = tb.tb_next
        return last == model.__file__

    def call_func(self, f, args, kwargs):
        if self.depth > MAX_DEPTH:
            raise Budget('call depth')
        node = f.node
        scope = Scope({}, f.scope.module, f.scope, 'function', f)
        scope.first = args[0] if args else None
        self.bind_args(f, node.args, list(args), dict(kwargs), scope)
        if f.is_gen:
            return self.run_gen(f, scope)
        self.depth += 1
        saved_loc, saved_mod = Here.loc, Here.module
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, scope)
            try:
                self.exec_block(node.body, scope)
                result = None
            except ReturnSig as r:
                result = r.value
            if scope.maybe_returns:
                result = _merge(scope.maybe_returns + [result])
            return result
        except Fault as fa:
            raise
        finally:
            self.depth -= 1
            Here.loc = saved_loc

    def bind_args(self, f, a, args, kwargs, scope):
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        npos = len(pos)
        vars = scope.vars
        if len(args) > npos and not a.vararg:
            raise TypeError('%s() takes %d positional arguments but %d were given' % (f.__name__, npos, len(args)))
        for n, v in zip(pos, args):
            vars[n] = v
        if a.vararg:
            vars[a.vararg.arg] = tuple(args[npos:])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in vars:
                    raise TypeError('%s() got multiple values for argument %r' % (f.__name__, k))
                vars[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise TypeError('%s() got an unexpected keyword argument %r' % (f.__name__, k))
        if a.kwarg:
            vars[a.kwarg.arg] = ADict(extra)
        d = f.defaults
        for n, v in zip(pos[npos - len(d):], d):
            if n not in vars:
                vars[n] = v
        for n, v in zip(kwonly, f.kw_defaults):
            if n not in vars and v is not None:
                vars[n] = v[0]
        for n in pos + kwonly:
            if n not in vars:
                raise TypeError('%s() missing required argument %r' % (f.__name__, n))

    # ------------------------------------------------------------ generators

    def run_gen(self, f, scope):
        def gen():
            try:
                for v in self.gblock(f.node.body, scope):
                    yield v
            except ReturnSig:
                return
        return gen()

    def gblock(self, stmts, scope):
        for s in stmts:
            for v in self.gexec(s, scope):
                yield v

    def gexec(self, node, scope):
        self.tick()
        if not _has_yield(node):
            self.exec(node, scope)
            return
        Here.loc = self.locof(node, scope.module)
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Yield):
            yield None if node.value.value is None else self.ev(node.value.value, scope)
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.YieldFrom):
            for v in self.ev(node.value.value, scope):
                yield v
        elif isinstance(node, ast.Assign) and isinstance(node.value, ast.Yield):
            yield None if node.value.value is None else self.ev(node.value.value, scope)
            for t in node.targets:
                self.assign(t, None, scope)
        elif isinstance(node, ast.If):
            c = self.truth(node.test, scope)
            if c is None:
                raise NeedsJoin('unknown branch in a generator')
            for v in self.gblock(node.body if c else node.orelse, scope):
                yield v
        elif isinstance(node, (ast.For, ast.While)):
            if isinstance(node, ast.For):
                it = self.ev(node.iter, scope)
                if is_unknown(it):
                    raise NeedsJoin('unknown loop in a generator')
                it = iter(it)
            while True:
                self.tick()
                if isinstance(node, ast.For):
                    try:
                        item = next(it)
                    except StopIteration:
                        break
                    self.assign(node.target, item, scope)
                else:
                    c = self.truth(node.test, scope)
                    if c is None:
                        raise NeedsJoin('unknown loop in a generator')
                    if not c:
                        break
                try:
                    for v in self.gblock(node.body, scope):
                        yield v
                except ContinueSig:
                    continue
                except BreakSig:
                    return
            for v in self.gblock(node.orelse, scope):
                yield v
        elif isinstance(node, ast.With):
            for item in node.items:
                cm = self.ev(item.context_expr, scope)
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, Unknown('context'), scope)
            for v in self.gblock(node.body, scope):
                yield v
        elif isinstance(node, ast.Try) and not node.handlers:
            try:
                for v in self.gblock(node.body, scope):
                    yield v
            finally:
                self.exec_block(node.finalbody, scope)
        else:
            raise Unsupported('yield in %s' % type(node).__name__)


def _merge(vals):
    first = vals[0]
    for v in vals[1:]:
        if v is first:
            continue
        if is_unknown(v) or is_unknown(first):
            return Unknown('join')
        if type(v) in (int, str, bytes, bool, float, type(None)) and type(v) is type(first) and v == first:
            continue
        return Unknown('join')
    return first


def _as_load(t):
    if isinstance(t, ast.Name):
        n = ast.Name(id=t.id, ctx=ast.Load())
    elif isinstance(t, ast.Attribute):
        n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    else:
        n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return ast.copy_location(n, t)
