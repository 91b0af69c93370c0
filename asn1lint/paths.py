"""Path-wise abstract interpretation of imperative code (pem.py, tools/).

The values are abstract: a text is a sequence of atoms (a line of the input of
some class, a marker, the decoding of some atoms).  A condition the domain
does not decide splits the path; a store seen before at the same place of the
code ends it.  Nothing concrete is read, decoded or printed.
"""
import ast

from . import lattice
from .interp import (World, Mod, Func, BoundFunc, ADict, Fault, Budget, HostMod, Scope, NEW_METHODS)
from .model import Here
from .lattice import Unknown, is_unknown, NeedsJoin


class Stop(BaseException):
    """This path joins one already explored."""


class Exit(BaseException):
    """The program ends here."""

    def __init__(self, code, how):
        self.code, self.how = code, how


class TooMany(BaseException):
    """More paths than the exploration may take."""


class Num(object):
    """A number the domain knows by name only, e.g. the length of a text."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % (self.name,)

    def __hash__(self):
        return hash(self.name)

    def _term(op):
        def f(self, other):
            return Num((op, self.name, other.name if isinstance(other, Num) else other))
        return f
    __add__ = _term('+')
    __sub__ = _term('-')
    __mul__ = _term('*')
    __mod__ = _term('%')
    __floordiv__ = _term('//')
    __truediv__ = _term('/')
    __and__ = _term('&')

    def _rterm(op):
        def f(self, other):
            return Num((op, other, self.name))
        return f
    __radd__ = _rterm('+')
    __rsub__ = _rterm('-')
    __rmul__ = _rterm('*')

    def __neg__(self):
        return Num(('-', self.name))

    def __index__(self):
        raise NeedsJoin('number')

    def __int__(self):
        raise NeedsJoin('number')

    def __bool__(self):
        if self.name[0] == 'len':
            return bool(Text(self.name[1]))
        if self.name[0] == '-' and len(self.name) == 2:
            return bool(Num(self.name[1]))
        return Text.explorer.decide(('nonzero', self.name))

    def _cmp(op):
        def f(self, other):
            o = other.name if isinstance(other, Num) else other
            if self.name[0] == '-' and len(self.name) == 2 and isinstance(other, int):
                return getattr(Num(self.name[1]), {'==': '__eq__', '!=': '__ne__', '<': '__gt__', '<=': '__ge__',
                                                   '>': '__lt__', '>=': '__le__'}[op])(-other)
            if self.name[0] == 'len' and isinstance(other, int):
                if other == 0 and op in ('==', '!=', '<=', '>') or other == 1 and op in ('>=', '<'):
                    nonempty = bool(Text(self.name[1]))
                else:
                    nonempty = Text.explorer_truth(self.name[1])
                if nonempty is not None:
                    # only comparisons with 0 are decided by emptiness
                    if other == 0 and op in ('==', '<='):
                        return not nonempty
                    if other == 0 and op in ('!=', '>'):
                        return nonempty
                    if other == 1 and op == '>=':
                        return nonempty
                    if other == 1 and op == '<':
                        return not nonempty
                    if other <= 0 and op == '>=':
                        return True
                    if other <= 0 and op == '<':
                        return False
                    if not nonempty and other > 0:
                        return op in ('<', '<=', '!=')
            if op in ('==', '!=') and o == self.name:
                return op == '=='
            return Text.explorer.decide((op, self.name, o))
        return f
    __eq__ = _cmp('==')
    __ne__ = _cmp('!=')
    __lt__ = _cmp('<')
    __le__ = _cmp('<=')
    __gt__ = _cmp('>')
    __ge__ = _cmp('>=')


WS = set(' \t\r\n\f\v')

# atoms
#   ('raw', i)          line i as read
#   ('line', i)         line i without surrounding whitespace; not empty
#   ('half', i, how)    line i, partly stripped
#   ('part', i)         the first part of line i, as readline(n) gives it
#   ('mark', side, k)   the text of a marker
#   ('lit', text)       a literal
#   ('dec', atoms)      the base64 decoding of some atoms
#   ('all',)            the whole input
#   ('block', n)        the contents of the n-th block read; may be empty only if it says so
#   ('op', name, atoms) anything else done to a text


class Text(object):
    explorer = None
    _abstract = True

    def __init__(self, atoms, kind='str'):
        out = []
        for a in atoms:
            if a[0] == 'lit':
                if not a[1]:
                    continue
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + a[1])
                    continue
            out.append(a)
        self.atoms, self.kind = tuple(out), kind

    def __repr__(self):
        return '%s%r' % (self.kind, self.atoms)

    def __str__(self):
        return '<%s>' % '+'.join(map(str, self.atoms))

    def __hash__(self):
        if self.lit is not None:
            return hash(self.lit)
        return hash(self.atoms)

    @property
    def lit(self):
        """The literal it is, if it is one."""
        if not self.atoms:
            return self.ex.empty(self.kind)
        if len(self.atoms) == 1 and self.atoms[0][0] == 'lit':
            t = self.atoms[0][1]
            return t if self.kind == 'str' else t.encode('latin-1')
        return None

    @property
    def ex(self):
        return Text.explorer

    @staticmethod
    def explorer_truth(atoms):
        return Text.explorer.nonempty(atoms)

    def __bool__(self):
        r = self.ex.nonempty(self.atoms)
        if r is None:
            return self.ex.decide(('nonempty', self.atoms))
        return r

    # -------------------------------------------------------------- equality

    def __eq__(self, other):
        return self.ex.equal(self, other)

    def __ne__(self, other):
        return not self.ex.equal(self, other)

    def _order(op):
        def f(self, other):
            number = other is None or isinstance(other, (int, float, Num))
            if number or isinstance(other, (list, tuple, dict, set)):
                if self.ex.py3:
                    raise TypeError("'%s' not supported between %s and %s" % (op, self.kind, type(other).__name__))
                # Python 2 sorts by the names of the types
                return (op[0] == '>') == (number or isinstance(other, (list, dict, set)))
            if isinstance(other, (str, bytes)) and self.ex.py3 and isinstance(other, bytes) != (self.kind == 'bytes'):
                raise TypeError("'%s' not supported between str and bytes" % op)
            if isinstance(other, (str, bytes)) and not other:
                return {'>': bool(self), '>=': True, '<': False, '<=': not self}[op]
            return self.ex.decide((op, self.atoms, key_of(other)))
        return f
    __lt__ = _order('<')
    __le__ = _order('<=')
    __gt__ = _order('>')
    __ge__ = _order('>=')

    # ------------------------------------------------------------ operations

    def __add__(self, other):
        return self.ex.concat([self, other])

    def __radd__(self, other):
        return self.ex.concat([other, self])

    def __mod__(self, args):
        return Text([('op', '%', self.atoms)], self.kind)

    def __mul__(self, n):
        if isinstance(n, int) and not isinstance(n, bool) and 0 <= n < 4:
            return Text(self.atoms * n, self.kind)
        return Text([('op', '*', self.atoms)], self.kind)

    def __contains__(self, other):
        if isinstance(other, (str, bytes)) and not other:
            return True
        return self.ex.decide(('contains', self.atoms, key_of(other)))

    def __iter__(self):
        raise NeedsJoin('characters of a text')

    def __len__(self):
        raise NeedsJoin('length of a text')

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is None and i.start in (None, 0) and i.stop is None:
                return self
            if i.step is None and i.start in (None, 0) and isinstance(i.stop, Num):
                # x[:-len(y)] and x[:len(x) - len(y)]
                n = i.stop.name
                if n[0] == '-' and len(n) == 2 and n[1][0] == 'len':
                    if not Text(n[1][1], self.kind):
                        return Text([], self.kind)      # x[:-0] is empty
                    return Text([('trim', self.atoms, n[1][1])], self.kind)
                if n[0] == '-' and len(n) == 3 and n[1] == ('len', self.atoms) and n[2][0] == 'len':
                    return Text([('trim', self.atoms, n[2][1])], self.kind)
                if n[0] == 'len':
                    return Text([('head', self.atoms, n[1])], self.kind)
            return Text([('op', 'slice', self.atoms, repr((i.start, i.stop, i.step)))], self.kind)
        return Text([('op', 'item', self.atoms)], self.kind)

    def strip(self, chars=None):
        return self.ex.strip(self, chars, 'both')

    def lstrip(self, chars=None):
        return self.ex.strip(self, chars, 'left')

    def rstrip(self, chars=None):
        return self.ex.strip(self, chars, 'right')

    def encode(self, *a, **k):
        if self.ex.py3 and self.kind != 'str':
            raise AttributeError("'bytes' object has no attribute 'encode'")
        return Text(self.atoms, 'bytes') if self.ex.py3 else self

    def decode(self, *a, **k):
        if a and str(a[0]).replace('_', '').replace('-', '').lower() in ('base64', 'base64codec'):
            return self.ex.b64decode(self)
        if self.ex.py3 and self.kind != 'bytes':
            raise AttributeError("'str' object has no attribute 'decode'")
        return Text(self.atoms, 'str') if self.ex.py3 else self

    def replace(self, old, new, *n):
        if isinstance(old, (str, bytes)) and not isinstance(new, Text) and not new and \
                set(old if isinstance(old, str) else old.decode('latin-1')) <= WS:
            return Text([('nows', self.atoms)] if any(a[0] not in ('line', 'mark', 'dec') for a in self.atoms)
                        else self.atoms, self.kind)
        return Text([('op', 'replace', self.atoms)], self.kind)

    def join(self, items):
        return self.ex.concat(list(items), self)

    def splitlines(self, keepends=False):
        return Pieces(self, 'lines')

    def split(self, sep=None, maxsplit=-1):
        return Pieces(self, 'words' if sep is None else ('split', key_of(sep)))

    def startswith(self, p, *a):
        if not a and isinstance(p, Text) and p.atoms == self.atoms:
            return True
        if not a and isinstance(p, (str, bytes)) and not p:
            return True
        if not a and isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        if not a and len(self.atoms) == 1 and self.atoms[0][0] == 'lit' and isinstance(p, str):
            return self.atoms[0][1].startswith(p)
        return self.ex.decide(('startswith', self.atoms, key_of(p)) + a)

    def endswith(self, p, *a):
        if not a and isinstance(p, Text) and p.atoms == self.atoms:
            return True
        if not a and p in ('\n', b'\n') and self.atoms:
            r = self.ex.ends_line(self.atoms[-1])
            if r is not None:
                return r
        return self.ex.decide(('endswith', self.atoms, key_of(p)) + a)

    def isspace(self):
        return self.ex.decide(('isspace', self.atoms)) if self.ex.solid(self) is None else not self.ex.solid(self)

    def find(self, *a):
        return Num(('find', self.atoms) + tuple(map(key_of, a)))
    index = rfind = count = find

    def partition(self, sep):
        return tuple(Text([('op', 'partition%d' % i, self.atoms)], self.kind) for i in range(3))
    rpartition = partition


def _op(name):
    def f(self, *a, **k):
        return Text([('op', name, self.atoms)], self.kind)
    f.__name__ = name
    return f


def _pred(name):
    def f(self, *a):
        return self.ex.decide((name, self.atoms))
    f.__name__ = name
    return f


for _n in ('lower upper title swapcase capitalize translate expandtabs zfill center ljust rjust removeprefix '
           'removesuffix format hex casefold').split():
    setattr(Text, _n, _op(_n))
for _n in 'isalnum isalpha isdigit islower isupper isascii isprintable isidentifier istitle'.split():
    setattr(Text, _n, _pred(_n))


class Pieces(object):
    """The lines or words of a text: only good for joining again."""

    def __init__(self, text, how):
        self.text, self.how = text, how

    def __iter__(self):
        raise NeedsJoin('pieces of a text')


def key_of(v):
    if isinstance(v, Text):
        return v.atoms
    if isinstance(v, Num):
        return v.name
    try:
        hash(v)
        return v
    except TypeError:
        return repr(v)


class PathWorld(World):
    """One path through the code."""

    def __init__(self, explorer, root, version, api):
        World.__init__(self, root, version=version, api=api)
        self.ex = explorer
        self.frames = []
        ns = {'b64decode': explorer.b64decode, 'decodebytes': explorer.b64decode,
              'decodestring': explorer.b64decode, 'standard_b64decode': explorer.b64decode,
              'urlsafe_b64decode': lambda s: Text([('op', 'urlsafe', explorer.text(s).atoms)], 'bytes'),
              'b16decode': lambda s, *a: Text([('op', 'b16', explorer.text(s).atoms)], 'bytes'),
              'b32decode': lambda s, *a: Text([('op', 'b32', explorer.text(s).atoms)], 'bytes')}
        if version[0] == 3:
            del ns['decodestring']
            ns['decodebytes'] = lambda s: explorer.b64decode(explorer.only_bytes(s))
        else:
            del ns['decodebytes']
        self._models['base64'] = Mod('base64', ns=ns, api=set())
        self._models['binascii'] = Mod('binascii', ns={
            'a2b_base64': explorer.b64decode, 'Error': ValueError}, api=set(['unhexlify', 'hexlify', 'b2a_base64']))
        self._models['codecs'] = Mod('codecs', ns={
            'decode': lambda s, enc='utf-8', *a: explorer.only_bytes(s).decode(enc),
            'encode': lambda s, enc='utf-8', *a: explorer.text(s).encode(enc)}, api=set(['open', 'lookup']))
        self._builtins['len'] = self.b_len
        self._builtins['str'] = str
        self._builtins['bool'] = lambda x=False: bool(x)

    def b_len(self, x):
        if isinstance(x, Text):
            if x.lit is not None:
                return len(x.lit)
            n = self.ex.length(x.atoms)
            return Num(('len', x.atoms)) if n is None else n
        return len(x)

    def e_Constant(self, node, scope):
        v = node.value
        return v.decode('latin-1') if isinstance(v, bytes) and not self.ex.py3 else v

    def get_attr(self, obj, name):
        if isinstance(obj, Text):
            since = NEW_METHODS.get(name)
            kind = bytes if obj.kind == 'bytes' else str
            if since and (kind in since[1:] or str in since[1:] and not self.ex.py3) and self.version < since[0] or \
                    name == 'hex' and not (self.ex.py3 and kind is bytes):
                raise AttributeError("'%s' has no attribute '%s'" % (kind.__name__, name))
        return World.get_attr(self, obj, name)

    def b_isinstance(self, obj, cls):
        if isinstance(obj, Text):
            cs = []
            todo = [cls]
            while todo:
                c = todo.pop()
                if isinstance(c, (tuple, list)):
                    todo.extend(c)
                else:
                    cs.append(c)
            want = str if obj.kind == 'str' else bytes
            if not self.ex.py3:
                return str in cs or bytes in cs
            return want in cs or object in cs
        return World.b_isinstance(self, obj, cls)

    def b_type(self, *args, **k):
        if len(args) == 1 and isinstance(args[0], Text):
            return str if args[0].kind == 'str' or not self.ex.py3 else bytes
        return World.b_type(self, *args, **k)

    def truth(self, test, scope):
        v = self.ev(test, scope)
        if is_unknown(v):
            return self.ex.decide(('unknown', v.why, getattr(test, 'lineno', 0), getattr(test, 'col_offset', 0)))
        return bool(v)

    def e_BoolOp(self, node, scope):
        is_and = isinstance(node.op, ast.And)
        v = None
        for x in node.values:
            v = self.ev(x, scope)
            if bool(v) != is_and:
                return v
        return v

    def loop_unknown(self, node, scope):
        raise NeedsJoin('loop over something unknown')

    def give_up(self, why, loc=None):
        self.ex.vague.append(why)
        return World.give_up(self, why, loc)

    def key_in(self, obj, key):
        """The key of this mapping or set that an unknown text equals, if there is one."""
        if not isinstance(obj, (dict, set, frozenset)) or not isinstance(key, Text) or key.lit is not None:
            return key
        texts = [k for k in obj if isinstance(k, (str, bytes, Text))]
        if any(isinstance(k, Text) and k.atoms == key.atoms for k in texts):
            return key
        for k in texts if isinstance(obj, dict) else sorted(texts, key=repr):
            if self.ex.equal(key, k):
                return k
        return key

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            a = self.key_in(b, a)
        return World.compare(self, op, a, b)

    def get_item(self, obj, key):
        return World.get_item(self, obj, self.key_in(obj, key))

    def call(self, func, args, kwargs, node):
        if is_unknown(func):
            return World.call(self, func, args, kwargs, node)
        host = getattr(func, '__self__', None)
        if isinstance(host, dict) and args and getattr(func, '__name__', '') in (
                'get', 'pop', 'setdefault', 'has_key', '__contains__', '__getitem__'):
            args = [self.key_in(host, args[0])] + list(args[1:])
        if isinstance(host, (str, bytes)) and not isinstance(func, type):
            name = func.__name__
            if name == 'join' and args:
                items = args[0]
                if isinstance(items, Pieces):
                    return Text([('nows', items.text.atoms)] if items.how in ('lines', 'words') and
                                not self.ex.text_of(host).strip() else [('op', 'join', items.text.atoms)],
                                items.text.kind)
                items = list(items)
                if any(isinstance(x, Text) for x in items) or any(is_unknown(x) for x in items):
                    return self.ex.concat(items, host)
                return func(items)
            if any(isinstance(x, (Text, Num)) for x in list(args) + list(kwargs.values())):
                return getattr(self.ex.text(host, bytes_ok=True), name)(*args, **kwargs)
        if func in (str, bytes, bytearray) and args and isinstance(args[0], Text):
            t = args[0]
            if func is str and self.ex.py3 and t.kind == 'bytes' and len(args) == 1:
                return Text([('op', 'repr', t.atoms)], 'str')
            return Text(t.atoms, 'str' if func is str else 'bytes')
        if func is repr and args and isinstance(args[0], Text):
            return Text([('op', 'repr', args[0].atoms)], 'str')
        return World.call(self, func, args, kwargs, node)

    def call_func(self, f, args, kwargs):
        self.frames.append([f, None, Here.loc])
        try:
            return World.call_func(self, f, args, kwargs)
        finally:
            self.frames.pop()

    def bind_args(self, f, a, args, kwargs, scope):
        if self.frames and self.frames[-1][0] is f:
            self.frames[-1][1] = scope
        return World.bind_args(self, f, a, args, kwargs, scope)

    def run_gen(self, f, scope):
        self.ex.generators.append(scope)
        return World.run_gen(self, f, scope)


class Explorer(object):
    """Walks all paths: a path is a list of decisions, replayed up to where it
    branches."""
    LIMIT = 60000

    def __init__(self, root, version, api):
        self.root, self.version, self.api = root, version, api
        self.py3 = version[0] >= 3
        self.paths = 0
        self.forks = 0
        self.merged = 0

    def explore(self, run):
        """run(self) walks one path; its results are yielded."""
        todo = [[]]
        while todo:
            self.prefix = todo.pop()
            self.taken = []
            self.pending = []
            self.memo = {}
            self.generators = []
            self.note = []
            self.vague = []
            self.classes = {}
            Text.explorer = self
            saved = lattice.Unknown.chooser
            lattice.Unknown.chooser = lambda u: self.decide(('unknown', u.why))
            try:
                result = run(self)
            except Stop:
                self.merged += 1
                result = None
            finally:
                lattice.Unknown.chooser = saved
            self.paths += 1
            if self.paths > self.LIMIT:
                raise TooMany()
            for p in reversed(self.pending):
                todo.append(p)
            if result is not None:
                yield result

    def pick(self, options):
        """A decision among options (a list)."""
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            self.forks += len(options) - 1
            for o in options[1:]:
                self.pending.append(self.taken + [o])
            c = options[0]
        self.taken.append(c)
        return c

    def decide(self, key):
        if key in self.memo:
            return self.memo[key]
        if len(self.taken) > 400:
            raise TooMany()
        r = self.pick([True, False])
        self.memo[key] = r
        if key[0] == 'unknown':
            self.vague.append('a condition on %s' % (key[1],))
        self.note.append('%s is %s' % (_show(key), r))
        return r

    # ------------------------------------------------------------ transfer

    def empty(self, kind):
        return b'' if kind == 'bytes' and self.py3 else ''

    def text_of(self, v):
        return v if isinstance(v, str) else v.decode('latin-1')

    def text(self, v, bytes_ok=False):
        if isinstance(v, Text):
            return v
        if isinstance(v, str):
            return Text([('lit', v)], 'str')
        if isinstance(v, (bytes, bytearray)):
            return Text([('lit', bytes(v).decode('latin-1'))], 'bytes')
        if is_unknown(v):
            raise NeedsJoin(v.why)
        raise TypeError('not a text: %r' % (v,))

    def solid(self, t):
        """Does the text have non-whitespace?  None if unknown."""
        for a in t.atoms:
            if a[0] in ('line', 'mark', 'dec', 'part'):
                return True
            if a[0] == 'lit' and a[1].strip():
                return True
            if a[0] == 'raw':
                return True if self.classes.get(a[1]) != 'blank' else None
        return None

    classes = {}

    def nonempty(self, atoms):
        if not atoms:
            return False
        undecided = False
        for a in atoms:
            if a[0] in ('raw', 'line', 'mark', 'lit', 'part'):
                return True
            if a[0] == 'half':
                if self.classes.get(a[1]) != 'blank':
                    return True
                undecided = True
            elif a[0] == 'dec':
                r = self.nonempty(a[1])
                if r:
                    return True
                undecided = undecided or r is None
            elif a[0] == 'block':
                return True
            elif a[0] == 'nows':
                if self.solid(Text(a[1])):
                    return True
                undecided = True
            else:
                undecided = True
        return None if undecided else False

    def equal(self, a, b):
        if not isinstance(b, (Text, str, bytes)):
            if is_unknown(b):
                return self.decide(('==', a.atoms, b.why))
            return False
        if not isinstance(b, Text):
            b = self.text(b)
        if self.py3 and a.kind != b.kind:
            return False
        if a.atoms == b.atoms:
            return True
        na, nb = self.nonempty(a.atoms), self.nonempty(b.atoms)
        if na is not None and nb is not None and na != nb:
            return False
        if na is False and nb is False:
            return True
        if len(a.atoms) == 1 and len(b.atoms) == 1:
            r = self.equal_atoms(a.atoms[0], b.atoms[0])
            if r is not None:
                return r
        x, y = sorted((a.atoms, b.atoms), key=repr)
        return self.decide(('==', x, y))

    def equal_atoms(self, x, y):
        k = set((x[0], y[0]))
        if k == set(['mark']):
            return False                    # the markers are distinct
        if k == set(['line', 'mark']) or k == set(['part', 'mark']):
            return False                    # a payload line is no marker
        if k == set(['lit']):
            return x[1] == y[1]
        for p, q in ((x, y), (y, x)):
            if p[0] in ('line', 'part') and q[0] == 'lit' and q[1] in self.literal_markers:
                return False
            if p[0] == 'half' and self.classes.get(p[1]) not in (None, 'payload', 'blank'):
                return None
            if p[0] in ('half', 'raw') and q[0] in ('mark', 'lit') and self.classes.get(p[1]) in ('payload', 'blank') \
                    and (q[0] == 'mark' or q[1] in self.literal_markers):
                return False
        return None

    literal_markers = frozenset()

    def strip(self, t, chars, side):
        if chars is not None:
            c = self.text_of(chars) if isinstance(chars, (str, bytes)) else None
            if c is None or not set(c) <= WS:
                # taking other characters away may change the text
                return Text([('op', 'strip', t.atoms, repr(chars))], t.kind)
            if set(c) >= WS:
                chars = None
        out = list(t.atoms)
        if len(out) != 1:
            if chars is None and side == 'both':
                return Text([('nows', t.atoms)], t.kind)
            return Text([('op', 'strip', t.atoms)], t.kind)
        a = out[0]
        if a[0] in ('line', 'mark', 'part'):
            return t
        if a[0] == 'lit':
            return self.text(a[1].strip())
        if a[0] in ('raw', 'half'):
            i = a[1]
            how = set() if a[0] == 'raw' else set(a[2])
            how.add((side, chars is None))
            if chars is None and side == 'both' or set([('left', True), ('right', True)]) <= how:
                return self.stripped(i, t.kind)
            return Text([('half', i, frozenset(how))], t.kind)
        if a[0] in ('all', 'nows'):
            return Text([('nows', t.atoms if a[0] == 'all' else a[1])], t.kind)
        return Text([('op', 'strip', t.atoms)], t.kind)

    def stripped(self, i, kind):
        raise NotImplementedError

    def ends_line(self, atom):
        """Does the text that ends in this atom end in a line break?"""
        return None

    def length(self, atoms):
        """The number of characters, where it is known."""
        return None

    def concat(self, items, sep=None):
        items = list(items)
        if any(is_unknown(x) for x in items):
            return Unknown('concatenation')
        ts = [self.text(x) for x in items]
        s = self.text(sep) if sep is not None else None
        kinds = set(t.kind for t in ts + ([s] if s is not None else []))
        if len(kinds) > 1 and self.py3:
            raise TypeError('can only concatenate str or bytes, not both')
        kind = kinds.pop() if len(kinds) == 1 else 'str'
        atoms = []
        for i, t in enumerate(ts):
            if i and s is not None:
                atoms.extend(s.atoms)
            atoms.extend(t.atoms)
        return Text(atoms, kind)

    def only_bytes(self, s):
        t = self.text(s, bytes_ok=True)
        if self.py3 and t.kind == 'str':
            raise TypeError("a bytes-like object is required, not 'str'")
        return t

    def b64decode(self, s, altchars=None, validate=False):
        if is_unknown(s):
            return Unknown('b64decode')
        if isinstance(s, (list, tuple)) or s is None or isinstance(s, int):
            raise TypeError('argument should be a bytes-like object')
        t = self.text(s)
        if altchars is not None and not (is_unknown(altchars)):
            return Text([('op', 'altchars', t.atoms)], 'bytes')
        if not t.atoms:
            return self.empty('bytes')
        if validate and any(a[0] in ('raw', 'half', 'all') or a[0] == 'lit' and set(a[1]) & WS for a in t.atoms):
            return Text([('op', 'strict decoding of white space too', t.atoms)], 'bytes' if self.py3 else 'str')
        return Text([('dec', t.atoms)], 'bytes' if self.py3 else 'str')


def _show(key):
    return ' '.join(str(k) for k in key) if isinstance(key, tuple) else str(key)
