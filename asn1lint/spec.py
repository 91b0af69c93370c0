"""The reference: ASN.1 modules in /verif/spec, one per module of the package.

The notation is ASN.1 with tagging always spelled out, Python identifiers for
references, `rfc5280.Name` for a reference into another module, and three
additions:

  component Type OPEN BY governor IN rfc5280.someMap
      the component is an open type resolved through that registry
  REGISTER rfc5280.someMap { key Type, ... }
      importing this module puts these entries in that registry
  name : Type
      the module offers an instance of the type, without a value
"""
import os
import re

from .schema import (Accepts, Ints, Comp, TOP, INF, BUILTIN_KINDS, is_top)
from . import model

KINDS = sorted(BUILTIN_KINDS, key=lambda k: -len(k))

TOKEN = re.compile(r'''
    (?P<ws>\s+|--[^\n]*)
  | (?P<bits>'[01]*'B)
  | (?P<hex>'[0-9A-Fa-f]*'H)
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<assign>::=)
  | (?P<range>\.\.)
  | (?P<oid>\d+(?:\.\d+)+)
  | (?P<num>-?\d+)
  | (?P<name>[A-Za-z_][A-Za-z0-9_-]*(?:\.[A-Za-z_][A-Za-z0-9_]*)*)
  | (?P<punct>[\[\]{}(),:|^@])
''', re.X)


class SpecError(Exception):
    pass


class Tok(object):
    __slots__ = ('kind', 'text', 'line')

    def __init__(self, kind, text, line):
        self.kind, self.text, self.line = kind, text, line


def tokenize(text, path):
    out, pos, line = [], 0, 1
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise SpecError('%s:%d: cannot read %r' % (path, line, text[pos:pos + 20]))
        if m.lastgroup != 'ws':
            out.append(Tok(m.lastgroup, m.group(), line))
        line += m.group().count('\n')
        pos = m.end()
    out.append(Tok('end', '', line))
    return out


class SpecType(object):
    """A type of the reference; same interface as schema.TypeView."""
    unresolved = False

    def __init__(self, lib, module, line):
        self.lib, self.module, self.line = lib, module, line
        self.base = None          # builtin kind
        self.ref = None           # (module, name)
        self.tag_ops = []         # innermost first: (op, class, number, constructed)
        self.extra = []           # Accepts, conjoined
        self.override = None      # Accepts replacing the base's
        self.own_names = None
        self.own_comps = None
        self.own_elem = None
        self.val = None
        self._busy = False

    def target(self):
        if self.ref is None:
            return None
        return self.lib.type(self.ref, self)

    @property
    def pure_ref(self):
        if self.ref is None or self.tag_ops or self.extra or self.override is not None \
                or self.own_names is not None or self.own_comps is not None:
            return None
        return self.ref

    @property
    def kind(self):
        return self.base if self.ref is None else self.target().kind

    @property
    def tags(self):
        if self.ref is None:
            cls = BUILTIN_KINDS[self.base]
            tags = tuple((t.tagClass, t.tagId, bool(t.tagFormat & 0x20)) for t in cls.tagSet)
        else:
            tags = self.target().tags
        for op, c, n, f in self.tag_ops:
            if op == 'EXPLICIT':
                tags = tags + ((c, n, True),)
            else:
                tags = tags[:-1] + ((c, n, tags[-1][2] if tags else f),)
        if self.kind == 'CHOICE':
            tags = tuple((c, n, True) for c, n, f in tags)
        return tags

    def accepts(self):
        if self.override is not None:
            return self.override
        a = Accepts() if self.ref is None else self.target().accepts()
        for e in self.extra:
            a = a & e
        return a

    @property
    def names(self):
        if self.own_names is not None:
            return self.own_names
        return {} if self.ref is None else self.target().names

    @property
    def comps(self):
        if self.own_comps is not None:
            return self.own_comps
        if self.ref is not None:
            return self.target().comps
        return [] if self.base in ('SEQUENCE', 'SET', 'CHOICE') else None

    @property
    def elem(self):
        if self.own_elem is not None:
            return self.own_elem
        return None if self.ref is None else self.target().elem

    @property
    def value(self):
        if self.val is not None:
            return self.val
        return None if self.ref is None else self.target().value


class Entry(object):
    """A name of a reference module."""
    __slots__ = ('form', 'type', 'value', 'line', 'name', 'module')

    def __init__(self, module, name, form, type, value, line):
        self.module, self.name, self.form = module, name, form
        self.type, self.value, self.line = type, value, line


class SpecModule(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.entries = {}
        self.order = []
        self.registers = []     # (registry ref, key, SpecType, line)
        self.registries = {}    # name -> line (maps this module owns)


class Library(object):
    def __init__(self, directory):
        self.modules = {}
        for f in sorted(os.listdir(directory)):
            if f.endswith('.asn1'):
                path = os.path.join(directory, f)
                with open(path) as fh:
                    m = Parser(self, fh.read(), path).module()
                self.modules[m.name] = m

    def type(self, ref, where):
        m = self.modules.get(ref[0])
        e = m.entries.get(ref[1]) if m else None
        if e is None or e.type is None:
            raise SpecError('%s:%d: no type %s.%s' % (where.module, where.line, ref[0], ref[1]))
        return e.type


class Parser(object):
    def __init__(self, lib, text, path):
        self.lib, self.path = lib, path
        self.toks = tokenize(text, path)
        self.i = 0
        self.mod = None

    # ---- token helpers
    @property
    def t(self):
        return self.toks[self.i]

    def err(self, what):
        raise SpecError('%s:%d: expected %s, got %r' % (self.path, self.t.line, what, self.t.text))

    def next(self):
        t = self.t
        self.i += 1
        return t

    def at(self, *texts):
        for k, x in enumerate(texts):
            if self.toks[min(self.i + k, len(self.toks) - 1)].text != x:
                return False
        return True

    def take(self, *texts):
        if self.at(*texts):
            self.i += len(texts)
            return True
        return False

    def need(self, text):
        if not self.take(text):
            self.err(text)

    def name(self):
        if self.t.kind not in ('name',):
            self.err('a name')
        return self.next().text

    # ---- module
    def module(self):
        name = self.name()
        for x in ('DEFINITIONS', '::=', 'BEGIN'):
            self.need(x)
        self.mod = SpecModule(name, self.path)
        while not self.at('END'):
            self.item()
        self.need('END')
        if self.t.kind != 'end':
            self.err('the end')
        return self.mod

    def qualify(self, text):
        if '.' in text:
            m, _, n = text.rpartition('.')
            return (m, n)
        return (self.mod.name, text)

    def item(self):
        line = self.t.line
        if self.take('REGISTRY'):
            self.mod.registries[self.name()] = line
            return
        if self.take('REGISTER'):
            reg = self.qualify(self.name())
            self.need('{')
            while not self.take('}'):
                line = self.t.line
                key = self.value()
                self.mod.registers.append((reg, key, self.type(), line))
                if not self.at('}'):
                    self.need(',')
            return
        name = self.name()
        if name in self.mod.entries:
            raise SpecError('%s:%d: %s twice' % (self.path, line, name))
        if self.take('::='):
            e = Entry(self.mod.name, name, 'class', self.type(), None, line)
            if self.take('VALUED'):
                e.type.val = self.value()
        elif self.take(':'):
            e = Entry(self.mod.name, name, 'instance', self.type(), None, line)
        elif self.take('PYTHON'):
            self.need('::=')
            e = Entry(self.mod.name, name, 'python', None, self.value(), line)
        else:
            ty = self.type()
            self.need('::=')
            e = Entry(self.mod.name, name, 'value', ty, self.value(), line)
        self.mod.entries[name] = e
        self.mod.order.append(name)

    # ---- types
    def kind(self):
        for k in KINDS:
            w = k.split()
            if self.at(*w):
                return k, len(w)
        return None, 0

    def type(self):
        ty = SpecType(self.lib, self.mod.name, self.t.line)
        ops = []
        while self.take('['):
            cls = 0x80
            for text, c in (('APPLICATION', 0x40), ('PRIVATE', 0xC0), ('UNIVERSAL', 0)):
                if self.take(text):
                    cls = c
            n = int(self.next().text)
            self.need(']')
            constructed = not self.take('PRIMITIVE')
            op = self.name()
            if op not in ('EXPLICIT', 'IMPLICIT'):
                self.err('EXPLICIT or IMPLICIT')
            ops.append((op, cls, n, constructed))
        ty.tag_ops = list(reversed(ops))
        k, n = self.kind()
        if k in ('SEQUENCE', 'SET') and self.toks[self.i + 1].text in ('OF', '('):
            # SEQUENCE OF T, SEQUENCE (SIZE ...) OF T
            self.i += 1
            cons = []
            while self.at('('):
                cons.append(self.constraint())
            self.need('OF')
            ty.base = k + ' OF'
            ty.own_elem = self.type() if not self.take('NOTHING') else None
            ty.extra = cons
            return ty
        if k:
            self.i += n
            ty.base = k
            if k in ('SEQUENCE OF', 'SET OF'):
                ty.own_elem = self.type() if not self.take('NOTHING') else None
                return ty
            if k in ('SEQUENCE', 'SET', 'CHOICE'):
                ty.own_comps = self.components(k)
            elif self.at('{'):
                ty.own_names = self.named()
        else:
            ty.ref = self.qualify(self.name())
            if self.take('WITH', 'NAMES'):
                ty.own_names = self.named()
            if self.take('WITH', 'COMPONENTS'):
                ty.own_comps = self.components(None)
            if self.take('OF'):
                ty.own_elem = self.type()
        while self.at('('):
            if self.take('(', 'ONLY'):
                ty.override = Accepts()
                while self.at('('):
                    ty.override = ty.override & self.constraint()
                self.need(')')
            else:
                ty.extra.append(self.constraint())
        return ty

    def named(self):
        out = {}
        self.need('{')
        while not self.take('}'):
            t = self.next()
            n = t.text if t.kind != 'str' else _unquote(t.text)
            self.need('(')
            out[n] = self.value()
            self.need(')')
            if not self.at('}'):
                self.need(',')
        return out

    def components(self, kind):
        out = []
        self.need('{')
        while not self.take('}'):
            line = self.t.line
            t = self.next()
            name = _unquote(t.text) if t.kind == 'str' else t.text
            ty = self.type()
            gov = reg = None
            mode = ''
            if self.take('OPEN', 'BY'):
                gov = self.name()
                self.need('IN')
                reg = self.qualify(self.name())
            if self.take('OPTIONAL'):
                mode = 'OPTIONAL'
            elif self.take('DEFAULT'):
                mode = 'DEFAULT'
                if not self.take('NOTHING'):
                    ty.val = self.value()
            elif self.take('VALUED'):
                ty.val = self.value()
            if self.take('OPEN', 'BY'):
                gov = self.name()
                self.need('IN')
                reg = self.qualify(self.name())
            out.append(Comp(name, mode, ty, gov, reg, (self.path, line)))
            if not self.at('}'):
                self.need(',')
        return out

    # ---- constraints
    def constraint(self):
        self.need('(')
        c = self.union()
        self.need(')')
        return c

    def union(self):
        c = self.inter()
        while self.take('|'):
            c = c | self.inter()
        return c

    def inter(self):
        c = self.atom()
        while self.take('^'):
            c = c & self.atom()
        return c

    def atom(self):
        if self.take('SIZE'):
            self.need('(')
            s = self.intset()
            self.need(')')
            return Accepts({'size': s})
        if self.take('FROM'):
            return Accepts({'from': frozenset(self.value())})
        if self.take('PRESENT'):
            return Accepts({'other': frozenset(['PRESENT'])})
        if self.take('ABSENT'):
            return Accepts({'other': frozenset(['ABSENT'])})
        if self.take('WITH', 'COMPONENTS'):
            self.need('{')
            items = []
            while not self.take('}'):
                n = self.name()
                items.append((n, self.atom()))
                if not self.at('}'):
                    self.need(',')
            return Accepts({'other': frozenset([('with', frozenset(items))])})
        if self.at('('):
            c = self.constraint()
            return c
        if self.t.kind == 'num' or self.at('MIN') or self.at('MAX'):
            a = self.bound()
            b = self.bound() if self.take('..') else a
            return Accepts({'value': Ints([(a, b)])})
        return Accepts({'value': frozenset([self.value()])})

    def bound(self):
        if self.take('MAX'):
            return INF
        if self.take('MIN'):
            return -INF
        return int(self.next().text)

    def intset(self):
        iv = []
        while True:
            a = self.bound()
            iv.append((a, self.bound() if self.take('..') else a))
            if not self.take('|'):
                return Ints(iv)

    # ---- values
    def value(self):
        t = self.t
        if t.kind == 'str':
            self.i += 1
            return _unquote(t.text)
        if t.kind == 'num':
            self.i += 1
            return int(t.text)
        if t.kind == 'oid':
            self.i += 1
            return tuple(int(x) for x in t.text.split('.'))
        if t.kind == 'bits':
            self.i += 1
            return ('bits', t.text[1:-2])
        if t.kind == 'hex':
            self.i += 1
            return bytes(bytearray.fromhex(t.text[1:-2]))
        if self.take('INF'):
            return INF
        if self.take('NULL'):
            return b''
        if self.take('TYPE'):
            return ('type', _unquote(self.next().text))
        if self.take('AS'):
            return ('as', _unquote(self.next().text), self.value())
        if self.take('DER'):
            ty = self.type()
            v = self.value()
            return Der(ty, v)
        if self.take('['):
            out = []
            while not self.take(']'):
                out.append(self.value())
                if not self.at(']'):
                    self.need(',')
            return ('list', tuple(out))
        if self.take('{'):
            out = []
            while not self.take('}'):
                n = self.next().text
                out.append((n, self.value()))
                if not self.at('}'):
                    self.need(',')
            return ('seq', tuple(out))
        if t.kind == 'name':
            n = self.name()
            self.need(':')
            return ('choice', n, self.value())
        self.err('a value')


class Der(object):
    def __init__(self, type, value):
        self.type, self.value = type, value

    def __eq__(self, o):
        return same_value(o, self)

    def __hash__(self):
        return 5


_TAGGED = {'[UNIVERSAL %d](primitive)' % n: n for n in range(1, 31)}


def _encoded(v):
    """(tags, contents) of a value given together with its tags or as the encoding of
    one; None of others."""
    from .schema import fmt_tags
    if isinstance(v, Der):
        return fmt_tags(tuple(v.type.tags)), v.value
    if isinstance(v, tuple) and len(v) == 3 and v[0] == 'der' and isinstance(v[1], tuple):
        return fmt_tags(v[1]), v[2]
    if isinstance(v, tuple) and len(v) == 3 and v[0] == 'as':
        return v[1], v[2]
    return None


def _octets(e):
    """The encoding of a primitive string or NULL, where it is short."""
    n, v = _TAGGED.get(e[0]), e[1]
    if isinstance(v, str):
        v = v.encode('utf-8', 'replace')
    if n is None or not isinstance(v, bytes) or len(v) > 127:
        return None
    return bytes(bytearray([n, len(v)])) + v


def same_value(code, ref):
    """Does a canonical value of the code equal a reference value?"""
    x, y = _encoded(code), _encoded(ref)
    if x is not None and y is not None:
        return x[0] == y[0] and same_value(x[1], y[1])
    if x is not None or y is not None:
        e, o = (x, ref) if x is not None else (y, code)
        return isinstance(o, bytes) and _octets(e) == o
    if isinstance(ref, tuple) and isinstance(code, tuple):
        return len(ref) == len(code) and all(same_value(a, b) for a, b in zip(code, ref))
    if isinstance(ref, (str, bytes)) and isinstance(code, (str, bytes)):
        a = code if isinstance(code, bytes) else code.encode('utf-8', 'replace')
        b = ref if isinstance(ref, bytes) else ref.encode('utf-8', 'replace')
        return a == b
    if isinstance(ref, tuple) != isinstance(code, tuple):
        return False
    return code == ref


def _unquote(s):
    import json
    return json.loads(s)


def quote(s):
    import json
    return json.dumps(s)


def fmt_value(v):
    if v is None:
        return 'NOTHING'
    if isinstance(v, Der):
        return 'DER ...%s' % fmt_value(v.value)
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return 'INF' if v == INF else repr(v)
    if isinstance(v, str):
        return quote(v)
    if isinstance(v, bytes):
        return "'%s'H" % ''.join('%02x' % b for b in bytearray(v))
    if isinstance(v, tuple):
        if v and v[0] == 'bits':
            return "'%s'B" % v[1]
        if v and v[0] == 'seq':
            return '{ %s }' % ', '.join('%s %s' % (n, fmt_value(x)) for n, x in v[1])
        if v and v[0] == 'list':
            return '[ %s ]' % ', '.join(fmt_value(x) for x in v[1])
        if v and v[0] == 'type':
            return 'TYPE %s' % quote(v[1])
        if v and v[0] == 'choice':
            return '%s : %s' % (v[1], fmt_value(v[2]))
        if v and v[0] == 'as':
            return 'AS %s %s' % (quote(v[1]), fmt_value(v[2]))
        if v and v[0] == 'der':
            return 'DER<%r> %s' % (v[1], fmt_value(v[2]))
        if v and all(isinstance(x, int) for x in v):
            return '.'.join(map(str, v))
    return repr(v)
