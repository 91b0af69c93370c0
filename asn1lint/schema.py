"""The resolved schema: what a pyasn1 type object means, in ASN.1 terms.

`view(obj)` gives a TypeView of a type of the analysed code (a class or an
instance): kind, tags, accepted values, names, components, default.  The
same interface is offered by the reference notation (spec.py), so that the two
can be compared node by node.
"""
from . import model
from .lattice import Unknown, is_unknown, NeedsJoin

INF = float('inf')
CLASSES = {0x00: 'UNIVERSAL', 0x40: 'APPLICATION', 0x80: '', 0xC0: 'PRIVATE'}


class Top(object):
    """An aspect the analysis could not resolve."""

    def __init__(self, why='?'):
        self.why = why

    def __repr__(self):
        return '?(%s)' % self.why


TOP = Top()


def is_top(x):
    return isinstance(x, Top)


# ------------------------------------------------------------ accepted sets

class Ints(object):
    """A set of integers as a sorted tuple of disjoint closed intervals."""
    __slots__ = ('iv',)

    def __init__(self, iv):
        out = []
        for a, b in sorted(iv):
            if a > b:
                continue
            if out and a <= out[-1][1] + 1:
                out[-1][1] = max(out[-1][1], b)
            else:
                out.append([a, b])
        self.iv = tuple((a, b) for a, b in out)

    def __eq__(self, o):
        return isinstance(o, Ints) and self.iv == o.iv

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.iv)

    def __and__(self, o):
        return Ints([(max(a, c), min(b, d)) for a, b in self.iv for c, d in o.iv])

    def __or__(self, o):
        return Ints(list(self.iv) + list(o.iv))

    def __repr__(self):
        def end(x):
            return 'MAX' if x == INF else 'MIN' if x == -INF else str(int(x))
        return ' | '.join(end(a) if a == b else '%s..%s' % (end(a), end(b)) for a, b in self.iv) or 'EMPTY'


ALL_INTS = Ints([(-INF, INF)])


def num(x):
    """A constraint bound as a number."""
    if is_unknown(x):
        raise NeedsJoin('bound')
    if isinstance(x, model.SimpleAsn1Type):
        x = x._value
        if x is model.noValue or is_unknown(x):
            raise NeedsJoin('bound')
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, float)):
        return x
    raise NeedsJoin('bound')


def plain(v):
    """A value in a canonical, comparable form."""
    if is_unknown(v):
        raise NeedsJoin('value')
    if isinstance(v, model.SimpleAsn1Type):
        v = v._value
        if is_unknown(v):
            raise NeedsJoin('value')
    if v is model.noValue:
        return None
    if isinstance(v, model.Bits):
        return ('bits', str(v))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, model.DerOf):
        inner = value_of(v.value)
        if is_top(inner):
            raise NeedsJoin('encoded value')
        tags = view(v.value).tags
        if is_top(tags):
            raise NeedsJoin('encoded tags')
        return ('der', tags, inner)
    if isinstance(v, model.ConstructedAsn1Type):
        return value_of(v)
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    return v


class Accepts(object):
    """The values a subtypeSpec admits: a conjunction over dimensions.

    dims: value -> Ints or frozenset; size -> Ints; from -> frozenset of
    characters; other -> frozenset of canonical terms.
    """
    __slots__ = ('dims',)

    def __init__(self, dims=()):
        self.dims = dict(dims)
        v = self.dims.get('value')
        if isinstance(v, frozenset) and all(isinstance(x, (str, bytes)) for x in v):
            # a list of texts says all: what else holds of them goes without saying
            if 'size' in self.dims:
                size = self.dims.pop('size')
                v = frozenset(x for x in v if size & Ints([(len(x), len(x))]) != Ints([]))
            if 'from' in self.dims:
                alphabet = self.dims.pop('from')
                v = frozenset(x for x in v if set(x) <= alphabet)
            self.dims['value'] = v

    def __eq__(self, o):
        return isinstance(o, Accepts) and self.dims == o.dims

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(frozenset(self.dims.items()))

    def __and__(self, o):
        d = dict(self.dims)
        for k, v in o.dims.items():
            if k in d:
                if k == 'other':
                    d[k] = d[k] | v
                elif isinstance(v, Ints) != isinstance(d[k], Ints):
                    d['other'] = d.get('other', frozenset()) | frozenset([('and', v)])
                else:
                    d[k] = d[k] & v
            else:
                d[k] = v
        return Accepts(d)

    def __or__(self, o):
        if self == o:
            return self
        if not self.dims or not o.dims:
            return Accepts()
        if set(self.dims) == set(o.dims) and len(self.dims) == 1:
            k = list(self.dims)[0]
            a, b = self.dims[k], o.dims[k]
            if k != 'other' and isinstance(a, Ints) == isinstance(b, Ints):
                r = a | b
                return Accepts({k: r} if r != ALL_INTS else {})
        parts = set()
        for x in (self, o):
            if set(x.dims) == set(['other']) and len(x.dims['other']) == 1 and \
                    isinstance(list(x.dims['other'])[0], tuple) and list(x.dims['other'])[0][0] == 'or':
                parts |= list(x.dims['other'])[0][1]
            else:
                parts.add(x)
        return Accepts({'other': frozenset([('or', frozenset(parts))])})

    def __bool__(self):
        return bool(self.dims)

    def __repr__(self):
        out = []
        if 'value' in self.dims:
            v = self.dims['value']
            out.append('(%r)' % v if isinstance(v, Ints) else '(%s)' % ' | '.join(sorted(map(repr, v))))
        if 'size' in self.dims:
            out.append('(SIZE (%r))' % self.dims['size'])
        if 'from' in self.dims:
            out.append('(FROM %r)' % ''.join(sorted(self.dims['from'])))
        if 'other' in self.dims:
            out.append('(%s)' % sorted(map(repr, self.dims['other'])))
        return ' '.join(out) or '()'


def accepts(c):
    """Canonical accepted set of a constraint, or TOP."""
    try:
        return _accepts(c)
    except NeedsJoin as e:
        return Top(str(e))


def _accepts(c):
    if c is None or c == ():
        return Accepts()
    if is_unknown(c):
        raise NeedsJoin('constraint')
    if isinstance(c, model.ConstraintsIntersection):
        r = Accepts()
        for x in c._values:
            r = r & _accepts(x)
        return r
    if isinstance(c, model.ConstraintsUnion):
        r = None
        for x in c._values:
            a = _accepts(x)
            r = a if r is None else (r | a)
        return r if r is not None else Accepts()
    if isinstance(c, model.ValueSizeConstraint):
        s = Ints([(num(c.start), num(c.stop))]) & Ints([(0, INF)])
        return Accepts({'size': s} if s != Ints([(0, INF)]) else {})
    if isinstance(c, model.ValueRangeConstraint):
        s = Ints([(num(c.start), num(c.stop))])
        return Accepts({'value': s} if s != ALL_INTS else {})
    if isinstance(c, model.PermittedAlphabetConstraint):
        return Accepts({'from': frozenset(plain(x) for x in c._values)})
    if isinstance(c, model.SingleValueConstraint):
        vals = [plain(x) for x in c._values]
        if all(isinstance(v, int) for v in vals):
            return Accepts({'value': Ints([(v, v) for v in vals])})
        return Accepts({'value': frozenset(_hashable(v) for v in vals)})
    if isinstance(c, model.ContainedSubtypeConstraint):
        r = Accepts()
        for x in c._values:
            if isinstance(x, model.AbstractConstraint):
                r = r & _accepts(x)
            else:
                return Accepts({'other': frozenset([('contained', _hashable(plain(y))) for y in c._values])})
        return r
    if isinstance(c, model.ConstraintsExclusion):
        return Accepts({'other': frozenset([('not', frozenset(_accepts(x) for x in c._values))])})
    if isinstance(c, model.WithComponentsConstraint):
        items = []
        for x in c._values:
            if is_unknown(x):
                raise NeedsJoin('component')
            name, con = x
            items.append((name, _accepts(con)))
        return Accepts({'other': frozenset([('with', frozenset(items))])})
    if isinstance(c, model.ComponentPresentConstraint):
        return Accepts({'other': frozenset(['PRESENT'])})
    if isinstance(c, model.ComponentAbsentConstraint):
        return Accepts({'other': frozenset(['ABSENT'])})
    if not isinstance(c, model.AbstractConstraint):
        return Accepts({'other': frozenset([('no constraint but', kind_of(c))])})
    raise NeedsJoin('constraint %s' % type(c).__name__)


def kind_of(x):
    """What kind of object stands where one of another kind belongs."""
    if isinstance(x, type):
        return 'class %s' % x.__name__
    return getattr(x, 'kind', None) or type(x).__name__


def _hashable(v):
    try:
        hash(v)
        return v
    except TypeError:
        return repr(v)


# ---------------------------------------------------------------- the values

def value_of(obj):
    """Canonical value of a declared value, None if it has none, TOP if
    unresolved."""
    try:
        return _value_of(obj)
    except NeedsJoin as e:
        return Top(str(e))


def _part(v, declared=None):
    """The value of a component; of one that was set to a type, the type; of one
    encoded with other tags than the type declared for it has, these too."""
    val = value_of(v)
    if val is not None and not is_top(val) and isinstance(v, model.Asn1Type) and isinstance(declared, model.Asn1Type):
        own, want = view(v).tags, view(declared).tags
        if not is_top(own) and not is_top(want) and own != want:
            return ('as', fmt_tags(own), val)
        if isinstance(declared, model.Any):
            if isinstance(val, tuple) and len(val) == 3 and val[0] == 'der':
                return ('as', fmt_tags(val[1]), val[2])
            if isinstance(val, bytes) and 2 <= len(val) < 130 and len(val) == 2 + bytearray(val)[1] \
                    and 0 < bytearray(val)[0] < 31 and bytearray(val)[0] != 16:
                return ('as', '[UNIVERSAL %d](primitive)' % bytearray(val)[0], val[2:])
    if val is None and isinstance(v, model.Asn1Type):
        c = type(v)
        return ('type', '%s.%s' % (c._module.split('.')[-1], c.__name__) if getattr(c, '_module', None) else c.kind)
    return val


def _value_of(obj):
    if is_unknown(obj):
        raise NeedsJoin('value')
    if isinstance(obj, model.SimpleAsn1Type):
        return plain(obj)
    if isinstance(obj, model.Choice):
        ct = obj.componentType
        for i, v in obj._vals.items():
            return ('choice', ct[i].name if not isinstance(i, str) else i,
                    value_of(v) if isinstance(i, str) else _part(v, ct[i].asn1Object))
        return None
    if isinstance(obj, model.SequenceAndSetBase):
        ct = obj.componentType
        if not isinstance(ct, model.NamedTypes):
            raise NeedsJoin('components')
        if is_unknown(ct) or not ct.known():
            raise NeedsJoin('components')
        if not obj._vals:
            return None
        items = []
        for i, v in sorted(obj._vals.items()):
            val = _part(v, ct[i].asn1Object if not isinstance(i, str) else None)
            if val is None:
                continue
            if is_top(val):
                raise NeedsJoin('component value')
            items.append((ct[i].name if not isinstance(i, str) else i, val))
        return ('seq', tuple(items)) if items else None
    if isinstance(obj, model.SequenceOfAndSetOfBase):
        if not obj._vals:
            return None
        vals = [_part(obj._vals[i], obj.componentType) for i in sorted(obj._vals)]
        if any(is_top(v) for v in vals):
            raise NeedsJoin('element value')
        vals = tuple(v for v in vals if v is not None)
        return ('list', vals) if vals else None
    return plain(obj)


# ----------------------------------------------------------------- the types

BUILTIN_KINDS = {}
for _c in model.BUILTIN_TYPES:
    BUILTIN_KINDS.setdefault(_c.kind, _c)


class Comp(object):
    """A component of a SEQUENCE, SET or CHOICE."""
    __slots__ = ('name', 'mode', 'type', 'governor', 'registry', 'loc')

    def __init__(self, name, mode, type, governor=None, registry=None, loc=None):
        self.name, self.mode, self.type = name, mode, type
        self.governor, self.registry, self.loc = governor, registry, loc


class TypeView(object):
    """A type of the analysed code.  All aspects are lazily computed."""

    def __init__(self, obj):
        self.obj = obj
        self.cls = obj if isinstance(obj, type) else type(obj)

    @property
    def loc(self):
        return None if is_unknown(self.obj) else getattr(self.obj, '_loc', None)

    @property
    def unresolved(self):
        return is_unknown(self.obj)

    @property
    def kind(self):
        if is_unknown(self.obj):
            return TOP
        k = getattr(self.cls, 'kind', None)
        return k if k is not None else 'Python %s' % self.cls.__name__

    def _attr(self, name):
        return getattr(self.obj, name, None)

    @property
    def tags(self):
        """((class, number, constructed), ...) innermost first."""
        if is_unknown(self.obj):
            return TOP
        ts = self._attr('tagSet')
        if is_unknown(ts) or ts is None:
            return Top('tagSet')
        if isinstance(ts, tuple) and ts == ():
            return ()
        if not isinstance(ts, model.TagSet):
            return ((0, -1, False),)
        out = []
        for t in ts:
            if is_unknown(t) or not t.known():
                return Top('tag')
            try:
                n = num(t.tagId)
            except NeedsJoin:
                return Top('tag number')
            out.append((t.tagClass, n, bool(t.tagFormat & 0x20)))
        if self.kind == 'CHOICE':
            out = [(c, n, True) for c, n, f in out]
        return tuple(out)

    def accepts(self):
        if is_unknown(self.obj):
            return TOP
        c = accepts(self._attr('subtypeSpec'))
        if isinstance(self.obj, type) and not is_top(c):
            s = self._attr('sizeSpec')
            if s is not None and is_unknown(s):
                return Top('sizeSpec')
            if s is not None and not isinstance(s, model.AbstractConstraint):
                c = accepts(s)
            elif s:           # as _moveSizeSpec does when instantiated
                c = accepts(s)
        base = BUILTIN_KINDS.get(self.kind)
        if base is not None and not is_top(c) and self.kind in ('BOOLEAN', 'NULL', 'CHOICE'):
            if c == accepts(base.subtypeSpec):
                c = Accepts()
        return c

    @property
    def names(self):
        """Named numbers or bits: {name: number}."""
        nv = self._attr('namedValues')
        if nv is None:
            return {}
        if is_unknown(nv):
            return Top('namedValues')
        if not isinstance(nv, model.NamedValues):
            return {'<no named values but %s>' % kind_of(nv): 0}
        out = {}
        for n, v in nv.items():
            if is_unknown(n) or is_unknown(v):
                return Top('named value')
            try:
                out[n] = v if isinstance(v, str) else num(v)
            except NeedsJoin:
                return Top('named value')
        if self.kind == 'BOOLEAN':
            return {}
        return out

    @property
    def comps(self):
        """List of Comp for SEQUENCE/SET/CHOICE, else None."""
        if self.kind not in ('SEQUENCE', 'SET', 'CHOICE'):
            return None
        ct = self._attr('componentType')
        if is_unknown(ct) or ct is None:
            return Top('componentType')
        if not isinstance(ct, model.NamedTypes):
            return []
        out = []
        for nt in ct.namedTypes:
            if is_unknown(nt):
                return Top('component')
            if is_unknown(nt.name):
                return Top('component name')
            mode = 'OPTIONAL' if nt.isOptional else 'DEFAULT' if nt.isDefaulted else ''
            gov = reg = None
            if nt.openType is not None:
                if is_unknown(nt.openType):
                    gov = reg = Top('open type')
                elif not isinstance(nt.openType, model.OpenType):
                    gov, reg = '<no open type but %s>' % kind_of(nt.openType), {}
                else:
                    gov = nt.openType.name
                    if is_unknown(gov):
                        gov = Top('governor')
                    elif isinstance(gov, model.SimpleAsn1Type):
                        gov = gov._value
                    reg = nt.openType.typeMap
                    if is_unknown(reg):
                        reg = Top('type map')
                    elif not isinstance(reg, dict):
                        gov, reg = '<no registry but %s>' % kind_of(reg), {}
            name = nt.name if isinstance(nt.name, str) else '<%s>' % type(nt.name).__name__
            out.append(Comp(name, mode, view(nt.asn1Object), gov, reg, nt._loc))
        return out

    @property
    def elem(self):
        if self.kind not in ('SEQUENCE OF', 'SET OF'):
            return None
        ct = self._attr('componentType')
        if ct is None:
            return None
        return view(ct)

    @property
    def value(self):
        if is_unknown(self.obj):
            return TOP
        if isinstance(self.obj, type):
            if issubclass(self.obj, model.SimpleAsn1Type):
                for a in ('defaultValue', 'defaultHexValue', 'defaultBinValue'):
                    v = getattr(self.obj, a, model.noValue)
                    if v is not model.noValue:
                        try:
                            return value_of(self.obj())
                        except Exception:
                            return Top('default value')
            return None
        return value_of(self.obj)

    def is_pristine(self):
        """True for an instance (or class) that adds nothing to its class."""
        if isinstance(self.obj, type):
            return True
        ro = self.obj.readOnly
        for k, v in ro.items():
            cv = getattr(self.cls, k, None)
            if v is cv:
                continue
            if k == 'subtypeSpec':
                if view(self.cls).accepts() == self.accepts():
                    continue
                return False
            return False
        if isinstance(self.obj, model.SimpleAsn1Type):
            if self.obj._value is not model.noValue and self.value != view(self.cls).value:
                return False
        elif self.obj._vals:
            return False
        return True


_views = {}


def view(obj):
    v = _views.get(id(obj))
    if v is None or v.obj is not obj:
        v = TypeView(obj)
        _views[id(obj)] = v
    return v


def fmt_tags(tags):
    if is_top(tags):
        return repr(tags)
    out = []
    for c, n, f in reversed(tags):
        cl = CLASSES.get(c, '?')
        out.append('[%s%d]%s' % (cl + ' ' if cl else '', n, '' if f else '(primitive)'))
    return ' '.join(out) or 'untagged'
