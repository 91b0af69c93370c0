"""Rules that need no reference: well-formedness of the resolved schema and
the effects of importing the modules."""
from . import model, schema
from .compare import Finding
from .interp import ADict, ALL, Mod, Func
from .lattice import is_unknown, NeedsJoin
from .schema import view, is_top, fmt_tags


class Graph(object):
    """Every type object reachable from the package's names and registries."""

    def __init__(self, world):
        self.world = world
        self.nodes = []          # (path, view)
        self.unresolved = []
        seen = {}
        self.seen = seen
        todo = []
        for mname in world.order:
            m = world.mods[mname]
            short = mname.split('.')[-1]
            for name, v in m._ns.items():
                if self.is_type(v) and m._binds.get(name, ('',))[0] != 'import':
                    todo.append(('%s.%s' % (short, name), v))
                elif isinstance(v, ADict) and v._module == mname:
                    for k, x in dict.items(v):
                        if self.is_type(x):
                            todo.append(('%s.%s[%s]' % (short, name, _k(k)), x))
        todo.reverse()
        while todo:
            path, obj = todo.pop()
            if id(obj) in seen:
                continue
            seen[id(obj)] = (obj, path)
            v = view(obj)
            self.nodes.append((path, v))
            c = v.comps if v.kind in ('SEQUENCE', 'SET', 'CHOICE') else None
            if is_top(c):
                self.unresolved.append(path)
            elif c:
                for x in reversed(c):
                    if self.is_type(x.type.obj):
                        todo.append((path + '.' + x.name, x.type.obj))
            e = v.elem
            if e is not None and self.is_type(e.obj):
                todo.append((path + '.*', e.obj))

    @staticmethod
    def is_type(v):
        return isinstance(v, model.Asn1Type) or isinstance(v, type) and issubclass(v, model.Asn1Type) and \
            '_module' in v.__dict__


def _k(k):
    from .spec import fmt_value
    try:
        return fmt_value(schema.plain(k))
    except NeedsJoin:
        return '?'


# ------------------------------------------------------------- decodability

ANY = 'ANY'


def leading(v, depth=0):
    """The tags an encoding of the type can start with: set of (class,
    number), or ANY, or None if unresolved."""
    if is_unknown(v.obj) or depth > 20:
        return None
    tags = v.tags
    if is_top(tags):
        return None
    if tags:
        c, n, f = tags[-1]
        return frozenset([(c, n)])
    if v.kind == 'CHOICE':
        comps = v.comps
        if is_top(comps):
            return None
        out = set()
        for c in comps:
            l = leading(c.type, depth + 1)
            if l is None:
                return None
            if l == ANY:
                return ANY
            out |= l
        return frozenset(out)
    return ANY


def clash(a, b):
    if a is None or b is None:
        return None
    if a == ANY or b == ANY:
        return 'any tag'
    x = a & b
    if x:
        return ', '.join(fmt_tags(((c, n, True),)) for c, n in sorted(x))
    return None


def decodability(graph):
    """Alternatives of a CHOICE, members of a SET, and the members of a
    SEQUENCE that may stand at the same place have distinct outer tags; the
    names are distinct."""
    out = []
    stats = {'choices': 0, 'sets': 0, 'sequences': 0, 'pairs': 0}
    for path, v in graph.nodes:
        if v.kind not in ('SEQUENCE', 'SET', 'CHOICE'):
            continue
        comps = v.comps
        if is_top(comps) or not comps:
            continue
        names = [c.name for c in comps]
        for n in sorted(set(n for n in names if names.count(n) > 1)):
            out.append(Finding('duplicate-component', '%s.%s' % (path, n), v.loc, 'two components have this name'))
        lead = [leading(c.type) for c in comps]
        if v.kind in ('CHOICE', 'SET'):
            stats['choices' if v.kind == 'CHOICE' else 'sets'] += 1
            for i in range(len(comps)):
                for j in range(i + 1, len(comps)):
                    stats['pairs'] += 1
                    c = clash(lead[i], lead[j])
                    if c:
                        out.append(Finding('ambiguous', '%s: %s/%s' % (path, names[i], names[j]),
                                           comps[j].loc or v.loc, 'both start with %s' % c))
        else:
            stats['sequences'] += 1
            for i in range(len(comps)):
                if not comps[i].mode:
                    continue
                for j in range(i + 1, len(comps)):
                    stats['pairs'] += 1
                    c = clash(lead[i], lead[j])
                    if c:
                        out.append(Finding('ambiguous', '%s: %s/%s' % (path, names[i], names[j]),
                                           comps[j].loc or v.loc,
                                           'both can stand at the same place and start with %s' % c))
                    if not comps[j].mode:
                        break
    return out, stats


# ------------------------------------------------------------- completeness

def alike(a, b):
    if isinstance(a, model.TagSet) and isinstance(b, model.TagSet):
        return a == b
    if isinstance(a, model.AbstractConstraint) and isinstance(b, model.AbstractConstraint):
        return type(a) is type(b) and a == b
    return False


def completeness(graph):
    """Every prototype object carries what its class declares now: nothing was
    captured before the class was completed; component types are instances."""
    out = []
    stats = {'prototypes': 0, 'components': 0}
    for path, v in graph.nodes:
        comps = v.comps if v.kind in ('SEQUENCE', 'SET', 'CHOICE') else None
        kids = []
        if comps and not is_top(comps):
            kids = [(c.name, c.type, c.loc) for c in comps]
        elif v.elem is not None:
            kids = [('*', v.elem, v.loc)]
        for n, t, loc in kids:
            stats['components'] += 1
            if isinstance(t.obj, type):
                out.append(Finding('class-as-type', '%s.%s' % (path, n), loc or v.loc,
                                   'the component type is the class %s, not an instance of it' % t.obj.__name__))
            elif not is_unknown(t.obj) and not isinstance(t.obj, model.Asn1Type):
                out.append(Finding('class-as-type', '%s.%s' % (path, n), loc or v.loc, 'is not an ASN.1 type'))
        if isinstance(v.obj, type):
            if v.kind in ('SEQUENCE', 'SET', 'CHOICE') and v.cls.__dict__.get('_module'):
                pass
            continue
        stats['prototypes'] += 1
        ro = v.obj.readOnly
        for attr in ('componentType', 'tagSet', 'subtypeSpec', 'namedValues', 'sizeSpec'):
            if attr not in ro:
                continue
            have, now = ro[attr], getattr(v.cls, attr, None)
            if have is now or is_unknown(have) or is_unknown(now) or attr != 'componentType' and alike(have, now):
                continue
            for b in v.cls.__mro__[1:]:
                if b.__dict__.get(attr) is have and have is not None:
                    out.append(Finding('stale-prototype', path, v.loc,
                                       'this %s was created before %s.%s was assigned and does not have it' % (
                                           v.cls.__name__, v.cls.__name__, attr)))
                    break
            else:
                if have is None and attr == 'componentType':
                    out.append(Finding('stale-prototype', path, v.loc,
                                       'this %s was created before its %s was assigned' % (v.cls.__name__, attr)))
    return out, stats


# ---------------------------------------------------------------- tag form

def home(path, v):
    """The name of the class a container belongs to, if it has one with these
    components; the path that led to it otherwise."""
    cls = v.cls
    if cls is not None and cls.__dict__.get('_module'):
        if isinstance(v.obj, type) or v.obj.readOnly.get('componentType') is getattr(cls, 'componentType', None):
            return '%s.%s' % (cls.__dict__['_module'].split('.')[-1], cls.__name__)
    return path


def tag_form(graph):
    """A tag around a tag, and the tag of a constructed type, is constructed;
    the innermost tag of any other type is primitive; a tag on an untagged
    type (ANY) surrounds an encoding, so it is constructed."""
    out, n = [], 0
    names = {}
    for path, v in graph.nodes:
        comps = v.comps if v.kind in ('SEQUENCE', 'SET', 'CHOICE') else None
        if comps and not is_top(comps):
            for c in comps:
                names.setdefault(id(c.type.obj), '%s.%s' % (home(path, v), c.name))
        elif v.elem is not None:
            names.setdefault(id(v.elem.obj), '%s.*' % home(path, v))
    for path, v in graph.nodes:
        tags = v.tags
        if is_top(tags) or v.kind is None or is_top(v.kind):
            continue
        n += 1
        free = v.kind in ('CHOICE', 'ANY')
        for i, (c, num, form) in enumerate(tags):
            want = i > 0 or free or v.kind in ('SEQUENCE', 'SET', 'SEQUENCE OF', 'SET OF')
            if bool(form) != want:
                out.append(Finding('tag-form', names.get(id(v.obj), path), v.loc,
                                   'the tag %s on %s is %s' % (fmt_tags(((c, num, True),)), v.kind,
                                                               'constructed' if form else 'primitive')))
    return out, n


# ------------------------------------------------------- defaults, constants

def admits(acc, val, v):
    """Does the accepted set admit the value?  None if undecided."""
    if is_top(acc) or is_top(val) or val is None:
        return None
    for k, s in acc.dims.items():
        if k == 'value':
            if isinstance(s, schema.Ints):
                if isinstance(val, int):
                    if not any(a <= val <= b for a, b in s.iv):
                        return False
                else:
                    return None
            else:
                if isinstance(val, (str, bytes)):
                    if not any(_same(val, x) for x in s):
                        return False
        elif k == 'size':
            n = None
            if isinstance(val, (str, bytes)):
                n = len(val)
            elif isinstance(val, tuple) and val and val[0] == 'bits':
                n = len(val[1])
            elif isinstance(val, tuple) and val and val[0] == 'list':
                n = len(val[1])
            if n is not None and not any(a <= n <= b for a, b in s.iv):
                return False
        elif k == 'from':
            if isinstance(val, str) and not set(val) <= set(s):
                return False
    return True


def _same(a, b):
    from .spec import same_value
    return same_value(a, b)


def values(graph):
    """Defaults exist, and every declared value is one its type admits; no
    constraint is empty."""
    out = []
    stats = {'defaults': 0, 'values': 0, 'constraints': 0}
    for path, v in graph.nodes:
        acc = v.accepts()
        if not is_top(acc) and acc:
            stats['constraints'] += 1
            for k, s in acc.dims.items():
                if (isinstance(s, schema.Ints) and not s.iv) or (isinstance(s, frozenset) and not s):
                    out.append(Finding('empty-constraint', path, v.loc, 'no value satisfies its constraint'))
        val = v.value
        if val is not None and not is_top(val):
            stats['values'] += 1
            if admits(acc, val, v) is False:
                out.append(Finding('value-outside-type', path, v.loc,
                                   'the value %s is outside %r' % (_short(val), acc)))
            if v.kind in ('INTEGER', 'ENUMERATED') and v.kind == 'ENUMERATED' and not is_top(v.names):
                if v.names and val not in v.names.values():
                    out.append(Finding('value-outside-type', path, v.loc, 'the value %s has no name' % _short(val)))
        comps = v.comps if v.kind in ('SEQUENCE', 'SET', 'CHOICE') else None
        if comps and not is_top(comps):
            for c in comps:
                if c.mode == 'DEFAULT':
                    stats['defaults'] += 1
                    dv = c.type.value
                    if dv is None and not is_unknown(c.type.obj):
                        if v.kind == 'CHOICE':
                            continue
                        if not _all_optional(c.type):
                            out.append(Finding('default-without-value', '%s.%s' % (path, c.name), c.loc or v.loc,
                                               'is DEFAULT but declares no value'))
                if v.kind == 'CHOICE' and c.mode:
                    out.append(Finding('optional-alternative', '%s.%s' % (path, c.name), c.loc or v.loc,
                                       'a CHOICE alternative cannot be %s' % c.mode))
    return out, stats


SIZED = ('OCTET STRING', 'BIT STRING', 'ANY', 'SEQUENCE OF', 'SET OF', 'UTCTime', 'GeneralizedTime', 'ObjectDescriptor',
         'SEQUENCE', 'SET')      # pyasn1 counts the components present
NUMBERS = ('INTEGER', 'ENUMERATED', 'BOOLEAN', 'REAL')


def applicable(graph):
    """A constraint speaks of what the values of its type have: sizes belong to
    strings and lists, ranges to numbers, alphabets to strings.  Any other
    makes pyasn1 raise TypeError for each value, or checks nothing."""
    out, n = [], 0
    for path, v in graph.nodes:
        acc, kind = v.accepts(), v.kind
        if is_top(acc) or not acc or kind is None or is_top(kind):
            continue
        n += 1
        text = kind.endswith('String')
        for k, s in acc.dims.items():
            bad = None
            if k == 'size' and kind not in SIZED and not text:
                bad = 'a size'
            elif k == 'value' and isinstance(s, schema.Ints) and kind not in NUMBERS:
                bad = 'a range of numbers'
            elif k == 'from' and not text and kind != 'OCTET STRING':
                bad = 'an alphabet'
            if bad:
                out.append(Finding('inapplicable-constraint', path, v.loc, 'has %s, but is of type %s' % (bad, kind)))
    return out, n


def _all_optional(t):
    if t.kind in ('SEQUENCE', 'SET'):
        comps = t.comps
        return not is_top(comps) and all(c.mode for c in comps)
    return t.kind in ('SEQUENCE OF', 'SET OF')


def _short(v):
    from .spec import fmt_value
    s = fmt_value(v)
    return s if len(s) < 80 else s[:77] + '...'


# ----------------------------------------------------------------- open types

def open_types(graph):
    """The governor is an earlier component of the same SEQUENCE, is itself
    not optional when the open field is mandatory, and the field can hold any
    type; the registry is one reachable by name."""
    out = []
    stats = {'open fields': 0}
    for path, v in graph.nodes:
        comps = v.comps if v.kind in ('SEQUENCE', 'SET', 'CHOICE') else None
        if not comps or is_top(comps):
            continue
        names = [c.name for c in comps]
        for i, c in enumerate(comps):
            if c.governor is None:
                continue
            stats['open fields'] += 1
            w = '%s.%s' % (path, c.name)
            if is_top(c.governor):
                continue
            if c.governor not in names:
                out.append(Finding('governor', w, c.loc or v.loc, 'its governor %s is not a component' % c.governor))
                continue
            if names.index(c.governor) >= i:
                out.append(Finding('governor', w, c.loc or v.loc, 'its governor %s comes after it' % c.governor))
            g = comps[names.index(c.governor)].type
            t = c.type
            if t.kind in ('SET OF', 'SEQUENCE OF'):
                e = t.elem
                if e is not None:
                    t = e
            if t.kind not in ('ANY', 'OCTET STRING', 'BIT STRING') and not is_top(t.kind):
                out.append(Finding('governor', w, c.loc or v.loc, 'a field of type %s cannot be an open type' % t.kind))
            if not is_top(c.registry) and not isinstance(c.registry, dict):
                out.append(Finding('governor', w, c.loc or v.loc, 'its registry is %s, not a map' % c.registry))
            elif not is_top(c.registry):
                for k in dict.keys(c.registry):
                    if is_unknown(k) or is_top(g.kind):
                        continue
                    want = 'OBJECT IDENTIFIER' if isinstance(k, model.ObjectIdentifier) else 'INTEGER' \
                        if isinstance(k, (int, model.Integer)) else None
                    if want and g.kind != want and not (want == 'INTEGER' and g.kind == 'ENUMERATED'):
                        out.append(Finding('governor', w, c.loc or v.loc,
                                           'its governor is %s but the registry is keyed by %s' % (g.kind, want)))
                        break
    return out, stats


# ------------------------------------------------------------------- effects

def _same_registry(x, y):
    if x is y:
        return True
    # of two worlds: made by the same statement
    return isinstance(x, ADict) and isinstance(y, ADict) and x.world_id != y.world_id and \
        (x._module, x._loc) == (y._module, y._loc)


def same_type(a, b, seen=None):
    """Structural equality of two code types; None when unresolved."""
    seen = set() if seen is None else seen
    if is_unknown(a) or is_unknown(b):
        return None
    if a is b:
        return True
    if (id(a), id(b)) in seen:
        return True
    seen.add((id(a), id(b)))
    va, vb = view(a), view(b)
    if va.kind != vb.kind:
        return False
    for x, y in ((va.tags, vb.tags), (va.accepts(), vb.accepts())):
        if is_top(x) or is_top(y):
            return None
        if x != y:
            return False
    if va.kind in ('INTEGER', 'ENUMERATED', 'BIT STRING'):
        if is_top(va.names) or is_top(vb.names):
            return None
        if va.names != vb.names:
            return False
    ca, cb = va.comps, vb.comps
    if va.kind in ('SEQUENCE', 'SET', 'CHOICE'):
        if is_top(ca) or is_top(cb):
            return None
        if [(c.name, c.mode) for c in ca] != [(c.name, c.mode) for c in cb]:
            return False
        for x, y in zip(ca, cb):
            if any(is_top(q) for q in (x.registry, y.registry, x.governor, y.governor)):
                return None
            if not _same_registry(x.registry, y.registry) or x.governor != y.governor:
                return False
            r = same_type(x.type.obj, y.type.obj, seen)
            if not r:
                return r
            if x.mode == 'DEFAULT' and not is_top(x.type.value) and x.type.value != y.type.value:
                return False
    elif va.elem is not None and vb.elem is not None:
        return same_type(va.elem.obj, vb.elem.obj, seen)
    return True


def shared_maps(world):
    """Every dictionary visible in the module namespaces or used by an open
    type."""
    out = []
    seen = set()
    for mname in world.order:
        m = world.mods[mname]
        for name, v in m._ns.items():
            if isinstance(v, ADict) and id(v) not in seen and v._module == mname:
                seen.add(id(v))
                out.append(('%s.%s' % (mname.split('.')[-1], name), v))
    return out


def registry_effects(world):
    """Registrations commute: no two modules put different types under one
    key, none is removed, and no module reads what another one adds."""
    out = []
    stats = {'maps': 0, 'writes': 0, 'cross-module writes': 0}
    disputed = set()
    for name, d in shared_maps(world):
        stats['maps'] += 1
        bykey = {}
        writers = set()

        def writers_of(key):
            if key is not ALL and not is_unknown(key):
                try:
                    return [by for v, by, loc in bykey.get(schema.plain(key), ())]
                except (NeedsJoin, TypeError):
                    pass
            return writers

        for k, v, by, loc, old in d.writes:
            stats['writes'] += 1
            writers.add(by)
            if by != d._module:
                stats['cross-module writes'] += 1
            if is_unknown(k):
                continue
            try:
                kk = schema.plain(k)
            except NeedsJoin:
                continue
            bykey.setdefault(kk, []).append((v, by, loc))
        for kk, ws in bykey.items():
            first = ws[0]
            for w in ws[1:]:
                if same_type(first[0], w[0]) is False:
                    disputed.add((name, kk))
                    f = Finding(
                        'conflicting-registration', '%s[%s]' % (name, _kk(kk)), w[2],
                        '%s registers %s for it and %s registers %s' % (
                            first[1].split('.')[-1], _tn(first[0]), w[1].split('.')[-1], _tn(w[0])))
                    f.trace = ['the first one at %s:%s' % tuple(first[2])]
                    out.append(f)
        for k, by, loc in d.removals:
            if by != d._module or len(writers) > 1:
                out.append(Finding('removed-registration', '%s[%s]' % (name, _k(k)), loc,
                                   '%s removes it' % by.split('.')[-1]))
        foreign = [w for w in writers if w != d._module]
        if foreign:
            for by, loc, key in d.readers:
                if any(w not in world.closure(by) for w in writers_of(key) if w != by):
                    out.append(Finding('order-dependent-read', '%s in %s' % (name, by.split('.')[-1]), loc,
                                       'reads the registry while modules are still adding to it'))
                    break
    return out, stats, disputed


def _kk(kk):
    from .spec import fmt_value
    return fmt_value(kk)


def _tn(v):
    return v.__name__ if isinstance(v, type) else type(v).__name__


# calls out of the package that touch nothing outside it
EFFECTS_OK = set('sys.getrecursionlimit sys.intern sys.getsizeof sys.getdefaultencoding sys.getfilesystemencoding '
                 'sys.exc_info sys._getframe sys.getrefcount sys.getswitchinterval sys.is_finalizing '
                 're string logging.getLogger logging.NullHandler typing abc enum warnings.deprecated struct datetime '
                 'decimal fractions uuid.UUID hashlib textwrap unicodedata types weakref contextlib dataclasses '
                 'os.path.join os.path.dirname os.path.abspath os.path.basename'.split())


def _harmless(name):
    parts = name.split('.')
    return any('.'.join(parts[:i]) in EFFECTS_OK for i in range(1, len(parts) + 1))


def import_effects(world):
    """Importing a module definitely succeeds and has no effect outside the
    package: no uncaught exception, no cycle through a half-initialised
    module, no call out, no write to another module's classes or objects."""
    out = []
    stats = {'modules': len(world.order), 'imports': 0, 'foreign writes': 0, 'calls out': 0}
    for mname in world.order:
        m = world.mods[mname]
        stats['imports'] += len(m._imports)
        for f in m._faults:
            out.append(Finding('import-fails', '%s' % mname, f.loc, 'importing it raises %s' % f))
    for e in world.events:
        short = (e.module or '?').split('.')[-1]
        if e.kind == 'foreign-set':
            stats['foreign writes'] += 1
            out.append(Finding('foreign-write', '%s -> %s .%s' % (short, e.data['what'], e.data['attr']), e.loc,
                               'importing %s changes %s of %s' % (short, e.data['attr'], e.data['what'])))
        elif e.kind == 'external-call' and not _harmless(e.data['name']):
            stats['calls out'] += 1
            out.append(Finding('call-out', '%s -> %s' % (short, e.data['name']), e.loc,
                               'importing %s calls %s' % (short, e.data['name'])))
        elif e.kind == 'cycle':
            out.append(Finding('import-cycle', '%s -> %s' % (short, e.data['target']), e.loc,
                               'imports %s while it is still being imported' % e.data['target']))
    return out, stats


def _at(v):
    return None if is_unknown(v) else getattr(v, '_loc', None)


def same_registries(a, b, disputed=()):
    """The registries of two worlds that differ in import order."""
    out, n = [], 0
    da, db = dict(shared_maps(a)), dict(shared_maps(b))
    for name in sorted(set(da) & set(db)):
        x, y = {}, {}
        for d, e in ((da[name], x), (db[name], y)):
            for k, v in dict.items(d):
                try:
                    e[schema.plain(k)] = v
                except NeedsJoin:
                    pass
        for k in sorted(set(x) | set(y), key=repr):
            n += 1
            if (k in x) != (k in y):
                v = x.get(k, y.get(k))
                out.append(Finding('order-dependent-entry', '%s[%s]' % (name, _kk(k)), _at(v),
                                   'is there or not depending on the order of the imports'))
            elif (name, k) not in disputed and same_type(x[k], y[k]) is False:
                out.append(Finding('order-dependent-entry', '%s[%s]' % (name, _kk(k)), _at(x[k]),
                                   'is %s or %s depending on the order of the imports' % (_tn(x[k]), _tn(y[k]))))
    return out, n


# ------------------------------------------------------ declarations that do nothing

ATTRIBUTES = set('tagSet subtypeSpec componentType namedValues sizeSpec defaultValue defaultHexValue '
                 'defaultBinValue encoding typeId strictConstraints evalDER'.split())


def _edit(a, b):
    """Are two names one slip apart (case, a leading underscore, one letter)?"""
    a, b = a.strip('_').lower(), b.strip('_').lower()
    if a == b:
        return True
    if abs(len(a) - len(b)) > 1:
        return False
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        cur = [i]
        for j, y in enumerate(b, 1):
            cur.append(min(prev[j] + 1, cur[j - 1] + 1, prev[j - 1] + (x != y)))
        prev = cur
    return prev[-1] <= 1


def _same_decl(a, b):
    """Do two declarations say the same?  None if undecided."""
    if a is b:
        return True
    if is_unknown(a) or is_unknown(b):
        return None
    if isinstance(a, model.AbstractConstraint) and isinstance(b, model.AbstractConstraint):
        x, y = schema.accepts(a), schema.accepts(b)
        return None if is_top(x) or is_top(y) else x == y
    ta = isinstance(a, model.Asn1Type) or isinstance(a, type) and issubclass(a, model.Asn1Type)
    tb = isinstance(b, model.Asn1Type) or isinstance(b, type) and issubclass(b, model.Asn1Type)
    if ta and tb:
        r = same_type(a, b)
        if r:
            x, y = view(a).value, view(b).value
            if is_top(x) or is_top(y):
                return None
            r = x == y
        return r
    if isinstance(a, model.TagSet) and isinstance(b, model.TagSet):
        return True if a == b else False
    if ta != tb:
        return None
    return None if isinstance(a, (model.NamedTypes, model.NamedValues)) else a == b


def effective(world):
    """Every declaration takes effect: none is evaluated and dropped, bound
    over before anything used it, or bound to a name nothing reads."""
    out = []
    stats = {'classes': 0, 'attributes': 0, 'names': 0}
    own = tuple(world.mods[m]._name for m in world.order)
    used = _names_read(world)
    for e in world.events:
        short = (e.module or '?').split('.')[-1]
        if e.kind == 'dropped':
            where = '%s%s' % (short, '.' + e.data['cls'] if e.data.get('cls') else '')
            out.append(Finding('dropped-declaration', '%s: %s' % (where, type(e.data['value']).__name__), e.loc,
                               'this %s is bound to nothing and has no effect' % type(e.data['value']).__name__))
        elif e.kind == 'overwritten' and e.data['name'] in ATTRIBUTES:
            if _same_decl(e.data['old'], e.data['new']) is False or isinstance(
                    e.data['old'], (model.NamedTypes, model.NamedValues)):
                out.append(Finding('overwritten-attribute', '%s.%s.%s' % (short, e.data['cls'], e.data['name']), e.loc,
                                   'replaces what the class body declared before, which has no effect'))
        elif e.kind == 'replaced':
            old, new = schema._part(e.data['old']), schema._part(e.data['new'])
            if old is not None and old != new:
                out.append(Finding('overwritten-component', '%s: %s of %s' % (
                    short, e.data['name'], _objname(world, e.data['obj'])), e.loc,
                    'the value given to it before is lost'))
        elif e.kind == 'rebound' and not e.data['name'].startswith('_'):
            old, new = e.data['old'], e.data['new']
            decl = isinstance(old, model.Asn1Type) or isinstance(old, type) and issubclass(old, model.Asn1Type)
            if decl and e.data['was'][0] != 'import' and _same_decl(old, new) is False:
                f = Finding('rebound-name', '%s.%s' % (short, e.data['name']), e.loc,
                            'replaces an earlier declaration of that name, which nothing used')
                f.trace = ['the earlier one at %s:%s' % tuple(e.data['was'][1] or ('?', '?'))]
                out.append(f)
    for mname in world.order:
        m = world.mods[mname]
        short = mname.split('.')[-1]
        for name, v in list(m._ns.items()):
            stats['names'] += 1
            if not (isinstance(v, type) and issubclass(v, model.Asn1Type)) or v.__dict__.get('_module') != mname:
                continue
            stats['classes'] += 1
            for attr, x in v.__dict__.items():
                if attr.startswith('__') or attr in ('_module', '_loc'):
                    continue
                stats['attributes'] += 1
                if attr in ATTRIBUTES or not isinstance(x, model.DECLARATIONS) or attr in used:
                    continue
                near = [a for a in ATTRIBUTES if _edit(attr, a)]
                if near or isinstance(x, (model.NamedTypes, model.TagSet, model.AbstractConstraint,
                                          model.NamedValues)):
                    out.append(Finding('unknown-attribute', '%s.%s.%s' % (short, name, attr), v._loc,
                                       'no codec reads this attribute%s' % (
                                           '; %s was meant' % sorted(near)[0] if near else '')))
    return out, stats


def _objname(world, obj):
    for mname in world.order:
        for n, v in world.mods[mname]._ns.items():
            if v is obj:
                return n
            vals = getattr(v, '_vals', None)
            if isinstance(vals, dict) and any(x is obj for x in vals.values()):
                return '%s (a component)' % n
    return type(obj).__name__


def _names_read(world):
    import ast
    out = set()
    for mname in world.order:
        for n in ast.walk(world.mods[mname]._tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                out.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                out.add(n.value)
    return out


# ------------------------------------------------------------- OIDs and names

def read_aliases(path):
    alias, differs = set(), {}
    with open(path) as f:
        for line in f:
            line = line.split('#')[0].strip()
            if not line:
                continue
            head, _, rest = line.partition(':')
            words = head.split()
            if words[0] == 'alias':
                alias.add((words[1], words[2], frozenset(rest.split())))
            else:
                differs[words[1]] = set(x.partition('=')[::2] for x in rest.split())
    return alias, differs


def oid_names(world, lib, path):
    """One name, one OID in all modules; one OID, one name in a module."""
    alias, differs = read_aliases(path)
    out = []
    stats = {'oid_names': 0, 'oids': 0}
    byname = {}
    for short, sm in sorted(lib.modules.items()):
        m = world.mods.get('%s.%s' % (world.package, short))
        if m is None:
            continue
        here = {}
        for n in sorted(sm.entries):
            v = m._ns.get(n)
            if n.startswith('_') or not isinstance(v, model.ObjectIdentifier) or not lib_oid(sm.entries[n]) or \
                    m._binds.get(n, ('',))[0] == 'import':
                continue
            try:
                oid = schema.plain(v)
            except NeedsJoin:
                continue
            if not oid:
                continue
            stats['oid_names'] += 1
            here.setdefault(oid, []).append(n)
            byname.setdefault(n.replace('-', '_').lower(), []).append((short, n, oid, m._binds.get(n, (None, None))[1]))
        for oid, ns in sorted(here.items()):
            stats['oids'] += 1
            text = '.'.join(map(str, oid))
            if len(ns) > 1 and not any(a[0] == short and set(ns) <= a[2] for a in alias):
                out.append(Finding('shared-oid', '%s.%s' % (short, ' / '.join(ns)),
                                   m._binds.get(ns[-1], (None, (m._rel, 1)))[1], 'both are %s' % text))
    for key, uses in sorted(byname.items()):
        oids = sorted(set(u[2] for u in uses))
        if len(oids) < 2:
            continue
        allowed = differs.get(uses[0][1], ())
        if all((u[0], '.'.join(map(str, u[2]))) in allowed for u in uses):
            continue
        # blame those that are in the minority
        base = max(oids, key=lambda o: sum(1 for u in uses if u[2] == o))
        for short, n, oid, loc in uses:
            if oid != base:
                other = [u for u in uses if u[2] == base][0]
                out.append(Finding('name-differs', '%s.%s' % (short, n), loc, 'is %s, and %s in %s' % (
                    '.'.join(map(str, oid)), '.'.join(map(str, base)), other[0])))
    return out, stats


def lib_oid(entry):
    return entry.form == 'value' and entry.type.kind == 'OBJECT IDENTIFIER'
