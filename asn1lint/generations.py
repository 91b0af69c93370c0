"""Types and values the package declares once per generation of an RFC
(rfc2459, rfc3280, rfc5280, ...) and that are the same in each.

The table lists them; here the declarations of one line are compared with each
other, code against code."""
from . import model, schema, spec
from .compare import Finding
from .interp import ADict
from .lattice import is_unknown
from .schema import view, is_top


class Undecided(Exception):
    pass


def differ(a, b, full, seen, path):
    """Where two types differ on the wire (or in what they admit, if full):
    (path, text, loc) or None."""
    if is_unknown(a) or is_unknown(b):
        raise Undecided(path)
    if a is b or (id(a), id(b)) in seen:
        return None
    seen.add((id(a), id(b)))
    va, vb = view(a), view(b)

    def pair(what, x, y, show=repr):
        if is_top(x) or is_top(y):
            raise Undecided(path)
        if x != y:
            return (path, '%s %s and %s' % (what, show(x), show(y)), vb.loc or va.loc)
    r = pair('base type', va.kind, vb.kind, str) or pair('tags', va.tags, vb.tags, schema.fmt_tags)
    if r:
        return r
    if full:
        r = pair('constraint', va.accepts(), vb.accepts())
        if r:
            return r
    if va.kind in ('INTEGER', 'ENUMERATED', 'BIT STRING'):
        r = pair('named values', va.names, vb.names)
        if r:
            return r
    if va.kind in ('SEQUENCE', 'SET', 'CHOICE'):
        ca, cb = va.comps, vb.comps
        if is_top(ca) or is_top(cb):
            raise Undecided(path)
        r = pair('components', [(c.name, c.mode) for c in ca], [(c.name, c.mode) for c in cb],
                 lambda cs: '{%s}' % ', '.join(' '.join(filter(None, c)) for c in cs))
        if r:
            return r
        for x, y in zip(ca, cb):
            r = differ(x.type.obj, y.type.obj, full, seen, path + '.' + x.name)
            if r:
                return r
            if x.mode == 'DEFAULT':
                dx, dy = x.type.value, y.type.value
                if is_top(dx) or is_top(dy):
                    raise Undecided(path)
                if dx != dy:
                    return (path + '.' + x.name, 'default %s and %s' % (dx, dy), y.loc)
    elif va.elem is not None and vb.elem is not None:
        return differ(va.elem.obj, vb.elem.obj, full, seen, path + '.*')
    return None


def declared(world):
    """{name: [(module, value)]} of the types and OIDs each module declares."""
    by = {}
    for mn in world.order:
        m = world.mods[mn]
        short = mn.split('.')[-1]
        for n, v in m._ns.items():
            if n.startswith('_') or m._binds.get(n, ('',))[0] == 'import':
                continue
            if isinstance(v, type) and issubclass(v, model.Asn1Type) and '_module' in v.__dict__:
                by.setdefault(n, []).append((short, v))
            elif isinstance(v, model.ObjectIdentifier):
                by.setdefault(n, []).append((short, v))
    return by


def same_value(a, b):
    x, y = schema.value_of(a), schema.value_of(b)
    if is_top(x) or is_top(y):
        raise Undecided('value')
    return spec.same_value(x, y)


def groups(world):
    """The table for a tree: lines 'full|wire|value name: module module ...'."""
    out = []
    for n, l in sorted(declared(world).items()):
        if len(l) < 2:
            continue
        types = [(m, v) for m, v in l if isinstance(v, type)]
        vals = [(m, v) for m, v in l if not isinstance(v, type)]
        done = []
        for level, test in (('full', lambda a, b: a is not b and differ(a, b, True, set(), '') is None),
                            ('wire', lambda a, b: a is not b and differ(a, b, False, set(), '') is None)):
            left = list(types)
            while left:
                m, v = left.pop(0)
                same = [(m2, v2) for m2, v2 in left if test(v, v2)]
                left = [x for x in left if x not in same]
                g = [m] + [x[0] for x in same]
                if len(g) > 1 and not any(set(g) <= set(d) for d in done):
                    done.append(g)
                    out.append((level, n, g))
        left = list(vals)
        while left:
            m, v = left.pop(0)
            same = [(m2, v2) for m2, v2 in left if v is not v2 and same_value(v, v2)]
            left = [x for x in left if x not in same]
            if same:
                out.append(('value', n, [m] + [x[0] for x in same]))
    return out


def read_table(path):
    out = []
    for line in open(path):
        line = line.split('#')[0].strip()
        if not line:
            continue
        head, _, mods = line.partition(':')
        level, name = head.split()
        out.append((level, name, mods.split()))
    return out


def agreement(world, table):
    out, undecided = [], []
    stats = {'families': 0, 'types compared': 0, 'values compared': 0, 'undecided': 0}
    for level, name, mods in table:
        stats['families'] += 1
        decls = []
        for short in mods:
            m = world.mods.get('%s.%s' % (world.package, short))
            if m is None or name not in m._ns:
                out.append(Finding('generation', '%s.%s' % (short, name), (m._rel, 1) if m is not None else None,
                                   'is gone; %s still declare it' % ', '.join(x for x in mods if x != short)))
                continue
            decls.append((short, m, m._ns[name]))
        for short, m, v in decls[1:]:
            s0, m0, v0 = decls[0]
            where = '%s.%s / %s.%s' % (s0, name, short, name)
            loc = m._binds.get(name, (None, (m._rel, 1)))[1]
            try:
                if level == 'value':
                    stats['values compared'] += 1
                    if not same_value(v0, v):
                        out.append(Finding('generation', where, loc, 'differ: %s and %s' % (
                            schema.value_of(v0), schema.value_of(v))))
                    continue
                stats['types compared'] += 1
                r = differ(v0, v, level == 'full', set(), '')
                if r:
                    f = Finding('generation', where, loc, 'differ%s: %s' % (
                        ' at ' + r[0].lstrip('.') if r[0] else '', r[1]))
                    f.trace = ['at %s:%s' % tuple(r[2] or ('?', '?'))]
                    out.append(f)
            except Undecided:
                stats['undecided'] += 1
                undecided.append(where)
    return out, stats
