"""Writes the schema of the current tree in the notation of spec.py.

Used once, to draft the reference that was then reviewed (see DESIGN.md), and
when a module is added.  No check calls it.
"""
import os
import re

from . import model, schema
from .interp import ADict, Func, Mod
from .lattice import is_unknown
from .schema import view, is_top, Accepts, Ints, BUILTIN_KINDS
from .spec import fmt_value, quote

NAME = re.compile(r'^[A-Za-z_][A-Za-z0-9_-]*$')


class Gen(object):
    def __init__(self, world):
        self.world = world
        self.where = {}      # id(class) -> (module, name)
        self.notes = []
        self.oids = {}
        for mname in world.order:
            m = world.mods[mname]
            short = mname.split('.')[-1]
            for name, (kind, loc) in m._binds.items():
                v = m._ns.get(name)
                if isinstance(v, type) and issubclass(v, model.Asn1Type) and '_module' in v.__dict__:
                    home = v.__dict__['_module']
                    score = (home != mname, name.startswith('_'), name != v.__name__, kind == 'import')
                    old = self.where.get(id(v))
                    if old is None or score < old[0]:
                        self.where[id(v)] = (score, short, name)
                elif isinstance(v, ADict) and kind != 'import':
                    score = (v._module != mname, name.startswith('_'))
                    old = self.where.get(id(v))
                    if old is None or score < old[0]:
                        self.where[id(v)] = (score, short, name)
                elif isinstance(v, model.ObjectIdentifier) and v.isValue and kind != 'import':
                    self.oids.setdefault(tuple(v), '%s.%s' % (short, name))

    def ref(self, obj):
        w = self.where.get(id(obj))
        if w is None or w[2].startswith('_'):
            return None
        return w[1] + '.' + w[2] if w[1] != self.short else w[2]

    # ---- types
    def accepts_text(self, a):
        if is_top(a):
            self.notes.append('unresolved constraint')
            return '(?)'
        return self.acc(a, top=True)

    def acc(self, a, top=False):
        parts = []
        d = a.dims
        if 'value' in d:
            v = d['value']
            if isinstance(v, Ints):
                parts.append(repr(v))
            else:
                parts.append(' | '.join(sorted(fmt_value(x) for x in v)))
        if 'size' in d:
            parts.append('SIZE (%r)' % d['size'])
        if 'from' in d:
            parts.append('FROM %s' % quote(''.join(sorted(d['from']))))
        for o in sorted(d.get('other', ()), key=repr):
            parts.append(self.other(o))
        if top:
            return ' '.join('(%s)' % p for p in parts)
        return ' ^ '.join('(%s)' % p if ' | ' in p and len(parts) > 1 else p for p in parts)

    def other(self, o):
        if isinstance(o, str):
            return o
        if o[0] == 'or':
            return ' | '.join(sorted('(%s)' % self.acc(x) for x in o[1]))
        if o[0] == 'with':
            return 'WITH COMPONENTS { %s }' % ', '.join('%s %s' % (n, self.acc(x)) for n, x in sorted(o[1], key=repr))
        self.notes.append('other constraint %r' % (o,))
        return '?'

    def tag_text(self, ops):
        out = []
        for op, c, n, f in reversed(ops):
            cl = {0x80: '', 0x40: 'APPLICATION ', 0xC0: 'PRIVATE ', 0: 'UNIVERSAL '}[c]
            out.append('[%s%d]%s %s ' % (cl, n, '' if f else ' PRIMITIVE', op))
        return ''.join(out)

    def tag_ops(self, base, have, kind):
        """Ops turning base tags into have, or None."""
        if base == have:
            return []
        n = len(base)
        if have[:n] == base:
            if all(f for c, t, f in have[n:]):
                if n == 0 and kind not in ('CHOICE', 'ANY'):
                    return None
                return [('EXPLICIT', c, t, True) for c, t, f in have[n:]]
        if n and have[:n - 1] == base[:-1] and len(have) >= n:
            if have[n - 1][2] == base[n - 1][2] and all(f for c, t, f in have[n:]):
                c, t, f = have[n - 1]
                return [('IMPLICIT', c, t, True)] + [('EXPLICIT', c, t, True) for c, t, f in have[n:]]
        if n == 0 and have:
            return [('IMPLICIT',) + have[0]] + [('EXPLICIT', c, t, True) for c, t, f in have[1:]]
        return None

    def type_text(self, obj, indent='', define=None):
        """define: the class being defined (do not refer to it)."""
        if is_unknown(obj):
            self.notes.append('unknown type')
            return '?'
        v = view(obj)
        cls = v.cls
        if isinstance(obj, type) and define is None and '_module' not in cls.__dict__:
            return cls.kind
        if isinstance(obj, type) and define is None:
            r = self.ref(obj)
            if r:
                return r
        candidates = []
        if define is None:
            candidates.append(cls)
        for b in cls.__mro__[1:] if define is not None else cls.__mro__[1:]:
            if isinstance(b, type) and issubclass(b, model.Asn1Type) and getattr(b, 'kind', None):
                candidates.append(b)
        for b in candidates:
            t = self.try_base(v, b, indent)
            if t is not None:
                return t
        self.notes.append('cannot express %r' % (obj,))
        return '?'

    def try_base(self, v, b, indent):
        builtin = '_module' not in b.__dict__
        if builtin:
            if b.kind != v.kind or BUILTIN_KINDS.get(b.kind) is None:
                return None
            b = BUILTIN_KINDS[b.kind]
        else:
            r = self.ref(b)
            if r is None:
                return None
        bv = view(b)
        ops = self.tag_ops(bv.tags, v.tags, v.kind)
        if ops is None:
            if not builtin:
                return None
            self.notes.append('odd tags %r' % (v.tags,))
            return None
        head = self.tag_text(ops)
        a, ba = v.accepts(), bv.accepts()
        ctext = ''
        if is_top(a) or is_top(ba):
            self.notes.append('unresolved constraint')
        elif a != ba:
            extra = Accepts(dict((k, x) for k, x in a.dims.items() if ba.dims.get(k) != x))
            if (ba & extra) == a and a.dims:
                ctext = ' ' + self.acc(extra, True)
            else:
                ctext = ' (ONLY %s)' % self.acc(a, True)
        names = ''
        if v.names != bv.names:
            if not builtin:
                names = ' WITH NAMES'
            names += ' { %s }' % ', '.join('%s(%s)' % (n if NAME.match(n) else quote(n), fmt_value(x)) for n, x in v.names.items())
        if builtin:
            if v.kind in ('SEQUENCE', 'SET', 'CHOICE'):
                body = v.kind + ' ' + self.comps_text(v, indent)
                return head + body + names + ctext
            if v.kind in ('SEQUENCE OF', 'SET OF'):
                e = v.elem
                et = 'NOTHING' if e is None else self.comp_type(e, indent)
                return head + v.kind[:-3] + ctext + ' OF ' + et
            return head + v.kind + names + ctext
        # a class of the package: its components must be the same object
        if v.kind in ('SEQUENCE', 'SET', 'CHOICE', 'SEQUENCE OF', 'SET OF'):
            if v._attr('componentType') is not bv._attr('componentType'):
                return None
        return head + r + names + ctext

    def comp_type(self, e, indent):
        t = self.type_text(e.obj, indent)
        return t

    def comps_text(self, v, indent):
        comps = v.comps
        if is_top(comps):
            self.notes.append('unresolved components')
            return '{ ? }'
        if not comps:
            return '{ }'
        lines = []
        ind = indent + '    '
        for c in comps:
            name = c.name if NAME.match(c.name) else quote(c.name)
            t = self.type_text(c.type.obj, ind)
            if isinstance(c.type.obj, type):
                self.notes.append('component %s is a class' % c.name)
            suffix = ''
            if c.governor is not None:
                reg = self.ref(c.registry)
                if reg is None:
                    self.notes.append('nameless registry at %s' % c.name)
                suffix += ' OPEN BY %s IN %s' % (c.governor, reg)
            val = None if isinstance(c.type.obj, type) else c.type.value
            if c.mode == 'OPTIONAL':
                suffix += ' OPTIONAL'
                if val is not None and val != view(c.type.cls).value:
                    self.notes.append('optional with value %s' % c.name)
            elif c.mode == 'DEFAULT':
                suffix += ' DEFAULT ' + self.val_text(val, c.type.obj)
            elif val is not None and val != view(c.type.cls).value:
                suffix += ' VALUED ' + self.val_text(val, c.type.obj)
            lines.append('%s%s %s%s' % (ind, name, t, suffix))
        return '{\n' + ',\n'.join(lines) + '\n' + indent + '}'

    def val_text(self, val, obj):
        if is_top(val):
            self.notes.append('unresolved value')
            return '?'
        if isinstance(val, tuple) and val and val[0] == 'der':
            return self.der_text(val, obj)
        if isinstance(val, tuple) and val and val[0] in ('seq',) and 'der' in repr(val):
            items = []
            for n, x in val[1]:
                sub = obj[n] if n in list(obj.componentType) else None
                items.append('%s %s' % (n, self.val_text(x, sub)))
            return '{ %s }' % ', '.join(items)
        return fmt_value(val)

    def der_text(self, val, obj):
        inner = obj._value.value
        return 'DER %s %s' % (self.type_text(inner), fmt_value(val[2]) if val[2] is not None else 'NULL')

    # ---- modules
    def module_text(self, mname):
        world = self.world
        m = world.mods[mname]
        self.short = short = mname.split('.')[-1]
        out = ['%s DEFINITIONS ::= BEGIN' % short, '']
        regs = []
        for name, (kind, loc) in m._binds.items():
            if kind == 'import' or name.startswith('_'):
                continue
            v = m._ns.get(name)
            before = len(self.notes)
            if isinstance(v, ADict):
                regs.append(name)
                continue
            line = None
            if isinstance(v, type) and issubclass(v, model.Asn1Type):
                home = self.where.get(id(v))
                if '_module' not in v.__dict__:
                    line = '%s ::= %s' % (name, v.kind)
                elif home and (home[1], home[2]) != (short, name):
                    line = '%s ::= %s' % (name, self.ref(v))
                else:
                    line = '%s ::= %s' % (name, self.type_text(v, '', define=v))
                    dv = view(v).value
                    if dv is not None:
                        line += ' VALUED ' + fmt_value(dv)
            elif isinstance(v, model.Asn1Type):
                val = view(v).value
                if val is None:
                    line = '%s : %s' % (name, self.type_text(v))
                else:
                    line = '%s %s ::= %s' % (name, self.type_text(v), self.val_text(val, v))
            elif isinstance(v, (int, float, str, bytes)):
                line = '%s PYTHON ::= %s' % (name, fmt_value(v))
            elif isinstance(v, (Func, Mod)):
                pass
            else:
                self.notes.append('skipped %r' % (v,))
            for n in self.notes[before:]:
                print('note: %s.%s: %s' % (short, name, n))
            if line:
                out.append(line)
                if '\n' in line:
                    out.append('')
        for name in regs:
            v = m._ns[name]
            if (self.where[id(v)][1], self.where[id(v)][2]) == (short, name) and v._module == mname:
                out.append('REGISTRY %s' % name)
        # registrations by this module, into public maps
        groups = {}
        for d in world.dicts:
            w = self.where.get(id(d))
            if w is None or w[2].startswith('_'):
                continue
            for key, value, mod, loc, old in d.writes:
                if mod == mname:
                    groups.setdefault(self.ref(d), []).append((key, value))
        for reg, entries in groups.items():
            out.append('')
            out.append('REGISTER %s {' % reg)
            rows = []
            for k, v in entries:
                before = len(self.notes)
                kt = fmt_value(schema.plain(k))
                vt = self.type_text(v) if isinstance(v, model.Asn1Type) else '?%r' % (v,)
                if isinstance(v, model.Asn1Type) and view(v).value is not None and view(v).value != view(v).cls and \
                        view(v).value != view(view(v).cls).value:
                    self.notes.append('registered with value %s' % kt)
                nm = self.oids.get(schema.plain(k))
                for n in self.notes[before:]:
                    print('note: %s REGISTER %s: %s' % (short, reg, n))
                rows.append('    %s %s%%s%s' % (kt, vt, '  -- ' + nm if nm else ''))
            for i, r in enumerate(rows):
                out.append(r % (',' if i < len(rows) - 1 else ''))
            out.append('}')
        out.append('')
        out.append('END')
        return '\n'.join(out) + '\n'


def write(world, directory):
    g = Gen(world)
    if not os.path.isdir(directory):
        os.makedirs(directory)
    for mname in world.order:
        if '.rfc' not in mname:
            continue
        text = g.module_text(mname)
        with open(os.path.join(directory, mname.split('.')[-1] + '.asn1'), 'w') as f:
            f.write(text)
