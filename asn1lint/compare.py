"""Compares the resolved schema of /repo with the reference, node by node."""
from . import model, schema
from .interp import ADict, Func, Mod
from .lattice import is_unknown, NeedsJoin
from .schema import view, is_top, TypeView
from .spec import same_value, fmt_value, SpecType


class Finding(object):
    """A violation: what is wrong, at which construct."""

    def __init__(self, rule, where, loc, text, aspects=()):
        self.rule = rule            # aspect
        self.where = where          # the construct, without line numbers
        self.loc = loc              # (path, line)
        self.text = text            # no line numbers either
        self.trace = []

    @property
    def key(self):
        return ' '.join(('%s %s: %s' % (self.rule, self.where, self.text)).split())

    def __str__(self):
        loc = '%s:%s' % self.loc if self.loc else '?'
        return '%s: %s: %s: %s' % (loc, self.rule, self.where, self.text)


KIND_EQUIV = {}


class Comparer(object):
    """Compares one world with the library."""

    def __init__(self, world, lib):
        self.world, self.lib = world, lib
        self.findings = []
        self.seen = set()
        self.reported = set()
        self.counts = {}
        self.tops = []
        self.pkg = world.package

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def report(self, rule, where, loc, text):
        k = (rule, where)
        if k in self.reported:
            return
        self.reported.add(k)
        self.findings.append(Finding(rule, where, loc, text))

    def top(self, where, what):
        self.tops.append((where, what))
        self.count('unresolved')

    # ------------------------------------------------------------- look-ups

    def mod(self, short):
        return self.world.mods.get('%s.%s' % (self.pkg, short))

    def named(self, ref):
        m = self.mod(ref[0])
        return None if m is None else m._ns.get(ref[1])

    # --------------------------------------------------------------- modules

    def run(self, only=None):
        for short in sorted(self.lib.modules):
            if only is not None and short not in only:
                continue
            self.module(self.lib.modules[short])
        return self.findings

    def module(self, sm):
        m = self.mod(sm.name)
        if m is None:
            self.report('missing-module', sm.name, None, 'the module is gone')
            return
        rel = m._rel
        for name in sm.order:
            e = sm.entries[name]
            where = '%s.%s' % (sm.name, name)
            self.count('names')
            if name not in m._ns:
                self.report('missing-name', where, (rel, 1),
                            '%s no longer offers %s' % (sm.name, name))
                continue
            v = m._ns[name]
            loc = m._binds.get(name, (None, (rel, 1)))[1]
            if is_unknown(v):
                self.top(where, 'value')
                continue
            try:
                self.entry(e, v, where, loc)
            except NeedsJoin:
                self.top(where, 'an aspect')
        for name, line in sm.registries.items():
            self.count('registries')
            where = '%s.%s' % (sm.name, name)
            if name not in m._ns:
                self.report('missing-name', where, (rel, 1), 'the registry is gone')
            elif not isinstance(m._ns[name], dict) and not is_unknown(m._ns[name]):
                self.report('missing-name', where, (rel, 1), 'is not a registry')
        for reg, key, ty, line in sm.registers:
            self.registration(sm, m, reg, key, ty)

    def entry(self, e, v, where, loc):
        if e.form == 'python':
            self.count('constants')
            try:
                val = schema.plain(v) if not isinstance(v, (int, float, str, bytes, tuple, list)) else v
            except NeedsJoin:
                return self.top(where, 'value')
            if not same_value(val, e.value):
                self.report('constant', where, loc, 'is %s, the reference has %s' % (_short(val), fmt_value(e.value)))
            return
        if e.form == 'class':
            if not isinstance(v, type) or not issubclass(v, model.Asn1Type):
                self.report('base-type', where, loc, 'is not an ASN.1 type class')
                return
            self.count('types')
            self.type(view(v), e.type, where, loc, top=True)
            val, sval = view(v).value, e.type.value
            if is_top(val):
                self.top(where, 'class default')
            elif not same_value(val, sval):
                self.report('default', where, loc, 'its instances carry %s, the reference has %s' % (
                    _short(val), fmt_value(sval)))
            return
        if not isinstance(v, model.Asn1Type):
            if e.form == 'value' and isinstance(v, (int, float, str, bytes, tuple)):
                self.report('base-type', where, loc, 'is a plain Python value, not an ASN.1 %s' % e.type.kind)
            else:
                self.report('base-type', where, loc, 'is not an ASN.1 object')
            return
        self.count('objects')
        self.type(view(v), e.type, where, loc)
        val = view(v).value
        if is_top(val):
            return self.top(where, 'value')
        if e.form == 'value':
            self.count('constants')
            if not same_value(val, e.value):
                rule = 'oid' if e.type.kind == 'OBJECT IDENTIFIER' else \
                    'declared-value' if isinstance(v, model.ConstructedAsn1Type) else 'constant'
                self.report(rule, where, loc, 'is %s, the reference has %s' % (_short(val), fmt_value(e.value)))
        elif val is not None and e.type.value is None:
            self.report('declared-value', where, loc, 'carries the value %s, the reference has none' % _short(val))

    # ----------------------------------------------------------------- types

    def type(self, cv, st, where, loc, top=False):
        """cv: code TypeView, st: SpecType."""
        loc = cv.loc or loc
        obj = cv.obj
        if is_unknown(obj):
            return self.top(where, 'type')
        if not (isinstance(obj, model.Asn1Type) or isinstance(obj, type) and issubclass(obj, model.Asn1Type)):
            self.report('base-type', where, loc, 'is not an ASN.1 type: %r' % (obj,))
            return
        ref = st.pure_ref
        if ref is not None:
            target = self.named(ref)
            entry = self.lib.modules[ref[0]].entries.get(ref[1])
            if isinstance(target, type) and target is cv.cls and cv.is_pristine() and \
                    (not top or ref != self._own(where)):
                self.count('references')
                return
        key = (id(obj), id(st))
        if key in self.seen:
            return
        self.seen.add(key)
        self.count('nodes')
        kind, skind = cv.kind, st.kind
        if is_top(kind) or kind is None:
            if kind is None:
                self.report('base-type', where, loc, 'has no ASN.1 base type, the reference has %s' % skind)
            else:
                self.top(where, 'base type')
            return
        if kind != skind:
            self.report('base-type', where, loc, 'is %s, the reference has %s' % (kind, skind))
        tags, stags = cv.tags, st.tags
        self.count('tag sets')
        if is_top(tags):
            self.top(where, 'tags')
        elif tags != stags:
            self.report('tags', where, loc, 'is tagged %s, the reference has %s' % (
                schema.fmt_tags(tags), schema.fmt_tags(stags)))
        a, sa = cv.accepts(), st.accepts()
        self.count('constraints')
        if is_top(a):
            self.top(where, 'constraint')
        elif a != sa:
            self.report('constraint', where, loc, 'admits %r, the reference has %r' % (a, sa))
        if skind in ('INTEGER', 'ENUMERATED', 'BIT STRING') or st.names:
            n, sn = cv.names, st.names
            self.count('named values', len(sn))
            if is_top(n):
                self.top(where, 'named values')
            elif n != sn:
                diff = ['%s(%s)' % (x, n[x]) for x in n if sn.get(x) != n[x]]
                sdiff = ['%s(%s)' % (x, sn[x]) for x in sn if n.get(x) != sn[x]]
                self.report('named-values', where, loc, 'names %s where the reference has %s' % (
                    ', '.join(diff) or 'nothing', ', '.join(sdiff) or 'nothing'))
        if skind in ('SEQUENCE', 'SET', 'CHOICE') and kind in ('SEQUENCE', 'SET', 'CHOICE'):
            self.components(cv, st, where, loc)
        elif skind in ('SEQUENCE OF', 'SET OF') and kind in ('SEQUENCE OF', 'SET OF'):
            e, se = cv.elem, st.elem
            if e is None or se is None:
                if (e is None) != (se is None):
                    self.report('structure', where, loc, 'has %s element type, the reference has %s' % (
                        'no' if e is None else 'an', 'none' if se is None else 'one'))
            else:
                if isinstance(e.obj, type):
                    self.report('structure', where, loc, 'its element type is a class, not an instance')
                self.substituted(e, se, where + '.*', e.loc or loc)
                self.type(e, se, where + '.*', e.loc or loc)
                val = e.value
                if is_top(val):
                    self.top(where + '.*', 'value')
                elif not isinstance(e.obj, type) and not same_value(val, se.value):
                    self.report('default', where + '.*', loc, 'its elements carry the value %s, the reference has %s' % (
                        _short(val), 'none' if se.value is None else fmt_value(se.value)))

    def _own(self, where):
        m, _, n = where.partition('.')
        return (m, n)

    def components(self, cv, st, where, loc):
        comps, scomps = cv.comps, st.comps
        if is_top(comps):
            return self.top(where, 'components')
        names = [c.name for c in comps]
        snames = [c.name for c in scomps]
        self.count('components', len(scomps))
        if names != snames:
            missing = [n for n in snames if n not in names]
            extra = [n for n in names if n not in snames]
            if not missing and not extra:
                if len(names) != len(snames):
                    text = 'component names repeat'
                else:
                    i = [a == b for a, b in zip(names, snames)].index(False)
                    text = 'component order differs at position %d: %s, the reference has %s' % (i, names[i], snames[i])
            else:
                text = '; '.join(filter(None, [
                    'lacks %s' % ', '.join(map(str, missing)) if missing else '',
                    'has %s, unknown to the reference' % ', '.join(map(str, extra)) if extra else '']))
                if missing and not comps:
                    text += ' (captured before its components were assigned?)'
            self.report('structure', where, loc, text)
            by = dict((c.name, c) for c in comps)
            pairs = [(by[s.name], s) for s in scomps if s.name in by]
            if len(missing) == len(extra) and len(names) == len(snames):
                pairs = list(zip(comps, scomps))
        else:
            pairs = list(zip(comps, scomps))
        for c, s in pairs:
            w = '%s.%s' % (where, s.name)
            cloc = c.loc or loc
            if c.mode != s.mode:
                def word(m):
                    return m or 'mandatory'
                self.report('optionality', w, cloc, 'is %s, the reference has %s' % (word(c.mode), word(s.mode)))
            if isinstance(c.type.obj, type):
                self.report('structure', w, cloc, 'its type is a class, not an instance')
            self.substituted(c.type, s.type, w, cloc)
            self.type(c.type, s.type, w, cloc)
            if s.mode == 'DEFAULT' or c.mode == 'DEFAULT' or s.type.value is not None:
                self.count('defaults')
                val, sval = c.type.value, s.type.value
                if is_top(val):
                    self.top(w, 'default')
                elif not same_value(val, sval):
                    self.report('default', w, cloc, 'has default %s, the reference has %s' % (_short(val), fmt_value(sval)))
            elif c.mode != 'OPTIONAL' and s.mode == '' and not isinstance(c.type.obj, type):
                val = c.type.value
                if is_top(val):
                    self.top(w, 'value')
                elif val is not None:
                    self.report('default', w, cloc, 'carries the value %s, the reference has none' % _short(val))
            if s.governor is not None or c.governor is not None:
                self.count('open types')
                self.open_type(c, s, w, cloc)

    def substituted(self, cv, st, where, loc):
        """Another declared type stands here, and it is not equivalent."""
        if not isinstance(cv.obj, model.Asn1Type):
            return
        want = self.named(st.ref) if st.ref is not None else None
        cls = cv.cls
        if want is not None:
            if not isinstance(want, type) or issubclass(cls, want):
                return
        elif '_module' not in cls.__dict__:
            return
        sub = Comparer(self.world, self.lib)
        sub.type(cv, st, where, loc)
        if sub.findings:
            f = sub.findings[0]
            self.report('component-type', where, loc, 'is %s, the reference has %s: %s: %s' % (
                cls.__name__, st.ref[1] if st.ref else st.kind, f.rule, f.text))

    def open_type(self, c, s, w, loc):
        if s.governor is None:
            self.report('open-type', w, loc, 'is an open type governed by %s; the reference has none' % c.governor)
            return
        if c.governor is None:
            self.report('open-type', w, loc, 'is not resolved; the reference resolves it by %s in %s.%s' % (
                (s.governor,) + s.registry))
            return
        if is_top(c.governor):
            self.top(w, 'governor')
        elif c.governor != s.governor:
            self.report('open-type', w, loc, 'is governed by %s, the reference has %s' % (c.governor, s.governor))
        if is_top(c.registry):
            self.top(w, 'registry')
            return
        want = self.named(s.registry)
        if want is None or is_unknown(want):
            self.top(w, 'registry')
        elif c.registry is not want:
            self.report('open-type', w, loc, 'is resolved through %s, the reference has %s.%s' % (
                (self.registry_name(c.registry),) + s.registry))

    def registry_name(self, d):
        for n in self.world.order:
            m = self.world.mods[n]
            for k, v in m._ns.items():
                if v is d and m._binds.get(k, ('',))[0] != 'import':
                    return '%s.%s' % (n.split('.')[-1], k)
        return 'a map of its own'

    # ---------------------------------------------------------- registrations

    def registration(self, sm, m, reg, key, ty):
        self.count('registrations')
        where = '%s: %s.%s[%s]' % ((sm.name,) + reg + (fmt_value(key),))
        d = self.named(reg)
        if d is None:
            self.report('registration', where, (m._rel, 1), 'the registry is gone')
            return
        if is_unknown(d) or not isinstance(d, ADict):
            self.top(where, 'registry')
            return
        hits = []
        vague = False
        closure = self.world.closure(m._name)
        for k, v, by, loc, old in d.writes:
            if is_unknown(k):
                vague = True
                continue
            if by not in closure:
                continue
            try:
                if same_value(schema.plain(k), key):
                    hits.append((k, v, loc))
            except NeedsJoin:
                vague = True
        if not hits:
            if vague:
                self.top(where, 'entries')
            else:
                self.report('registration', where, (m._rel, 1),
                            'importing %s does not register the type for this key' % sm.name)
            return
        if hits[-1][0] in d.maybe:
            self.report('registration', where, hits[-1][2], 'is only registered conditionally')
        k, v, loc = hits[-1]
        if is_unknown(v):
            return self.top(where, 'type')
        if isinstance(v, type):
            self.report('registration', where, loc, 'registers a class, not an instance')
        if not (isinstance(v, model.Asn1Type) or isinstance(v, type) and issubclass(v, model.Asn1Type)):
            self.report('registration', where, loc, 'registers %r, not an ASN.1 type' % (v,))
            return
        before = len(self.findings)
        sub = Comparer(self.world, self.lib)
        sub.seen = set()
        sub.type(view(v), ty, where, loc)
        if sub.findings:
            f = sub.findings[0]
            self.report('registration', where, loc, 'registers another type: %s: %s' % (f.rule, f.text))
        self.tops.extend(sub.tops)


def _short(v):
    s = fmt_value(v)
    return s if len(s) < 120 else s[:117] + '...'
