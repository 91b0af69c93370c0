"""The checks: which findings decide which property."""
import os
import re

from . import behaviour, generations, pemcheck, portability, rules, toolcheck
from .context import Broken, Context, HERE

CHECKS = {}

ASSUMPTIONS = [
    'the summaries of pyasn1 0.5 in asn1lint/model.py describe how its types are declared, derived and decoded',
    'a module body does nothing the interpreter cannot see (what it cannot resolve is counted, not judged)',
]

# rules without an example under examples/: those of the readers and tools have
# their own, the others differ from an armed rule in their subject only
UNARMED = set(('missing-module', 'duplicate-component', 'version-dependent') + pemcheck.SELECTION + pemcheck.PAYLOAD +
              toolcheck.DECODING + toolcheck.ACCOUNT + toolcheck.REQUEST)


class Result(object):
    def __init__(self):
        self.findings = []
        self.coverage = {}
        self.rules = []
        self.unresolved = []
        self.assumptions = []

    def add(self, findings):
        have = set(f.key for f in self.findings)
        for f in findings:
            if f.key not in have:
                have.add(f.key)
                self.findings.append(f)

    def count(self, **kw):
        for k, v in kw.items():
            self.coverage[k] = v


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def module_coverage(ctx, r, w=None):
    w = w or ctx.world()
    r.count(modules_elaborated=len(w.order), statements_elaborated=w.statements,
            calls_evaluated=w.calls, steps_given_up=len(w.unresolved))


def by_reference(ctx, names, counters, what):
    """The findings of the comparison with the reference for some aspects."""
    r = Result()
    c = ctx.comparison()
    r.add([f for f in c.findings if f.rule in names])
    for k in counters:
        r.coverage[k.replace(' ', '_') + '_compared'] = c.counts.get(k, 0)
        if not c.counts.get(k, 0):
            raise Broken('no %s were compared' % k)
    r.coverage['names_compared'] = c.counts.get('names', 0)
    r.coverage['aspects_unresolved'] = len(c.tops)
    r.unresolved = ['%s: %s' % t for t in c.tops]
    r.rules = list(names)
    if ctx.thorough:
        # the same with the modules loaded the other way round, in Python 2.7,
        # and each module on its own
        for version, order in (((3, 12, 3), 'reversed'), ((2, 7, 18), 'sorted')):
            d = ctx.comparison(version, order)
            r.add([f for f in d.findings if f.rule in names])
        n = ctx.memo('alone', lambda: alone(ctx))
        r.add([f for f in n[0] if f.rule in names])
        r.coverage['modules_elaborated_alone'] = n[1]
        r.coverage['worlds'] = 3 + n[1]
    found, _ = ctx.memo('parts', lambda: behaviour.parts(ctx.world(), ctx.api))
    r.add([f for f, aspect in found if aspect in names])
    module_coverage(ctx, r)
    r.coverage['rule'] = what
    return r


def alone(ctx):
    from .compare import Comparer
    out, n = [], 0
    for short in ctx.modules:
        if short not in ctx.lib.modules:
            continue
        w = ctx.alone(short)
        c = Comparer(w, ctx.lib)
        c.run(only=set([short]))
        out.extend(c.findings)
        n += 1
    return out, n


@check('C01')
def structure(ctx):
    return by_reference(
        ctx, ('structure', 'optionality', 'base-type', 'component-type', 'missing-module', 'duplicate-component'),
        ('types', 'nodes', 'components'),
        'every type of every module, resolved, has the base type, the components in order, their types and '
        'optionality, and the element type the reference gives it')


@check('C02')
def tags(ctx):
    r = by_reference(
        ctx, ('tags',), ('tag sets',),
        'the resolved tag set of every type, component, element and registered type equals the reference '
        '(class, number, primitive or constructed, implicit or explicit by its length); tags around an encoding are '
        'constructed, those of primitive types are not')
    f, n = rules.tag_form(ctx.graph())
    r.add(f)
    r.rules.append('tag-form')
    r.coverage['tag_sets_in_graph'] = n
    return r


@check('C03')
def constraints(ctx):
    r = by_reference(
        ctx, ('constraint',), ('constraints',),
        'the set of values each resolved constraint admits (value ranges, sizes, alphabets, in canonical form) '
        'equals the reference; sizes stand on strings and lists, ranges on numbers, alphabets on strings')
    f, n = rules.applicable(ctx.graph())
    r.add(f)
    r.rules.append('inapplicable-constraint')
    r.coverage['constraints_in_graph'] = n
    return r


@check('C04')
def named_values(ctx):
    return by_reference(
        ctx, ('named-values',), ('named values',),
        'the resolved named numbers and bits of every INTEGER, ENUMERATED and BIT STRING equal the reference')


@check('C05')
def defaults(ctx):
    r = by_reference(
        ctx, ('default',), ('defaults',),
        'the resolved default of every DEFAULT component equals the reference, and no mandatory component '
        'carries a value of its own')
    f, s = rules.values(ctx.graph())
    r.add([x for x in f if x.rule == 'default-without-value'])
    r.coverage['default_components_in_graph'] = s['defaults']
    c = ctx.comparison()
    r.add([x for x in c.findings if x.rule == 'optionality' and 'DEFAULT' in x.text])
    r.rules = ['default', 'default-without-value', 'optionality (DEFAULT)']
    return r


@check('C06')
def constants(ctx):
    r = by_reference(
        ctx, ('oid', 'constant'), ('constants',),
        'the resolved value of every OBJECT IDENTIFIER and constant equals the reference')
    c = ctx.comparison()
    gone = [f for f in c.findings if f.rule == 'missing-name' and is_value(ctx, f.where)]
    r.add(gone)
    return r


def is_value(ctx, where):
    m, _, n = where.partition('.')
    sm = ctx.lib.modules.get(m)
    e = sm.entries.get(n) if sm is not None else None
    return e is not None and e.form in ('value', 'python')


@check('C07')
def registrations(ctx):
    r = by_reference(
        ctx, ('registration',), ('registrations', 'registries'),
        'importing each module puts, unconditionally, under each OID the type the reference gives it, in the '
        'registry the reference names')
    f, s, _ = rules.registry_effects(ctx.world())
    r.add([x for x in f if x.rule == 'removed-registration'])
    return r


@check('C08')
def open_types(ctx):
    r = by_reference(
        ctx, ('open-type',), ('open types',),
        'every open field names the governor and uses the registry the reference gives it; the governor is an '
        'earlier component of the same type')
    f, s = rules.open_types(ctx.graph())
    r.add(f)
    r.coverage['open_fields_in_graph'] = s['open fields']
    r.rules += ['governor']
    return r


@check('C09')
def registry_order(ctx):
    r = Result()
    f, s, disputed = rules.registry_effects(ctx.world())
    r.add(f)
    r.rules = ['conflicting-registration', 'removed-registration', 'order-dependent-read', 'order-dependent-entry']
    r.coverage.update(dict((k.replace(' ', '_').replace('-', '_'), v) for k, v in s.items()))
    a, b = ctx.world(), ctx.world(order='reversed')
    d, n = rules.same_registries(a, b, disputed)
    r.add(d)
    r.coverage['entries_compared_between_orders'] = n
    r.coverage['rule'] = ('no two modules register different types under one key, none removes or reads what '
                          'another adds; the registries come out the same in two opposite import orders')
    if s['maps'] < 15 or s['cross-module writes'] < 100:
        raise Broken('only %(maps)d registries with %(cross-module writes)d cross-module writes' % s)
    module_coverage(ctx, r)
    return r


@check('C10')
def agreement(ctx):
    r = Result()
    table = generations.read_table(os.path.join(HERE, 'tables', 'generations.txt'))
    f, s = generations.agreement(ctx.world(), table)
    r.add(f)
    r.rules = ['generation']
    r.coverage.update(dict((k.replace(' ', '_'), v) for k, v in s.items()))
    r.coverage['rule'] = 'declarations of one family, resolved, are compared with each other, node by node'
    if s['types compared'] < 200:
        raise Broken('only %d types compared' % s['types compared'])
    module_coverage(ctx, r)
    return r


@check('C11')
def unambiguous(ctx):
    r = Result()
    f, s = rules.decodability(ctx.graph())
    r.add(f)
    r.rules = ['ambiguous', 'duplicate-component']
    r.coverage.update(s)
    r.coverage['types_in_graph'] = len(ctx.graph().nodes)
    r.coverage['rule'] = ('alternatives of a CHOICE, members of a SET and members of a SEQUENCE that may stand at '
                          'the same place start with distinct tags; component names are distinct')
    module_coverage(ctx, r)
    return r


@check('C12')
def complete(ctx):
    r = Result()
    f, s = rules.completeness(ctx.graph())
    r.add(f)
    r.rules = ['stale-prototype', 'class-as-type']
    r.coverage.update(s)
    r.coverage['rule'] = ('every instance reachable from the package was created after its class was complete, and '
                          'every component type is an instance')
    if ctx.thorough:
        for short in ctx.modules:
            f, s = rules.completeness(rules.Graph(ctx.alone(short)))
            r.add(f)
    g = rules.completeness(ctx.graph(order='reversed'))
    r.add(g[0])
    module_coverage(ctx, r)
    return r


@check('C13')
def imports(ctx):
    r = Result()
    f, s = rules.import_effects(ctx.world())
    r.add(f)
    g, _ = rules.import_effects(ctx.world(order='reversed'))
    r.add(g)
    r.rules = ['import-fails', 'foreign-write', 'call-out', 'import-cycle', 'grammar', 'encoding']
    r.coverage.update(dict((k.replace(' ', '_'), v) for k, v in s.items()))
    for version in ((2, 7, 18), (3, 5, 0)):
        h, _ = rules.import_effects(ctx.world(version))
        r.add(h)
    h, _ = portability.scan(ctx.root, ['pyasn1_modules'], portability.floors(ctx.root))
    r.add([x for x in h if x.rule in ('grammar', 'encoding')])
    n = 0
    for short in ctx.modules:
        for version in ((3, 12, 3), (2, 7, 18)) if ctx.thorough else ((3, 12, 3),):
            h, _ = rules.import_effects(ctx.alone(short, version))
            r.add(h)
            n += 1
    r.coverage['modules_elaborated_alone'] = n
    r.coverage['rule'] = ('no module raises when imported first, last or alone, calls out, changes what another '
                          'module declared, or sees a half-initialised module')
    module_coverage(ctx, r)
    return r


def tools(ctx, kinds, only=None):
    r = Result()
    def example():
        root = os.path.join(HERE, 'examples', 'tools')
        c = Context(root, 'quick')
        return set(f.rule for f in toolcheck.analyse(root, ctx.api, [((3, 12, 3), c.world())], False)[0])
    seen = ctx.memo('tool example', example)
    for kind in kinds:
        if kind not in seen:
            raise Broken('the rule %s does not see its example' % kind)
    if not os.path.isdir(os.path.join(ctx.root, 'tools')):
        raise Broken('no tools under %s' % ctx.root)

    def make():
        bases = [(v, ctx.world(v)) for v in ((3, 12, 3), (2, 7, 18))]
        return toolcheck.analyse(ctx.root, ctx.api, bases, ctx.thorough)
    f, s, r.unresolved = ctx.memo('tools', make)
    r.add([x for x in f if x.rule in kinds and (only is None or x.where in only)])
    r.rules = list(kinds)
    r.coverage.update(s)
    r.coverage['blocks_per_input'] = 4 if ctx.thorough else 3
    r.assumptions = ['asserts are executed (no python -O)',
                     'a message decodes, and re-encodes to itself or not; which of the two is not decided here',
                     'the block readers do what C14 and C15 say']
    return r


@check('C16')
def tool_types(ctx):
    r = tools(ctx, toolcheck.DECODING)
    r.coverage['rule'] = ('on every path of every tool, each block, message and layer is decoded as the type its '
                          'marker, its place or its content type calls for, with the codec of its kind')
    return r


@check('C22')
def tool_account(ctx):
    r = tools(ctx, toolcheck.ACCOUNT)
    r.coverage['rule'] = ('on every path of every tool, what is decoded is printed and compared with its source, a '
                          'mismatch fails, the count is right, all of the input is read, and a wrong command line is '
                          'refused before any of it')
    return r


@check('C24')
def tool_requests(ctx):
    r = tools(ctx, toolcheck.REQUEST + toolcheck.ACCOUNT + toolcheck.DECODING,
              [n for n in toolcheck.TOOLS if 'client' in toolcheck.TOOLS[n]])
    r.coverage['rule'] = ('on every path of the two clients, the message sent has the components its protocol asks '
                          'for, taken from the input, and nothing is reported unless the answer is a success')
    return r


def by_version(ctx, versions):
    """What the readers and the tools do wrong in some Pythons only."""
    found, dark = {}, {}
    for v in versions:
        got = pemcheck.blocks(ctx.root, ctx.api, False, (v,), True)[0] + pemcheck.base64_readers(ctx.root, ctx.api, (v,))[0]
        f, lost = pemcheck.findings(got, None, pemcheck.lines_of(ctx.root))
        g, _, more = toolcheck.analyse(ctx.root, ctx.api, [(v, ctx.world(v))], False)
        found[v] = {}
        for x in f + g:
            found[v].setdefault(x.where, {}).setdefault(x.rule, x)
        dark[v] = set(re.split('[: ]', u)[0] for u in lost + more)
    out = []
    for v in versions:
        for where in sorted(found[v]):
            others = [w for w in versions if where not in found[w] and where not in dark[w]]
            if others:
                x = sorted(found[v][where].items())[0][1]
                out.append(rules.Finding('version-dependent', '%s (Python %d.%d)' % (where, v[0], v[1]), x.loc,
                                         '%s: %s, but not in Python %d.%d' % (x.rule, x.text, others[0][0], others[0][1])))
                out[-1].trace = x.trace
    return out


@check('C17')
def portable(ctx):
    r = Result()
    versions = portability.floors(ctx.root)
    f, s = portability.scan(ctx.root, ['pyasn1_modules', 'tools'], versions)
    r.add(f)
    r.coverage.update(dict((k.replace(' ', '_'), v) for k, v in s.items()))
    if s['files'] < 100 or s['syntax nodes'] < 8000:
        raise Broken('only %d files' % s['files'])
    current = dict((x.key, x) for x in ctx.comparison().findings)
    worlds = [v + (18 if v == (2, 7) else 0,) for v in versions] + [(3, 12, 3, 'elsewhere')]
    for version in worlds:
        here = '%d.%d' % version[:2]
        if len(version) > 3:
            here += ' with -O, on another system, with another pyasn1'
        there = dict((x.key, x) for x in ctx.comparison(version).findings)
        for key in sorted(set(there) ^ set(current)):
            for x in [there.get(key) or current[key]]:
                name = '%s (Python %s)' % (x.where, here)
                r.add([rules.Finding('version-dependent', name, x.loc, '%s: %s%s' % (
                    x.rule, x.text, '' if key in there else ' (but on current versions only)'))])
        f, _ = rules.import_effects(ctx.world(version))
        r.add([x for x in f if x.rule == 'import-fails'])
    if os.path.isdir(os.path.join(ctx.root, 'tools')):
        try:
            r.add(by_version(ctx, [(3, 12, 3), (2, 7, 18), (3, 5, 0)]))
        except (pemcheck.Gone, SyntaxError):
            pass            # C14 to C16 say so
    r.coverage['versions'] = len(versions)
    r.coverage['versions_elaborated'] = len(worlds) + 1
    r.rules = ['grammar', 'encoding', 'builtin', 'stdlib', 'undefined-name', 'version-dependent', 'import-fails']
    r.coverage['rule'] = ('every construct, name, module and encoding of the source is one that each Python setup.py '
                          'claims accepts, and the modules declare the same on each')
    module_coverage(ctx, r)
    return r


@check('C18')
def names(ctx):
    r = by_reference(ctx, ('missing-name', 'missing-module'), ('types', 'objects', 'constants', 'registries'),
                     'every public name of the reference is still bound by its module to an object of its form')
    return r


@check('C19')
def declared_values(ctx):
    r = by_reference(ctx, ('declared-value',), ('objects',),
                     'every object a module offers carries exactly the value the reference gives it')
    return r


@check('C20')
def effective(ctx):
    r = Result()
    f, s = rules.effective(ctx.world())
    r.add(f)
    r.rules = ['dropped-declaration', 'overwritten-attribute', 'overwritten-component', 'unknown-attribute', 'rebound-name']
    r.coverage.update(dict((k.replace(' ', '_'), v) for k, v in s.items()))
    r.coverage['rule'] = ('no ASN.1 declaration is evaluated and dropped, overwritten before it is used, bound to an '
                          'attribute the codecs never read, or shadowed by another one of its name')
    module_coverage(ctx, r)
    return r


@check('C21')
def satisfiable(ctx):
    r = Result()
    f, s = rules.values(ctx.graph())
    r.add(f)
    r.rules = ['empty-constraint', 'value-outside-type', 'default-without-value', 'optional-alternative']
    r.coverage.update(s)
    r.coverage['types_in_graph'] = len(ctx.graph().nodes)
    r.coverage['rule'] = ('no constraint is empty, and every declared value and default is one its type admits')
    module_coverage(ctx, r)
    return r


def readers(ctx, kinds, base64):
    r = Result()
    def example():
        root = os.path.join(HERE, 'examples', 'reader')
        found = pemcheck.blocks(root, ctx.api, False)[0] + pemcheck.base64_readers(root, ctx.api)[0]
        return set(f.rule for f in pemcheck.findings(found, pemcheck.SELECTION + pemcheck.PAYLOAD,
                                                     pemcheck.lines_of(root))[0])
    seen = ctx.memo('pem example', example)
    for kind in ('stops-early', 'wrong-extent') if kinds is pemcheck.SELECTION else ('wrong-extent', 'in-pieces'):
        if kind not in seen:
            raise Broken('the rule %s does not see its example' % kind)
    try:
        got, stats = ctx.memo('pem', lambda: pemcheck.blocks(ctx.root, ctx.api, ctx.thorough))
        if base64:
            more, n = pemcheck.base64_readers(ctx.root, ctx.api)
            got = got + more
            stats = dict(stats, **n)
    except pemcheck.Gone as e:
        r.add([pemcheck.Finding('missing-name', 'pem.%s' % e, ('pyasn1_modules/pem.py', 1), 'is gone')])
        r.coverage['rule'] = 'the readers are there'
        return r
    except SyntaxError as e:
        raise Broken('pem.py does not parse: %s' % e)
    f, r.unresolved = pemcheck.findings(got, kinds, pemcheck.lines_of(ctx.root))
    r.add(f)
    r.rules = list(kinds)
    r.coverage.update(stats)
    r.coverage['readers'] = len(set(name for name, _, _, _, _ in got))
    r.coverage['paths_unresolved'] = len(r.unresolved)
    r.assumptions = ['the marker texts given to one call are distinct, and carry no surrounding whitespace',
                     'base64.b64decode is the base64 decoding of a text, and ignores whitespace in it']
    return r


@check('C14')
def selection(ctx):
    r = readers(ctx, pemcheck.SELECTION, False)
    r.coverage['rule'] = ('every abstract state of the reader, over lines that are payload, blank or a marker, agrees '
                          'with the reference automaton on the block selected and on where reading stops')
    return r


@check('C15')
def payload(ctx):
    r = readers(ctx, pemcheck.PAYLOAD, True)
    r.coverage['rule'] = ('on every path the substrate is the base64 decoding of exactly the lines of the block, in '
                          'order, as bytes; empty without a complete block')
    return r


@check('C25')
def plain_behaviour(ctx):
    r = Result()
    f, s = behaviour.behaviour(ctx.world(), ctx.graph(), ctx.api)
    r.add(f)
    r.rules = ['overridden', 'construction']
    r.coverage.update(s)
    r.coverage['rule'] = ('no class replaces a method or a behaviour attribute pyasn1 gives it (except to pass all '
                          'arguments on), every class can be made, cloned and subtyped as pyasn1 does, no instance has '
                          'optional components from the start, every registry is a plain map')
    module_coverage(ctx, r)
    return r


@check('C23')
def oid_names(ctx):
    r = Result()
    f, s = rules.oid_names(ctx.world(), ctx.lib, os.path.join(HERE, 'tables', 'oid_aliases.txt'))
    r.add(f)
    r.rules = ['shared-oid', 'name-differs']
    r.coverage.update(s)
    r.coverage['rule'] = ('every name of an object identifier stands for one OID in all modules, and within a module '
                          'an OID has one name, but for the aliases of the RFCs')
    if s['oid_names'] < 1000:
        raise Broken('only %d names of object identifiers' % s['oid_names'])
    module_coverage(ctx, r)
    return r
