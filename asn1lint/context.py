"""What one run analyses: the source tree, elaborated on demand."""
import glob
import json
import os

from .compare import Comparer
from .interp import World
from .rules import Graph
from . import behaviour, generations, portability, rules
from .spec import Library

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """The analysis has nothing to say: an anchor is gone or too much of the
    source is beyond the interpreter."""


class Context(object):
    def __init__(self, root, tier, seed=1):
        self.root, self.tier, self.seed = root, tier, seed
        self.thorough = tier == 'thorough'
        with open(os.path.join(HERE, 'asn1lint', 'pyasn1_api.json')) as f:
            self.api = dict((k, set(v)) for k, v in json.load(f).items())
        self._worlds = {}
        self._cache = {}

    @property
    def modules(self):
        if 'modules' not in self._cache:
            d = os.path.join(self.root, 'pyasn1_modules')
            if not os.path.isdir(d):
                raise Broken('no package pyasn1_modules under %s' % self.root)
            names = sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(d, '*.py')))
            self._cache['modules'] = [n for n in names if n != '__init__']
        return self._cache['modules']

    def new_world(self, version=(3, 12, 3)):
        return World(self.root, version=version, api=self.api)

    def world(self, version=(3, 12, 3), order='sorted'):
        key = (version, order)
        if key not in self._worlds:
            w = self.new_world(version)
            names = list(self.modules)
            if order == 'reversed':
                names.reverse()
            for n in names:
                try:
                    w.load('pyasn1_modules.' + n)
                except SyntaxError as e:
                    raise Broken('%s does not parse: %s' % (n, e))
            self._worlds[key] = w
        return self._worlds[key]

    def alone(self, name, version=(3, 12, 3)):
        w = self.new_world(version)
        w.load('pyasn1_modules.' + name)
        return w

    def memo(self, key, make):
        if key not in self._cache:
            self._cache[key] = make()
        return self._cache[key]

    @property
    def lib(self):
        return self.memo('lib', lambda: Library(os.path.join(HERE, 'spec')))

    def armed(self, wanted):
        """Every rule must find its example before it may acquit anything."""
        seen = self.memo('armed', lambda: examples(os.path.join(HERE, 'examples')))
        for rule in wanted:
            if rule.split(' ')[0] not in seen:
                raise Broken('the rule %s does not see its example' % rule)
        return len(wanted)

    def comparison(self, version=(3, 12, 3), order='sorted'):
        def make():
            c = Comparer(self.world(version, order), self.lib)
            c.run()
            n = c.counts.get('names', 0)
            if n < 3000:
                raise Broken('only %d names of the reference were compared' % n)
            gone = len(self.lib.modules) - len([x for x in self.lib.modules if c.mod(x) is not None])
            if gone > 20:
                raise Broken('%d modules are gone' % gone)
            if len(c.tops) > 700:
                raise Broken('%d aspects could not be resolved, e.g. %s' % (len(c.tops), c.tops[:3]))
            return c
        return self.memo(('cmp', version, order), make)

    def graph(self, version=(3, 12, 3), order='sorted'):
        def make():
            g = Graph(self.world(version, order))
            if len(g.nodes) < 4000:
                raise Broken('only %d type objects are reachable' % len(g.nodes))
            return g
        return self.memo(('graph', version, order), make)


def examples(root):
    """The rules that report their example."""
    found = []
    c = Context(root, 'quick')
    w, g = c.world(), Graph(c.world())
    for f in (rules.decodability(g), rules.completeness(g), rules.values(g), rules.applicable(g), rules.open_types(g), rules.tag_form(g),
              rules.registry_effects(w), rules.import_effects(w), rules.effective(w),
              rules.same_registries(w, c.world(order='reversed'))):
        found.extend(f[0])
    found.extend(behaviour.behaviour(w, g, c.api)[0])
    lib = Library(os.path.join(root, 'names'))
    found.extend(rules.oid_names(w, lib, os.path.join(root, 'aliases.txt'))[0])
    table = generations.read_table(os.path.join(root, 'generations.txt'))
    found.extend(generations.agreement(w, table)[0])
    c = Context(os.path.join(root, 'reference'), 'quick')
    x = Comparer(c.world(), Library(os.path.join(root, 'reference', 'spec')))
    x.run()
    found.extend(x.findings)
    found.extend(portability.scan(os.path.join(root, 'portability'), ['pyasn1_modules'], [(2, 7), (3, 5)])[0])
    return set(f.rule for f in found)
