"""Whether the types of the package behave like the pyasn1 types they derive
from: what a class may state besides its ASN.1 declaration."""
import ast
import codecs
import inspect

from . import model
from .compare import Finding
from .interp import ADict, Budget, Fault, Func
from .lattice import NeedsJoin, Unknown, is_unknown
from .model import Here, PyAsn1Error
from .rules import shared_maps

# what ASN.1 lets one declare; other properties say what it must be
DECLARED = frozenset('tagSet subtypeSpec componentType namedValues sizeSpec defaultValue defaultHexValue '
                     'defaultBinValue'.split())
# what every class statement leaves behind
PLAIN = frozenset('_loc _module __module__ __doc__ __qualname__ __dict__ __weakref__ __slots__ __annotations__ '
                  '__firstlineno__ __static_attributes__ __classcell__'.split())
CHARACTERS = {
    'UTF8String': 'utf-8', 'BMPString': 'utf-16-be', 'UniversalString': 'utf-32-be', 'NumericString': 'us-ascii',
    'PrintableString': 'us-ascii', 'IA5String': 'us-ascii', 'VisibleString': 'us-ascii', 'ISO646String': 'us-ascii'}
# pyasn1 versions differ in these two, and both are right
EITHER = frozenset(('us-ascii', 'iso-8859-1'))
SAMPLES = {'INTEGER': 5, 'ENUMERATED': 1, 'BOOLEAN': True, 'OCTET STRING': 'ab', 'OBJECT IDENTIFIER': (1, 3, 6),
           'BIT STRING': "'101'B"}
MAPPING = frozenset('__getitem__ __missing__ __contains__ __iter__ __len__ get keys values items copy __setitem__ '
                    '__delitem__ update setdefault pop popitem clear __init__ __new__ __eq__'.split())


def _func(x):
    return x.__func__ if isinstance(x, (staticmethod, classmethod)) else x


def passes_on(func, name, bases, base):
    """The body hands its arguments, unchanged, to the method it replaces and
    returns what that returns."""
    node = getattr(func, 'node', None)
    if not isinstance(node, ast.FunctionDef):
        return False
    body = [s for s in node.body if not isinstance(s, ast.Pass) and
            not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Return) or not isinstance(body[0].value, ast.Call):
        return False
    c, a = body[0].value, node.args
    if not isinstance(c.func, ast.Attribute) or c.func.attr != name:
        return False
    host, names = c.func.value, [x.arg for x in a.posonlyargs + a.args]
    if not names or not defaults_agree(a, getattr(base, name, None)):
        return False
    if isinstance(host, ast.Call) and isinstance(host.func, ast.Name) and host.func.id == 'super':
        sent = names[1:]
    elif isinstance(host, (ast.Name, ast.Attribute)) and \
            (host.id if isinstance(host, ast.Name) else host.attr) in bases:
        sent = names
    else:
        return False
    want = [ast.dump(ast.Name(n, ast.Load())) for n in sent]
    if a.vararg:
        want.append(ast.dump(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())))
    got = [ast.dump(x) for x in c.args]
    kw = [(k.arg, ast.dump(k.value)) for k in c.keywords]
    need = [(x.arg, ast.dump(ast.Name(x.arg, ast.Load()))) for x in a.kwonlyargs]
    if a.kwarg:
        need.append((None, ast.dump(ast.Name(a.kwarg.arg, ast.Load()))))
    return got == want and sorted(kw, key=str) == sorted(need, key=str)


def defaults_agree(a, method):
    """The defaults of the arguments are those of the method replaced."""
    if a.kw_defaults and any(d is not None for d in a.kw_defaults):
        return False
    if not a.defaults:
        return True
    try:
        theirs = [p.default for p in inspect.signature(method).parameters.values() if p.default is not p.empty]
        return theirs[:len(a.defaults)] == [ast.literal_eval(d) for d in a.defaults]
    except (TypeError, ValueError):
        return False


class Making(object):
    """What making an instance of a class of the package comes to."""

    def __init__(self, world, cls):
        self.world, self.cls = world, cls
        self.base = next(c for c in cls.__mro__ if '_module' not in c.__dict__ and issubclass(c, model.Asn1Type))
        self.simple = issubclass(cls, model.SimpleAsn1Type)

    def run(self, func, *args, **kwargs):
        """(result, None), or (None, what goes wrong), or Unknown."""
        try:
            r = func(*args, **kwargs)
        except Fault as f:
            return None, '%s: %s' % (type(f.exc).__name__, f.exc)
        except (NeedsJoin, Budget):
            return Unknown('instance'), None
        except (PyAsn1Error, TypeError, ValueError, AttributeError, LookupError) as e:
            if isinstance(e, (TypeError, AttributeError)) and self.world.in_model(e):
                return Unknown('instance'), None
            return None, '%s: %s' % (type(e).__name__, e)
        return r, None

    def problems(self, custom):
        """What is wrong with the instances; 'custom' if it makes them itself."""
        i, bad = self.run(self.cls)
        if bad:
            yield 'cannot be made without arguments: %s' % bad
            return
        if is_unknown(i) or not custom:
            return
        if type(i) is not self.cls:
            yield 'makes an instance of another class'
            return
        vals = getattr(i, '_vals', None) or {}
        ct = i.componentType if not self.simple else None
        for k in vals:
            known = isinstance(ct, model.NamedTypes) and ct.known()
            t = [x for n, x in enumerate(ct.namedTypes) if x.name == k or n == k] if known else []
            if not known or not t or t[0].isOptional or t[0].isDefaulted or self.base.__name__ == 'Choice':
                yield 'an instance has a component from the start (%s), even when what is decoded lacks it' % (k,)
        for what, f, get in self.derived(i):
            r, bad = self.run(f)
            if bad:
                yield '%s fails: %s' % (what, bad)
            elif not is_unknown(r) and not get(r):
                yield '%s does not give what pyasn1 gives' % what
        if self.simple and self.cls.kind in SAMPLES:
            v = SAMPLES[self.cls.kind]
            want, bad = self.run(self.base, v)
            got, worse = self.run(self.cls, v)
            if bad is None and worse is not None:
                yield 'does not take a value: %s' % worse
            elif bad is None and not is_unknown(got) and not is_unknown(want) and \
                    not is_unknown(got._value) and got._value != want._value:
                yield 'makes %r of the value %r' % (got._value, v)

    def derived(self, i):
        t = model.Tag(128, 0, 7)
        tags = i.tagSet
        if is_unknown(tags):
            return
        yield 'clone()', lambda: i.clone(), lambda r: r.tagSet == tags
        if len(tags):
            new = tags.tagImplicitly(t)
            yield 'subtype()', lambda: i.subtype(implicitTag=t), lambda r: r.tagSet == new
        new = tags.tagExplicitly(t)
        yield 'subtype()', lambda: i.subtype(explicitTag=t), lambda r: r.tagSet == new
        size = model.ValueSizeConstraint(1, 2)
        yield 'passing subtypeSpec', lambda: self.cls(subtypeSpec=size), lambda r: r.subtypeSpec is size


# how an instance answers for attributes that are not there, or stands for another
HOOKS = frozenset('__getattr__ __getattribute__ __setattr__ __delattr__ __instancecheck__ __class__'.split())
# the parts of a declaration: what they do is pyasn1's, the model reads these attributes of them
PARTS = (
    (model.AbstractConstraint, 'constraint'), (model.NamedValues, 'named-values'), (model.OpenType, 'open-type'),
    (model.Tag, 'tags'), (model.TagSet, 'tags'), (model.DefaultedNamedType, 'default'),
    (model.NamedType, 'structure'), (model.NamedTypes, 'structure'))
READ = frozenset('isOptional isDefaulted __repr__ __str__ __init__ __new__'.split())


def parts(world, api):
    """[(finding, aspect)] for the classes of the package that derive from the
    classes declarations consist of and replace what these do."""
    out, n = [], 0
    for cls in world.made:
        aspect = next((a for part, a in PARTS if issubclass(cls, part)), None)
        if aspect is None:
            continue
        n += 1
        library = [c for c in cls.__mro__ if '_module' not in c.__dict__]
        known = set(HOOKS).union(*[api.get('class:' + c.__name__, set()) for c in library]) - READ - PLAIN
        if library[0] is model.AbstractConstraint:
            known -= set(('_testValue', '_setValues'))      # a constraint of its own kind: its values are unknown
        names = set(c.__name__ for c in cls.__mro__)
        for c in cls.__mro__:
            for attr, x in list(c.__dict__.items()) if '_module' in c.__dict__ else ():
                f = _func(x)
                if attr not in known or attr == '__hash__' and x is None or \
                        isinstance(f, Func) and passes_on(f, attr, names, library[0]):
                    continue
                where = '%s.%s.%s' % (c.__dict__['_module'].split('.')[-1], c.__name__, attr)
                out.append((Finding('overridden', where, getattr(f, 'loc', None) or c._loc,
                                    'replaces the %s of %s' % (attr, library[0].__name__)), aspect))
    return out, n


def behaviour(world, graph, api):
    out = []
    stats = {'classes': 0, 'attributes': 0, 'constructors': 0, 'strings': 0, 'registries': 0}
    reported = set()
    for mname in world.order:
        m = world.mods[mname]
        for name, cls in list(m._ns.items()):
            if not (isinstance(cls, type) and issubclass(cls, model.Asn1Type)) or \
                    cls.__dict__.get('_module') != mname or (cls, 0) in reported:
                continue
            reported.add((cls, 0))
            stats['classes'] += 1
            custom = False
            mro = cls.__mro__
            ours = [c for c in mro if '_module' in c.__dict__]
            library = [c for c in mro if '_module' not in c.__dict__]
            known = set().union(*[api.get('class:' + c.__name__, set()) for c in library])
            for c in library:
                known.update(c.__dict__)
            names = set(c.__name__ for c in mro)
            for c in ours:
                short = c.__dict__['_module'].split('.')[-1]
                for attr, x in list(c.__dict__.items()):
                    if attr in DECLARED or attr in PLAIN or (attr == '__hash__' and x is None):
                        continue
                    stats['attributes'] += 1
                    if attr in ('__init__', '__new__'):
                        custom = True
                        continue
                    if attr not in known and attr not in HOOKS or (c, attr) in reported or is_unknown(x) and attr != 'typeId':
                        continue
                    f = _func(x)
                    if isinstance(f, Func):
                        if passes_on(f, attr, names, library[0]):
                            continue
                        loc, text = f.loc, 'replaces the %s of %s' % (attr, library[0].__name__)
                    elif attr == 'encoding':
                        continue            # seen below, on every type that has it
                    else:
                        if any(attr in b.__dict__ and same(x, b.__dict__[attr]) for b in library):
                            continue
                        loc, text = c._loc, 'gives %s of %s another value' % (attr, library[0].__name__)
                    reported.add((c, attr))
                    out.append(Finding('overridden', '%s.%s.%s' % (short, c.__name__, attr), loc, text))
            saved = (Here.module, Here.loc, Here.maybe)
            Here.module = None
            try:
                stats['constructors'] += 1
                for text in Making(world, cls).problems(custom):
                    out.append(Finding('construction', '%s.%s' % (mname.split('.')[-1], cls.__name__), cls._loc, text))
            finally:
                Here.module, Here.loc, Here.maybe = saved
    found, stats['parts'] = parts(world, api)
    out.extend(f for f, _ in found)
    for path, v in graph.nodes:
        if v.kind is None or not isinstance(v.cls, type) or not issubclass(v.cls, model.OctetString):
            continue
        stats['strings'] += 1
        enc = getattr(v.obj, 'encoding', None)
        if is_unknown(enc) or enc is None:
            continue
        base = next(c for c in v.cls.__mro__ if '_module' not in c.__dict__)
        want = CHARACTERS.get(base.__name__, 'iso-8859-1')
        if codec(enc) != codec(want) and not (want in EITHER and codec(enc) in [codec(e) for e in EITHER]):
            out.append(Finding('overridden', '%s.encoding' % path, v.loc, 'its characters are encoded as %s, those of '
                               '%s as %s' % (enc, base.__name__, want)))
    for name, d in shared_maps(world):
        stats['registries'] += 1
        for c in type(d).__mro__:
            if '_module' in c.__dict__:
                for attr in sorted(set(c.__dict__) & MAPPING):
                    out.append(Finding('overridden', '%s.%s' % (name, attr), d._loc,
                                       'the registry is no plain map, it has a %s of its own' % attr))
    return out, stats


def same(a, b):
    try:
        return bool(a == b)
    except Exception:
        return a is b


def codec(name):
    try:
        return codecs.lookup(name).name
    except (LookupError, TypeError):
        return name
