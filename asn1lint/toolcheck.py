"""The programs under tools/: what each one reads, decodes as what, checks and
prints, on every path, decided by exploring them with an abstract input.

The blocks of the input, the outcome of each decoding, the bytes it leaves
over, whether a re-encoding equals its source and the content types found are
all choices; none of them is ever a concrete message.
"""
import ast
import os
import re

from . import schema
from .compare import Finding
from .interp import ADict, Budget, Fault, Func, Mod, ReturnSig, BreakSig, ContinueSig, Scope, parse_file
from .lattice import NeedsJoin, Unknown, is_unknown
from .model import Asn1Type, ConstructedAsn1Type, Here, PyAsn1Error, SimpleAsn1Type
from .paths import Explorer, Num, PathWorld, Stop, Text, TooMany, _show
from .rules import same_type
from .schema import is_top, view

PEM = 'pyasn1_modules.pem'
OTHER = (1, 3, 6, 1, 4, 1, 99999, 1)        # a content type no tool knows


def oid(text):
    return tuple(int(x) for x in text.split('.'))


CMC = {'1.2.840.113549.1.9.16.1.6': 'rfc5652.ContentInfo',
       '1.2.840.113549.1.7.2': 'rfc5652.SignedData',
       '1.3.6.1.5.5.7.12.2': 'rfc6402.PKIData'}

# What each tool is for.
#   pem: the type each kind of block is decoded as     base64: the type of the one message
#   one: a single block, not all of them               layers: where a content type and its content are, and
#   args: the extra command line arguments it takes            the type of the content by its type
#   unchecked: content that is printed only            content: an empty input is an error
TOOLS = {
    'x509dump': {'pem': {'CERTIFICATE': 'rfc2459.Certificate'}},
    'x509dump-rfc5280': {'pem': {'CERTIFICATE': 'rfc5280.Certificate'}},
    'crldump': {'pem': {'X509 CRL': 'rfc2459.CertificateList'}},
    'pkcs10dump': {'pem': {'CERTIFICATE REQUEST': 'rfc2314.CertificationRequest'}},
    'pkcs1dump': {'pem': {'RSA PRIVATE KEY': 'rfc2437.RSAPrivateKey', 'DSA PRIVATE KEY': 'rfc2459.DSAPrivateKey'}},
    'pkcs8dump': {'pem': {'PRIVATE KEY': 'rfc5208.PrivateKeyInfo',
                          'ENCRYPTED PRIVATE KEY': 'rfc5208.EncryptedPrivateKeyInfo'}},
    'pkcs7dump': {'pem': {'PKCS7': 'rfc2315.ContentInfo'}, 'one': True, 'unchecked': True,
                  'layers': {'rfc2315.ContentInfo': ('contentType', 'content', {
                      '1.2.840.113549.1.7.1': 'rfc2315.Data',
                      '1.2.840.113549.1.7.2': 'rfc2315.SignedData',
                      '1.2.840.113549.1.7.3': 'rfc2315.EnvelopedData',
                      '1.2.840.113549.1.7.4': 'rfc2315.SignedAndEnvelopedData',
                      '1.2.840.113549.1.7.5': 'rfc2315.DigestedData',
                      '1.2.840.113549.1.7.6': 'rfc2315.EncryptedData'})}},
    'crmfdump': {'base64': 'rfc2511.CertReqMessages'},
    'cmpdump': {'base64': 'rfc4210.PKIMessage', 'args': [['-d']]},
    'ocspreqdump': {'base64': 'rfc2560.OCSPRequest'},
    'ocsprspdump': {'base64': 'rfc2560.OCSPResponse'},
    'cmcdump': {'base64': 'rfc5652.ContentInfo', 'content': True, 'layers': {
        'rfc5652.ContentInfo': ('contentType', 'content', CMC),
        'rfc5652.SignedData': ('encapContentInfo.eContentType', 'encapContentInfo.eContent', CMC)}},
    'ocspclient': {'client': 'ocsp', 'pem': {'CERTIFICATE': 'rfc2459.Certificate'}, 'arity': 1,
                   'oids': ['1.3.6.1.5.5.7.48.1.1']},
    'snmpget': {'client': 'snmp', 'arity': 3},
}


class Wrong(BaseException):
    """Something wrong that ends the path, whatever the tool catches."""

    def __init__(self, rule, text, loc=None):
        BaseException.__init__(self, text)
        self.rule, self.text, self.loc = rule, text, loc


def linear(t):
    """{text: how often its length is added} of a sum of lengths (None: a number), or None."""
    if isinstance(t, int):
        return {None: int(t)} if t else {}
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == 'len' and len(t) == 2:
        return {t[1]: 1}
    if t[0] == '-' and len(t) == 2:
        a = linear(t[1])
        return None if a is None else dict((k, -n) for k, n in a.items())
    if t[0] in ('+', '-') and len(t) == 3:
        a, b = linear(t[1]), linear(t[2])
        if a is None or b is None:
            return None
        for k, n in b.items():
            a[k] = a.get(k, 0) + (n if t[0] == '+' else -n)
        return a
    return None


class Part(object):
    """Something decoded, or a component of it."""
    _abstract = True

    def __init__(self, ex, j, path, v):
        d = self.__dict__
        d['ex'], d['j'], d['path'], d['view'] = ex, j, path, v

    @property
    def key(self):
        return (self.j, self.path)

    def __repr__(self):
        return '<%s>' % self.ex.name_of(self.key)

    def __setattr__(self, name, value):
        raise NeedsJoin('change of a decoded value')

    # ------------------------------------------------------------ components

    def _at(self, name, v):
        p = Part(self.ex, self.j, self.path + (name,), v)
        if v.kind == 'OBJECT IDENTIFIER':
            return self.ex.identifier(p)
        return p

    def _constructed(self, what):
        if isinstance(self.view.kind, str) and self.view.kind not in (
                'SEQUENCE', 'SET', 'CHOICE', 'SEQUENCE OF', 'SET OF') and not is_top(self.view.kind):
            raise Fault(AttributeError('%s of a %s' % (what, self.view.kind)), Here.loc)

    def getComponentByName(self, name, *a, **k):
        self._constructed('getComponentByName')
        if self.view.kind not in ('SEQUENCE', 'SET', 'CHOICE') or is_top(self.view.comps):
            raise NeedsJoin('components')
        for c in self.view.comps:
            if c.name == name:
                return self._at(name, c.type)
        raise PyAsn1Error('no component %s in %s' % (name, self.view.cls.__name__))

    def getComponentByPosition(self, i, *a, **k):
        if self.view.kind in ('SEQUENCE OF', 'SET OF'):
            return self._at(i, self.view.elem)
        self._constructed('getComponentByPosition')
        if is_top(self.view.comps):
            raise NeedsJoin('components')
        if not self.view.comps or not -len(self.view.comps) <= i < len(self.view.comps):
            raise PyAsn1Error('no component %s' % i)
        c = self.view.comps[i]
        return self._at(c.name, c.type)

    def __getitem__(self, k):
        if is_unknown(k):
            raise NeedsJoin('component')
        if isinstance(k, Num):
            k = 0
        if isinstance(k, str):
            try:
                return self.getComponentByName(k)
            except PyAsn1Error:
                raise KeyError(k)
        return self.getComponentByPosition(k)

    def __iter__(self):
        raise NeedsJoin('components of a decoded value')

    def __len__(self):
        raise NeedsJoin('size of a decoded value')

    def getName(self, *a):
        return Text([('name', self.key)])

    def getComponent(self, *a):
        return Part(self.ex, self.j, self.path + ('*',), self.view)

    # ---------------------------------------------------------------- values

    @property
    def isValue(self):
        return self.ex.decide(('present', self.key)) if self.path else True

    def hasValue(self):
        return self.isValue

    def __bool__(self):
        return self.ex.decide(('true', self.key)) if self.path else True

    def __eq__(self, other):
        return self.ex.same(self, other)

    def __ne__(self, other):
        return not self.ex.same(self, other)

    def __hash__(self):
        return hash(self.key)

    def __int__(self):
        raise NeedsJoin('number')

    def number(self):
        if self.view.kind in ('INTEGER', 'ENUMERATED'):
            return self
        raise NeedsJoin('number')

    def prettyPrint(self, *a):
        return Text([('pretty', self.key)])

    prettyOut = prettyPrint

    def asOctets(self):
        if self.view.kind in ('OCTET STRING', 'ANY'):
            return self.ex.text(self)
        return Text([('octets', self.key)], 'bytes')

    def __add__(self, other):
        return self.ex.concat([self.ex.text(self), other])

    def isSameTypeWith(self, other, *a, **k):
        raise NeedsJoin('types')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Unknown('%s of a decoded value' % name)


class Hash(object):
    def __init__(self, ex, name, data=None):
        self.ex, self.name = ex, name
        self.atoms = ()
        if data is not None:
            self.update(data)

    def update(self, data):
        self.atoms += self.ex.text(data).atoms

    def digest(self):
        return Text([('hash', self.name, self.atoms)], 'bytes')

    def hexdigest(self):
        return Text([('op', 'hexdigest', self.atoms)])


class Stream(object):
    """Something to be read once.  Its length is not known: a read of at most
    so many bytes may give all of it, but only the empty one after it tells."""

    def __init__(self, ex, what, kind):
        self.ex, self.what, self.kind = ex, what, kind

    def read(self, size=None, *a):
        if is_unknown(size):
            raise NeedsJoin('size of a read')
        state = self.ex.streams.setdefault(self.what, ['all', Here.loc])
        if size is None or isinstance(size, int) and size < 0:
            state[0] = 'all'
        elif len(state) == 2:
            state[0] = 'part'
        elif state[0] == 'part':
            state[0] = 'all'
        state.append(size)
        if len(state) > 3:
            return Text([], self.kind)
        return Text([(self.what,)], self.kind)


class Stdin(Stream):
    def __init__(self, ex, kind='str'):
        Stream.__init__(self, ex, 'stdin', kind)

    def read(self, size=None, *a):
        self.ex.event('read')
        return Stream.read(self, size)

    def __iter__(self):
        raise NeedsJoin('lines of the input')
    readline = readlines = __iter__

    @property
    def buffer(self):
        if not self.ex.py3:
            raise AttributeError("'file' object has no attribute 'buffer'")
        return Stdin(self.ex, 'bytes')

    def isatty(self):
        return self.ex.decide(('isatty',))

    def fileno(self):
        return 0

    def close(self):
        pass


class Out(object):
    def __init__(self, ex, kind):
        self.ex, self.kind = ex, kind

    def write(self, t):
        self.ex.event(self.kind, self.ex.shown([t]))

    def flush(self):
        pass


class ToolWorld(PathWorld):
    LOOPS = 400

    def __init__(self, ex, base):
        PathWorld.__init__(self, ex, ex.root, ex.version, ex.api)
        if ex.straight:
            self.LOOPS = 4 * ex.straight + 400
        self.base = base
        self._builtins['print'] = self.b_print
        self._builtins['exit'] = self._builtins['quit'] = self.exit
        py3 = ex.py3
        ns = self.sys_stub()._ns
        ns.update({'argv': ex.argv(), 'stdin': Stdin(ex), 'stdout': Out(ex, 'print'), 'stderr': Out(ex, 'complain'),
                   'exit': self.exit})
        self._models['hashlib'] = Mod('hashlib', ns=dict(
            [(n, self.hasher(n)) for n in ('sha1', 'sha256', 'md5', 'sha224', 'sha384', 'sha512')] +
            [('new', lambda name, data=None: Hash(ex, name, data))]))
        http = Mod('urllib.request' if py3 else 'urllib2', ns={
            'Request': ex.http_request, 'urlopen': ex.http_open})
        if py3:
            self._models['urllib.request'] = http
            self._models['urllib'] = Mod('urllib', ns={'request': http})
        else:
            self._models['urllib2'] = http
            self._models['urllib'] = Mod('urllib', ns={'urlopen': ex.http_open})
        self._models['socket'] = Mod('socket', ns={
            'socket': ex.socket, 'AF_INET': 'AF_INET', 'SOCK_DGRAM': 'SOCK_DGRAM', 'AF_INET6': 'AF_INET6',
            'SOCK_STREAM': 'SOCK_STREAM', 'error': OSError, 'timeout': OSError}, api=set())

    def hasher(self, name):
        return lambda data=None: Hash(self.ex, name, data)

    def exit(self, code=None):
        raise Fault(SystemExit(code), Here.loc)

    def b_print(self, *a, **k):
        f = k.get('file')
        kind = f.kind if isinstance(f, Out) else 'print'
        self.ex.event(kind, self.ex.shown(a))

    def b_isinstance(self, obj, cls):
        if isinstance(obj, Part) and not is_unknown(cls):
            cs = list(cls) if isinstance(cls, tuple) else [cls]
            if all(isinstance(c, type) for c in cs) and isinstance(obj.view.cls, type):
                return any(issubclass(obj.view.cls, c) for c in cs)
        if isinstance(obj, (Part, Num)):
            return Unknown('isinstance')
        return PathWorld.b_isinstance(self, obj, cls)

    # --------------------------------------------------------------- modules

    def import_module(self, name, loc):
        if name == 'urllib2' and self.ex.py3 or name == 'urllib.request' and not self.ex.py3:
            raise ImportError("No module named '%s'" % name)
        if '.' not in name and name not in self._models:
            p = os.path.join(self.root, 'tools', name + '.py')
            if os.path.isfile(p):
                return self.mods[name] if name in self.mods else self.load_path(name, p)
        return PathWorld.import_module(self, name, loc)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == PEM:
            m = PathWorld.load(self, name)
            m._ns.update(self.ex.readers())
            return m
        if name in self.base.mods and (name.count('.') == 0 or name.rpartition('.')[2].startswith('rfc')):
            m = self.mods[name] = self.base.mods[name]
            if '.' in name:
                self.load(name.rpartition('.')[0])
            return m
        return PathWorld.load(self, name)

    def pyasn1_package(self, name):
        if name in self._models:
            return self._models[name]
        parts = name.split('.')
        if name.startswith('pyasn1.codec.') and parts[-1] in ('encoder', 'decoder') and parts[2] in ('ber', 'cer', 'der'):
            ns = {}
            if parts[-1] == 'encoder':
                ns['encode'] = lambda value, asn1Spec=None, **k: self.ex.encode(parts[2], value, asn1Spec)
            else:
                ns['decode'] = lambda substrate, asn1Spec=None, **k: self.ex.decode(parts[2], substrate, asn1Spec)
            m = self._models[name] = Mod(name, ns=ns, api=self.api.get(name))
            lower = {'der': 'cer', 'cer': 'ber'}.get(parts[2])
            if lower and parts[-1] in self.api.get(name, ()):
                ns[parts[-1]] = self.pyasn1_package('pyasn1.codec.%s.%s' % (lower, parts[-1]))
            return m
        return PathWorld.pyasn1_package(self, name)

    # ----------------------------------------------------------------- terms

    def get_attr(self, obj, name):
        if isinstance(obj, Asn1Type) and name == 'prettyPrint':
            return lambda *a: Text(self.ex.shown([obj]))
        return PathWorld.get_attr(self, obj, name)

    def set_item(self, obj, key, value):
        if isinstance(obj, ConstructedAsn1Type) and not is_unknown(key):
            obj[key] = value
            return
        return PathWorld.set_item(self, obj, key, value)

    def binop(self, op, a, b):
        if isinstance(a, str) and op.__name__ == 'mod':
            args = list(b) if isinstance(b, tuple) else [b]
            if any(self.symbolic(x) for x in args):
                return self.ex.fill(re.split(r'%[-#0 +]*\d*(?:\.\d+)?[a-zA-Z]', a), args)
        return PathWorld.binop(self, op, a, b)

    def symbolic(self, x):
        return isinstance(x, (Text, Num, Part, Asn1Type)) or is_unknown(x)

    def e_JoinedStr(self, node, scope):
        parts = [self.ev(v.value, scope) if isinstance(v, ast.FormattedValue) else self.ev(v, scope)
                 for v in node.values]
        return Text(self.ex.shown(parts, ''))

    def call(self, func, args, kwargs, node):
        if is_unknown(func):
            return PathWorld.call(self, func, args, kwargs, node)
        host = getattr(func, '__self__', None)
        if isinstance(host, str) and getattr(func, '__name__', '') == 'format' and \
                any(self.symbolic(x) for x in list(args) + list(kwargs.values())):
            return self.ex.fill([host], list(args) + list(kwargs.values()))
        if func in (str, repr, self._builtins.get('unicode')) and len(args) == 1 and isinstance(args[0], (Part, Asn1Type)):
            return Text(self.ex.shown(args))
        if func is self._builtins.get('int') and len(args) == 1 and isinstance(args[0], Part):
            return args[0].number()
        return PathWorld.call(self, func, args, kwargs, node)

    # ---------------------------------------------------------------- script

    def run_script(self, path):
        """Until the program ends: its exit status, or the fault that ended it."""
        mod = Mod('__main__', path)
        mod.__dict__['_rel'] = self.rel(path)
        self.mods['__main__'] = mod
        mod._ns.update({'__name__': '__main__', '__file__': path, '__doc__': None, '__package__': None})
        tree, _ = parse_file(path)
        mod.__dict__['_tree'] = tree
        saved = (Here.loc, Here.stmt, Here.module, Here.maybe)
        Here.module, Here.maybe, self.depth = '__main__', 0, 0
        scope = Scope(mod._ns, mod)
        try:
            for stmt in tree.body:
                Here.stmt = (mod._rel, stmt.lineno)
                self.exec(stmt, scope)
        except Fault as f:
            return f
        except Budget:
            raise Wrong('never-ends', 'does not come to an end', Here.loc)
        finally:
            (Here.loc, Here.stmt, Here.module, Here.maybe) = saved
        return None


class Tool(Explorer):
    """Explores one tool with one command line."""
    LIMIT = 4000

    def __init__(self, root, version, api, name, base, args, blocks, straight=0):
        Explorer.__init__(self, root, version, api)
        self.straight = straight        # one long input with nothing wrong in it, of so many blocks or layers
        self.tool, self.base, self.args, self.blocks = name, base, args, blocks
        self.spec = TOOLS[name]
        self.oids = sorted(set(o for _, _, m in self.spec.get('layers', {}).values() for o in m) |
                           set(self.spec.get('oids', ())))
        self.path = os.path.join(root, 'tools', name + '.py')
        # identifiers it is not to take for one of those: any, those close to them and those it names itself
        near = set('.'.join(o.split('.')[:-1] + ['97']) for o in self.oids) | set(o + '.1' for o in self.oids) | \
            set(o.rpartition('.')[0] for o in self.oids)
        self.decoys = ['other, ' + '.'.join(map(str, OTHER))] + \
            ['other, ' + o for o in sorted((near | named_oids(self.path, base)) - set(self.oids))]
        self.succeeds = False
        self.end = (None, None)

    # ---------------------------------------------------------- observations

    nothing = ''            # what the readers give when there is no block

    def reset(self):
        self.events = []        # (kind, data, loc)
        self.sources = []       # [(atoms, type object, codec, loc)] of the decodings
        self.built = []         # message objects made
        self.read = []          # the kinds of the blocks read
        self.ended = 0
        self.labels = []
        self.streams = {}       # what is read: [how much of it, where, the sizes asked for]

    def event(self, kind, data=None):
        self.events.append((kind, data, Here.loc))

    def argv(self):
        return ['tool'] + list(self.args)

    CHOICES = ('nonempty', 'verify', 'same', 'true', 'present', 'isatty', 'unknown', 'length', 'partly')

    def decide(self, key):
        if key not in self.memo:
            j = None
            if key[0] == 'startswith' and len(key) == 3:
                j = self.prefix_of(key[2], key[1])
                if j is not None:
                    return self.decide(('verify', j, key[2][0][2]))
            elif key[0] in ('==', '!=') and len(key) == 3:
                j = self.lengths(key[1], key[2])
                if j is not None:
                    # encodings of another length differ, those of the same length may
                    if self.memo.get(('verify', j, 'der')) or self.memo.get(('verify', j, 'ber')):
                        same = True
                    else:
                        same = self.decide(('length', j))
                        if not same:
                            self.memo.update((('verify', j, c), False) for c in ('der', 'ber', 'cer'))
                    return same if key[0] == '==' else not same
            j = self.partly(key)
            if j is not None:
                same = any(self.memo.get(('verify', j, c)) for c in ('der', 'ber')) or self.decide(('partly', j))
                if not same:
                    self.memo.update((('verify', j, c), False) for c in ('der', 'ber', 'cer'))
                return same if key[0] != '!=' else not same
            if key[0] not in self.CHOICES and not self.altered(key):
                self.vague.append('a condition on %s' % _show(key))
        if self.straight and key not in self.memo:
            if key[0] in ('verify', 'length', 'partly') or key[0] == 'nonempty' and key[1][0][0] in ('dec', 'stdin'):
                self.memo[key] = True
            elif key[0] == 'nonempty' and key[1][0][0] == 'rest':
                self.memo[key] = False
        return Explorer.decide(self, key)

    def encoded(self, x):
        """The decoding whose value this is the encoding of."""
        if isinstance(x, tuple) and len(x) == 1 and isinstance(x[0], tuple) and x[0][0] == 'enc' and x[0][1][1] == ():
            return x[0][1][0]

    def source_of(self, y, j):
        """Is y the source of decoding j, all of it or without what follows?"""
        src, rest = self.sources[j][0], (('rest', j),)
        return y == src or y == (('trim', src, rest),)

    def prefix_of(self, x, y):
        j = self.encoded(x)
        return j if j is not None and self.source_of(y, j) else None

    def altered(self, key):
        """Is this the comparison of an encoding with something else than its
        source?  The outcome then tells nothing."""
        if key[0] != '==' or len(key) != 3:
            return False
        for x, y in (key[1:], key[:0:-1]):
            j = self.encoded(x)
            if j is None or not isinstance(y, tuple):
                continue
            if len(y) == 1 and y[0][0] == 'op' and y[0][2] == self.sources[j][0] and '<' not in repr(y[0][3:]):
                return True
            if len(y) == 1 and self.input(y[0]) and not self.source_of(y, j):
                return True             # the source of something else
        return False

    def input(self, a):
        while a[0] == 'trim' and len(a[1]) == 1:
            a = a[1][0]
        return a[0] in ('block', 'field', 'rest', 'response', 'reply') or a == ('dec', (('stdin',),))

    def lengths(self, x, y):
        """The decoding of which the length of the encoding is compared with
        that of its source."""
        x, y = linear(x), linear(y)
        if x is None or y is None:
            return None
        for k, n in y.items():
            x[k] = x.get(k, 0) - n
        terms = dict((k, n) for k, n in x.items() if n)
        for sign in (1, -1):
            for k, n in terms.items():
                j = self.encoded(k) if n == sign else None
                if j is None:
                    continue
                src, rest = self.sources[j][0], (('rest', j),)
                trimmed = (('trim', src, rest),)
                left = dict(t for t in terms.items() if t[0] != k)
                if left in ({src: -sign, rest: sign}, {trimmed: -sign}):
                    return j
                if left == {src: -sign}:
                    return j if not self.decide(('nonempty', rest)) else None
        return None

    def part(self, x):
        """(text, what) of a text of which only a part is left, or another text for each."""
        if isinstance(x, tuple) and len(x) == 1 and isinstance(x[0], tuple) and x[0][0] == 'op' and \
                x[0][1] in ('slice', 'lower', 'upper', 'strip') and '<' not in repr(x[0][3:]):
            return x[0][2], (x[0][1],) + x[0][3:]
        return x, None

    def partly(self, key):
        """The decoding of which some bytes of the encoding are compared with
        the same bytes of its source."""
        if len(key) != 3 or key[0] not in ('==', '!=', 'startswith', 'contains'):
            return None
        if key[0] == 'contains':
            j = self.encoded(self.part(key[2])[0])
            return j if j is not None and self.source_of(key[1], j) else None
        for x, y in (key[1:], key[:0:-1]):
            (a, m), (b, n) = self.part(x), self.part(y)
            j = self.encoded(a)
            if j is None or m is None or not self.source_of(b, j):
                continue
            if m == n and key[0] != 'startswith' or n is None and key[0] == 'startswith' and x is key[2] and \
                    m[0] == 'slice' and m[1].startswith(('(None,', '(0,')):
                return j
        return None

    def name_of(self, key):
        return '%s%s' % (self.describe(self.sources[key[0]][0]), ''.join('.%s' % (p,) for p in key[1]))

    def describe(self, atoms):
        if len(atoms) == 1:
            a = atoms[0]
            if a[0] == 'block':
                return 'block %d (%s)' % (a[1] + 1, self.read[a[1]] if a[1] < len(self.read) else '?')
            if a[0] == 'field':
                return 'the %s of %s' % ('.'.join(map(str, a[1][1])), self.name_of((a[1][0], ())))
            if a == ('dec', (('stdin',),)):
                return 'the input'
            if a[0] in ('reply', 'response'):
                return 'the response'
            if a[0] == 'trim':
                return '%s without its tail' % self.describe(a[1])
        return ' + '.join(str(a[0]) for a in atoms) or 'nothing'

    def shown(self, items, sep=' '):
        """The text that shows some values."""
        atoms = []
        for i, x in enumerate(items):
            if i and sep:
                atoms.append(('lit', sep))
            if isinstance(x, Text):
                atoms.extend(x.atoms)
            elif isinstance(x, Part):
                atoms.append(('pretty', x.key))
            elif isinstance(x, ConstructedAsn1Type):
                atoms.append(('built', self.keep(x)))
            elif isinstance(x, SimpleAsn1Type):
                v = x._value
                atoms.extend([('pretty', v.key)] if isinstance(v, Part) else
                             v.atoms if isinstance(v, Text) else
                             [('lit', '.'.join(map(str, v)) if isinstance(v, tuple) and
                               view(x).kind == 'OBJECT IDENTIFIER' else str(v))])
            elif isinstance(x, Num) or is_unknown(x):
                atoms.append(('op', 'value'))
            else:
                atoms.append(('lit', str(x)))
        return Text(atoms).atoms

    def fill(self, pieces, args):
        atoms = []
        for i, p in enumerate(pieces):
            atoms.append(('lit', p))
            if i < len(args):
                atoms.extend(self.shown([args[i]]))
        for x in args[len(pieces):]:
            atoms.extend(self.shown([x]))
        return Text(atoms)

    def keep(self, obj):
        for i, o in enumerate(self.built):
            if o is obj:
                return i
        self.built.append(obj)
        return len(self.built) - 1

    # ------------------------------------------------------------- the input

    def readers(self):
        def blocks(f, *pairs, **k):
            self.stdin(f)
            labels = []
            for p in pairs:
                if not isinstance(p, (tuple, list)) or len(p) > 2:
                    raise NeedsJoin('markers')
                if len(p) < 2:
                    raise IndexError('tuple index out of range')
                labels.append(self.label(p))
            self.labels.append((labels, Here.loc))
            if f.kind == 'bytes':
                return -1, self.nothing         # no line of bytes is one of the markers
            return self.next_block(len(labels), labels)

        def one(f, startMarker='-----BEGIN CERTIFICATE-----', endMarker='-----END CERTIFICATE-----'):
            return blocks(f, (startMarker, endMarker))[1]

        def whole(f):
            self.stdin(f)
            self.event('read')
            if f.kind == 'bytes':
                raise AttributeError("'bytes' object has no attribute 'encode'")
            return Text([('dec', (('stdin',),))], 'bytes' if self.py3 else 'str')

        def text(t):
            return self.b64decode(t)
        return {'readPemBlocksFromFile': blocks, 'readPemFromFile': one, 'readBase64FromFile': whole,
                'readBase64fromText': text}

    def stdin(self, f):
        if not isinstance(f, Stdin):
            if is_unknown(f):
                raise NeedsJoin('file')
            raise Wrong('wrong-input', 'reads from %r, not from its standard input' % (f,), Here.loc)

    def label(self, pair):
        a, b = pair
        if not isinstance(a, str) or not isinstance(b, str):
            raise NeedsJoin('markers')
        m = re.match(r'-----BEGIN (.*)-----$', a)
        if m is None or b != '-----END %s-----' % m.group(1):
            return '%s / %s' % (a, b)
        return m.group(1)

    def next_block(self, n, labels):
        if self.ended:
            self.ended += 1
            if self.ended > 3:
                raise Wrong('never-ends', 'goes on reading at the end of the input', Here.loc)
            return -1, self.nothing
        if self.straight:
            options = [len(self.read) % n] if n and len(self.read) < self.straight else ['eof']
        else:
            options = self.inputs(n)
        c = self.pick(options)
        self.event('read')
        if c == 'eof':
            self.ended = 1
            return -1, self.nothing
        if c == 'cut':
            self.ended = 1
            self.cut = True
            return 0, self.nothing
        self.read.append(labels[c])
        return c, Text([('block', len(self.read) - 1)], 'bytes' if self.py3 else 'str')

    def inputs(self, n):
        return ['eof'] + (list(range(n)) if len(self.read) < self.blocks else []) + \
            (['cut'] if n and len(self.read) < self.blocks else [])

    # ---------------------------------------------------------------- codecs

    def decode(self, codec, substrate, spec):
        if is_unknown(substrate) or is_unknown(spec):
            raise NeedsJoin('substrate')
        if isinstance(substrate, Part) and substrate.view.kind not in ('OCTET STRING', 'ANY') and \
                not is_top(substrate.view.kind):
            raise PyAsn1Error('cannot decode a %s' % substrate.view.kind)
        t = self.text(substrate)
        if not t:
            raise PyAsn1Error('nothing to decode')
        if self.py3 and t.kind != 'bytes':
            raise TypeError('cannot decode text')
        j = len(self.sources)
        if j >= 7 and not self.straight:
            raise Stop()
        self.sources.append((t.atoms, spec, codec, Here.loc))
        self.event('decode', j)
        if not isinstance(spec, Asn1Type):
            raise Wrong('wrong-type', 'decodes %s as %s' % (self.describe(t.atoms), _type(spec)), Here.loc)
        return Part(self, j, (), view(spec)), Text([('rest', j)], 'bytes' if self.py3 else 'str')

    def encode(self, codec, value, spec=None):
        if spec is not None:
            raise NeedsJoin('encoding by another type')
        kind = 'bytes' if self.py3 else 'str'
        if isinstance(value, Part):
            return Text([('enc', value.key, codec)], kind)
        if isinstance(value, SimpleAsn1Type) and isinstance(value._value, Part):
            return Text([('enc', value._value.key, codec)], kind)
        if isinstance(value, Asn1Type):
            return Text([('made', self.keep(value), codec)], kind)
        if value is None or isinstance(value, (Mod, Func, type, int, str, bytes, Text, Hash, tuple, list, dict)):
            raise PyAsn1Error('value is not valid (should be an instance of an ASN.1 Item)')
        raise NeedsJoin('encoding')

    def text(self, v, bytes_ok=False):
        if isinstance(v, Part):
            return Text([('field', v.key)], 'bytes' if self.py3 else 'str')
        if isinstance(v, SimpleAsn1Type):
            x = v._value
            if isinstance(x, Part):
                return Text([('field', x.key)], 'bytes' if self.py3 else 'str')
            return Explorer.text(self, x)
        return Explorer.text(self, v, bytes_ok)

    def nonempty(self, atoms):
        for a in atoms:
            if a[0] in ('arg', 'field', 'pretty', 'enc', 'made', 'reply', 'response', 'hash', 'name', 'octets'):
                return True
        if len(atoms) == 1 and atoms[0][0] in ('rest', 'dec', 'stdin'):
            return self.memo.get(('nonempty', atoms))
        return Explorer.nonempty(self, atoms)

    def identifier(self, part):
        """An object identifier found in the input: one of those the tool
        distinguishes, or another."""
        key = ('oid', part.key)
        if key not in self.memo:
            options = self.oids + self.decoys
            if self.straight:
                nested = [o for o in self.oids if self.nests(o) and o != self.memo.get('oid')]
                options = (nested if len(self.sources) < self.straight else
                           [o for o in self.oids if not self.nests(o)])[:1] or options
                self.memo['oid'] = options[0]
            self.memo[key] = self.pick(options)
            self.note.append('%s is %s' % (self.name_of(part.key), self.memo[key]))
        c = self.memo[key]
        return part.view.cls(oid(c.rpartition(' ')[2]))

    def nests(self, o):
        return any(m.get(o) in self.spec['layers'] for _, _, m in self.spec.get('layers', {}).values())

    def same(self, a, b):
        if isinstance(b, Part):
            if a.key == b.key:
                return True
            x, y = sorted((a.key, b.key), key=repr)
            return self.decide(('same', x, y))
        if is_unknown(b):
            return self.decide(('same', a.key, b.why))
        if isinstance(b, SimpleAsn1Type):
            if isinstance(b._value, Part):
                return self.same(a, b._value)
            return self.same_value(a.key, _hashable(b._value))
        if isinstance(b, (int, str, bytes, tuple)):
            return self.same_value(a.key, _hashable(b))
        if isinstance(b, Text):
            return self.equal(self.text(a), b)
        return False

    def same_value(self, key, value):
        for k, v in self.memo.items():
            if k[0] == 'same' and k[1] == key and v and k[2] != value and type(k[2]) is type(value):
                return False            # it is another value already
        return self.decide(('same', key, value))

    # ---------------------------------------------------------- verification

    def equal(self, a, b):
        if isinstance(b, Part) or isinstance(b, SimpleAsn1Type):
            b = self.text(b)
        if isinstance(b, (Text, str, bytes)):
            b = self.text(b)
            if not self.py3 or a.kind == b.kind:
                while len(a.atoms) == len(b.atoms) == 1 and a.atoms[0][0] == b.atoms[0][0] == 'hash' and \
                        a.atoms[0][1] == b.atoms[0][1] and len(a.atoms[0]) == len(b.atoms[0]) == 3:
                    a, b = (Text(t.atoms[0][2], t.kind) for t in (a, b))        # hashes of others differ
                for x, y in ((a.atoms, b.atoms), (b.atoms, a.atoms)):
                    r = self.verifies(x, y)
                    if r is not None:
                        return r
        return Explorer.equal(self, a, b)

    def verifies(self, x, y):
        """Is this the comparison of a re-encoding with its source?"""
        if not x or x[0][0] != 'enc' or x[0][1][1] != ():
            return None
        j = x[0][1][0]
        src = self.sources[j][0]
        rest = (('rest', j),)
        if x == (x[0],) and y in ((('trim', src, rest),), (('head', src, x),)) or x == (x[0],) + rest and y == src:
            whole = False
        elif x == (x[0],) and y == src:
            whole = True
        else:
            return None
        if whole and self.decide(('nonempty', rest)):
            return False            # there is more in the source than was decoded
        return self.decide(('verify', j, x[0][2]))

    # ----------------------------------------------------------- the network

    def http_request(self, url, data=None, headers=None, *a, **k):
        return ('request', url, data, headers)

    def http_open(self, req, data=None, *a, **k):
        if not isinstance(req, tuple):
            req = ('request', req, data, None)
        self.event('post', req)
        world = self

        class Response(Stream):
            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False
        return Response(world, 'response', 'bytes' if world.py3 else 'str')

    def socket(self, family='AF_INET', kind='SOCK_STREAM', *a):
        world = self

        class Socket(object):
            def sendto(self, data, *a):
                if not a or isinstance(a[-1], tuple) and len(a[-1]) != 2:
                    raise Fault(TypeError('sendto() takes data and the address, a pair'), Here.loc)
                world.event('send', (family, kind, data, a[-1]))

            def recvfrom(self, *a):
                if not a:
                    raise Fault(TypeError('how much to receive?'), Here.loc)
                if isinstance(a[0], int) and a[0] < 484:
                    raise Wrong('stops-early', 'takes only %d bytes of the answer; a message of SNMPv1 may have 484'
                                % a[0], Here.loc)
                world.event('receive')
                return Text([('reply',)], 'bytes' if world.py3 else 'str'), ('host', 161)

            def recv(self, *a):
                return self.recvfrom(*a)[0]

            def close(self):
                pass

            def settimeout(self, *a):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False
        return Socket()

    # ------------------------------------------------------------- one walk

    def walk(self):
        def path(ex):
            self.reset()
            self.cut = False
            w = ToolWorld(self, self.base)
            end, vague = None, None
            try:
                end = w.run_script(self.path)
            except Wrong as e:
                end = e
            except (NeedsJoin, RecursionError) as e:
                self.vague.append(str(e))
            except TooMany:
                raise
            except Exception as e:          # beyond the interpreter
                self.vague.append('%s: %s' % (e.__class__.__name__, e))
            self.world = w
            wrongs = []
            if not self.vague:
                try:
                    wrongs = list(self.judge(end))
                except (NeedsJoin, RecursionError) as e:
                    self.vague.append(str(e))
            if not self.vague and not wrongs and not isinstance(end, Wrong) and self.sources and not self.status(end):
                self.succeeds = True
            self.end = (end.loc if isinstance(end, Fault) else None, end)
            return wrongs, list(self.vague), list(self.note), list(self.read)
        return self.explore(path)

    # ---------------------------------------------------------- the judgement

    def type_named(self, name):
        mod, _, n = name.partition('.')
        m = self.base.mods.get('pyasn1_modules.' + mod)
        t = m._ns.get(n) if m is not None else None
        if not isinstance(t, type):
            return None
        return t

    def is_type(self, spec, name):
        t = self.type_named(name)
        if t is None:
            return None
        return same_type(spec, t)

    def expected(self, atoms):
        """The type the source is to be decoded as; None if there is none."""
        if len(atoms) != 1:
            return None
        a = atoms[0]
        if a[0] == 'block':
            return self.spec.get('pem', {}).get(self.read[a[1]])
        if a == ('dec', (('stdin',),)):
            return self.spec.get('base64')
        if a[0] == 'response':
            return 'rfc2560.OCSPResponse' if self.spec.get('client') == 'ocsp' else None
        if a[0] == 'reply':
            return 'rfc1157.Message' if self.spec.get('client') == 'snmp' else None
        if a[0] == 'field':
            j, path = a[1]
            parent = self.expected(self.sources[j][0])
            if parent == 'rfc2560.OCSPResponse' and path == ('responseBytes', 'response'):
                return 'rfc2560.BasicOCSPResponse'
            layer = self.spec.get('layers', {}).get(parent)
            if layer and path == tuple(layer[1].split('.')):
                c = self.memo.get(('oid', (j, tuple(layer[0].split('.')))))
                if c is None:
                    # a decoding of the same source may have been asked
                    for i, s in enumerate(self.sources):
                        if s[0] == self.sources[j][0]:
                            c = c or self.memo.get(('oid', (i, tuple(layer[0].split('.')))))
                if c is None:
                    return 'the type its %s says' % layer[0]
                return layer[2].get(c)
        return None

    def judge(self, end):
        """All that is wrong with this path."""
        codec = 'ber' if self.spec.get('client') == 'snmp' else 'der'
        if isinstance(end, Wrong):
            yield end
            return
        status = self.status(end)
        failed = status != 0
        loc = end.loc if isinstance(end, Fault) and end.loc else self.events[-1][2] if self.events else None
        touched = [e for e in self.events if e[0] in ('read', 'decode', 'post', 'send')]
        if not self.accepts():
            said = [e for e in self.events if e[0] in ('print', 'complain')]
            if touched:
                yield Wrong('bad-usage', 'with the arguments %s it goes to work' % (self.args,), touched[0][2])
            elif not failed:
                yield Wrong('bad-usage', 'with the arguments %s it ends with status 0' % (self.args,), loc)
            elif isinstance(end, Fault) and not isinstance(end.exc, SystemExit):
                yield Wrong('bad-usage', 'with the arguments %s it dies of %s' % (self.args, end), loc)
            elif not said and not isinstance(end.exc.code, (str, Text)):
                yield Wrong('bad-usage', 'with the arguments %s it says nothing' % (self.args,), loc)
            return
        # ------------------------------------------------- what is decoded as what
        want = set(self.spec.get('pem', ()))
        for labels, where in self.labels:
            for l in labels:
                if l not in want:
                    yield Wrong('wrong-marker', 'reads blocks marked %s' % l, where)
            for l in sorted(want - set(labels)):
                yield Wrong('wrong-marker', 'does not read blocks marked %s' % l, where)
        for atoms, spec, c, where in self.sources:
            e = self.expected(atoms)
            if e is None:
                if atoms == (('rest', 0),) or not any(a[0] in ('block', 'dec', 'field', 'response', 'reply')
                                                       for a in atoms):
                    yield Wrong('wrong-type', 'decodes %s' % self.describe(atoms), where)
                elif len(atoms) == 1 and atoms[0][0] == 'field':
                    known = self.layer_choice(atoms)
                    yield Wrong('wrong-type', 'decodes %s as %s although %s' % (
                        self.describe(atoms), _type(spec), 'its type is not known' if known and known.startswith('other')
                        else 'nothing says so'), where)
                elif len(atoms) == 1 and atoms[0][0] == 'trim':
                    yield Wrong('wrong-type', 'decodes %s' % self.describe(atoms), where)
                continue
            if self.type_named(e) is None and e.startswith('the type'):
                yield Wrong('wrong-type', 'decodes %s as %s, whatever its type' % (self.describe(atoms), _type(spec)),
                            where)
            elif self.is_type(spec, e) is False:
                yield Wrong('wrong-type', 'decodes %s as %s, not as %s' % (self.describe(atoms), _type(spec), e), where)
            if c != codec:
                yield Wrong('wrong-codec', 'decodes %s with the %s decoder' % (self.describe(atoms), c.upper()), where)
        for what, state in sorted(self.streams.items()):
            if state[0] != 'all' and not failed and self.memo.get(('nonempty', ((what,),))) is not False:
                yield Wrong('stops-early', 'reads at most %s bytes of %s, and does not look whether there are more' % (
                    state[2], 'its input' if what == 'stdin' else 'the answer'), state[1])
        if self.spec.get('client') == 'ocsp':
            for w in self.judge_ocsp(failed, loc):
                yield w
            return
        if self.spec.get('client') == 'snmp':
            for w in self.judge_snmp(failed, loc, end):
                yield w
            return
        for w in self.judge_dump(failed, loc, end, codec):
            yield w

    def layer_choice(self, atoms):
        j, path = atoms[0][1]
        for k, v in self.memo.items():
            if k[0] == 'oid' and k[1][0] == j:
                return v
        return None

    def accepts(self):
        args = list(self.args)
        if 'arity' in self.spec:
            return len(args) == self.spec['arity']
        return not args or args in self.spec.get('args', ())

    @staticmethod
    def status(end):
        if end is None:
            return 0
        if isinstance(end.exc, SystemExit):
            c = end.exc.code
            if c is None:
                return 0
            if isinstance(c, bool) or isinstance(c, int):
                return int(c) & 0xff
            return 1
        return 1

    def judge_dump(self, failed, loc, end, codec):
        known = all(not v.startswith('other') for k, v in self.memo.items() if k[0] == 'oid')
        false = [k for k, v in self.memo.items() if k[0] == 'verify' and v is False]
        rests = [k[1][0][1] for k, v in self.memo.items() if k[0] == 'nonempty' and k[1][0][0] == 'rest' and v]
        empty = any(k[0] == 'nonempty' and k[1][0][0] in ('dec', 'stdin') and not v for k, v in self.memo.items())
        base64 = 'base64' in self.spec
        if empty and base64 and not self.sources:
            if failed and not self.spec.get('content'):
                yield Wrong('fails', 'ends with %s although there was just nothing to do' % (end,), loc)
            elif not failed and self.spec.get('content'):
                yield Wrong('ignores-mismatch', 'ends as if all were well although there is no message', loc)
        if empty or self.cut:
            return
        if not self.sources and base64 and not failed:
            yield Wrong('not-decoded', 'ends without decoding its input', loc)
            return
        if self.spec.get('one') and not self.read:
            if not failed:
                yield Wrong('ignores-mismatch', 'ends as if all were well although there is no block', loc)
            return
        if false:
            if not failed:
                yield Wrong('ignores-mismatch', 'ends as if all were well although %s re-encodes differently'
                            % self.name_of((false[0][1], ())), loc)
            return
        if not known:
            if not failed:
                yield Wrong('ignores-mismatch', 'ends as if all were well although the content is of another type', loc)
            return
        inner = [j for j in rests if self.sources[j][0][0][0] == 'field']
        outer = [j for j in rests if j not in inner]
        if base64 and (outer or inner):
            if not failed:
                yield Wrong('ignores-mismatch', 'ends as if all were well although bytes follow %s' %
                            self.describe(self.sources[(outer or inner)[0]][0]), loc)
            return
        if inner:
            return
        if failed:
            yield Wrong('fails', 'ends with %s although nothing is wrong%s' % (
                end.exc.__class__.__name__ + ': ' + str(end) if isinstance(end, Fault) else 'a failure',
                ' but bytes after the object, which it is to drop' if outer else ''), loc)
            return
        # all of it is there, and the program ended well
        if not base64 and not self.spec.get('one') and not self.ended:
            yield Wrong('stops-early', 'ends before the end of the input', loc)
        out = [a for e in self.events if e[0] == 'print' for a in e[1]]
        shown = set(a[1] for a in out if a[0] == 'pretty')
        bysource = {}
        for j, (atoms, spec, c, where) in enumerate(self.sources):
            bysource.setdefault(atoms, []).append(j)
        for i, l in enumerate(self.read):
            if (('block', i),) not in bysource and l in self.spec['pem']:
                yield Wrong('not-decoded', 'block %d (%s) is not decoded' % (i + 1, l), self.events[-1][2])
        for atoms, js in sorted(bysource.items(), key=repr):
            for j in js:
                layer = self.spec.get('layers', {}).get(self.expected(atoms) or '')
                if layer and not self.spec.get('unchecked') or layer and atoms[0][0] != 'field':
                    content = (('field', (j, tuple(layer[1].split('.')))),)
                    if not any((('field', (i, tuple(layer[1].split('.')))),) in bysource for i in js):
                        yield Wrong('not-decoded', 'the content of %s is not decoded' % self.describe(atoms), loc)
                    break
            if base64 and not any(('nonempty', (('rest', j),)) in self.memo for j in js):
                yield Wrong('ignores-mismatch', 'ends as if all were well whether or not bytes follow %s'
                            % self.describe(atoms), self.sources[js[0]][3])
            if not any((j, ()) in shown for j in js):
                yield Wrong('not-printed', '%s is not printed' % self.describe(atoms), self.sources[js[0]][3])
            if self.spec.get('unchecked') and atoms[0][0] == 'field':
                continue
            checked = [j for j in js if any(self.memo.get(('verify', j, c)) for c in ('der', 'ber', 'cer'))]
            if not checked:
                yield Wrong('not-verified', 'what was decoded from %s is not compared with it' % self.describe(atoms),
                            self.sources[js[0]][3])
            elif not any(self.memo.get(('verify', j, codec)) for j in checked):
                yield Wrong('wrong-codec', 'what was decoded from %s is encoded in another way to compare it'
                            % self.describe(atoms), self.sources[js[0]][3])
        if not base64 and not self.spec.get('one'):
            last = [e for e in self.events if e[0] == 'print']
            text = ''.join(a[1] for a in last[-1][1] if a[0] == 'lit') if last else ''
            if str(len(self.read)) not in re.findall(r'\d+(?:\.\d+)?', text):
                yield Wrong('wrong-count', 'reports %r after %d blocks' % (text, len(self.read)),
                            last[-1][2] if last else loc)

    # ------------------------------------------------------------- requests

    def judge_ocsp(self, failed, loc):
        posts = [e for e in self.events if e[0] == 'post']
        certs = [j for j, s in enumerate(self.sources) if s[0][0][0] == 'block']
        src = dict((s[0][0][1], j) for j, s in enumerate(self.sources) if s[0][0][0] == 'block')
        if len(posts) > 1:
            yield Wrong('wrong-request', 'asks more than once', posts[1][2])
        for kind, (_, url, data, headers), where in posts:
            if len(certs) < 2:
                yield Wrong('wrong-request', 'asks before it has read two certificates', where)
                return
            ca, user = src.get(0), src.get(1)
            if not isinstance(url, Text) or url.atoms != (('arg', 0),):
                yield Wrong('wrong-request', 'asks another address than the one given', where)
            subject = (ca, ('tbsCertificate', 'subject'))
            issuer = (user, ('tbsCertificate', 'issuer'))
            x, y = sorted((subject, issuer), key=repr)
            if self.memo.get(('same', x, y)) is not True:
                yield Wrong('wrong-request', 'asks about a certificate without knowing that the first one issued it',
                            where)
            if not isinstance(headers, dict) or \
                    [str(v) for k, v in dict.items(headers) if str(k).lower() == 'content-type'] != \
                    ['application/ocsp-request']:
                yield Wrong('wrong-request', 'does not say that it sends an application/ocsp-request', where)
            if not isinstance(data, Text) or len(data.atoms) != 1 or data.atoms[0][0] != 'made':
                yield Wrong('wrong-request', 'does not send a request it has made', where)
                continue
            if data.atoms[0][2] != 'der':
                yield Wrong('wrong-codec', 'does not encode the request in DER', where)
            msg = self.built[data.atoms[0][1]]
            if self.is_type(type(msg), 'rfc2560.OCSPRequest') is False:
                yield Wrong('wrong-request', 'sends a %s' % _type(msg), where)
                continue
            tree = self.tree(msg)
            name = [self.atoms(('hash', 'sha1', (('enc', k, 'der'),))) for k in (issuer, subject)]
            key = (ca, ('tbsCertificate', 'subjectPublicKeyInfo', 'subjectPublicKey'))
            base = 'tbsRequest.requestList.0.reqCert.'
            for path, ok in ((base + 'hashAlgorithm.algorithm', [(1, 3, 14, 3, 2, 26)]),
                             (base + 'issuerNameHash', name),
                             (base + 'issuerKeyHash', [self.atoms(('hash', 'sha1', (('octets', key),)))]),
                             (base + 'serialNumber', [('part', (user, ('tbsCertificate', 'serialNumber')))])):
                if tree.get(path) not in ok:
                    yield Wrong('wrong-request', 'asks with %s = %s' % (path, self.say(tree.get(path))), where)
            for path, v in sorted(tree.items()):
                if not path.startswith(base) and not (path == 'tbsRequest.version' and v == 0):
                    yield Wrong('wrong-request', 'asks with %s = %s' % (path, self.say(v)), where)
        status = 'responseStatus',
        refused = any(v is (k[2] != 0) if k[1][1] == status and isinstance(k[2], int) else v is False
                      for k, v in self.memo.items() if k[0] == 'same') or \
            any(v.startswith('other') for k, v in self.memo.items() if k[0] == 'oid')
        rests = any(v for k, v in self.memo.items() if k[0] == 'nonempty')
        if self.cut or len(self.read) < 2:
            if not failed:
                yield Wrong('ignores-mismatch', 'ends as if all were well although there are not two certificates', loc)
            return
        if refused:
            if not failed:
                yield Wrong('ignores-mismatch', 'ends as if all were well although the certificates do not match or '
                            'there is no answer', loc)
            return
        if rests:
            return
        if failed:
            yield Wrong('fails', 'fails although nothing is wrong', loc)
            return
        if not posts:
            yield Wrong('wrong-request', 'ends without having asked', loc)
            return
        basic = [j for j, s in enumerate(self.sources) if self.expected(s[0]) == 'rfc2560.BasicOCSPResponse']
        rsp = [j for j, s in enumerate(self.sources) if self.expected(s[0]) == 'rfc2560.OCSPResponse']
        if not basic or not rsp:
            yield Wrong('not-decoded', 'does not decode the answer', loc)
            return
        if not any(k[0] == 'same' and k[1] == (rsp[0], ('responseStatus',)) and k[2] == 0 and v is True
                   for k, v in self.memo.items()):
            yield Wrong('not-verified', 'does not look whether the answer is a success', loc)
        out = [a for e in self.events if e[0] == 'print' for a in e[1]]
        single = ('tbsResponseData', 'responses', 0)
        left = out
        for what, kind, path in (('the serial number', 'pretty', single + ('certID', 'serialNumber')),
                                 ('the status', 'name', single + ('certStatus',)),
                                 ('when it was produced', 'pretty', ('tbsResponseData', 'producedAt')),
                                 ('its time', 'pretty', single + ('thisUpdate',))):
            a = (kind, (basic[0], path))
            if a not in out:
                yield Wrong('not-printed', 'does not print %s of the answer' % what, loc)
            elif a not in left:
                yield Wrong('not-printed', 'prints %s of the answer in the place of something else' % what, loc)
            else:
                left = left[left.index(a) + 1:]

    def judge_snmp(self, failed, loc, end):
        sends = [e for e in self.events if e[0] == 'send']
        if failed:
            yield Wrong('fails', 'fails although nothing is wrong: %s' % end, loc)
            return
        if not sends:
            yield Wrong('wrong-request', 'sends nothing', loc)
        if len(sends) > 1:
            yield Wrong('wrong-request', 'sends more than one message', sends[1][2])
        order = [e for e in self.events if e[0] in ('send', 'receive')]
        if order and order[0][0] == 'receive':
            yield Wrong('wrong-request', 'waits for an answer before it has asked', order[0][2])
        for kind, (family, sort, data, addr), where in sends:
            if (family, sort) != ('AF_INET', 'SOCK_DGRAM'):
                yield Wrong('wrong-request', 'sends over %s/%s' % (family, sort), where)
            if not isinstance(addr, tuple) or not isinstance(addr[0], Text) or addr[0].atoms != (('arg', 1),) or \
                    addr[1] != 161:
                yield Wrong('wrong-request', 'sends to another address than the host given, port 161', where)
            if not isinstance(data, Text) or len(data.atoms) != 1 or data.atoms[0][0] != 'made':
                yield Wrong('wrong-request', 'does not send a message it has made', where)
                continue
            if data.atoms[0][2] == 'cer':
                yield Wrong('wrong-codec', 'encodes the request in CER, without definite lengths', where)
            msg = self.built[data.atoms[0][1]]
            if self.is_type(type(msg), 'rfc1157.Message') is False:
                yield Wrong('wrong-request', 'sends a %s' % _type(msg), where)
                continue
            tree = self.tree(msg)
            pdu = 'data.get-request.'
            vb = pdu + 'variable-bindings.0.'
            want = {'version': [0], 'community': [(('arg', 0),)], pdu + 'request-id': None,
                    pdu + 'error-status': [0], pdu + 'error-index': [0],
                    vb + 'name': [(('arg', 2),)], vb + 'value.simple.empty': None}
            for path, ok in sorted(want.items()):
                if path not in tree or ok is not None and tree[path] not in ok:
                    yield Wrong('wrong-request', 'sends %s = %s' % (path, self.say(tree.get(path))), where)
            for path in sorted(set(tree) - set(want)):
                yield Wrong('wrong-request', 'sends %s = %s' % (path, self.say(tree[path])), where)
        got = [j for j, s in enumerate(self.sources) if self.expected(s[0]) == 'rfc1157.Message']
        if not got:
            yield Wrong('not-decoded', 'does not decode the answer', loc)
            return
        out = [a for e in self.events if e[0] == 'print' for a in e[1]]
        if ('pretty', (got[0], ())) not in out:
            yield Wrong('not-printed', 'does not print the answer', loc)

    def atoms(self, *a):
        return Text(a).atoms

    def tree(self, obj, path=''):
        """{path: value} of the components of a message the tool has made."""
        if isinstance(obj, Part):
            return {path: ('part', obj.key)}
        if is_unknown(obj):
            raise NeedsJoin('component')
        if not isinstance(obj, ConstructedAsn1Type):
            v = getattr(obj, '_value', obj)      # a plain value where a type of the schema is broken
            if isinstance(v, Part):
                v = ('part', v.key)
            elif isinstance(v, Text):
                v = v.atoms
            return {path: v}
        out = {}
        names = None
        if not hasattr(obj, 'append'):
            names = [nt.name for nt in obj.componentType.namedTypes]
        for k, v in obj._vals.items():
            if isinstance(v, SimpleAsn1Type) and not v.isValue and v.kind != 'NULL':
                continue
            n = str(k) if names is None else names[k]
            out.update(self.tree(v, '%s.%s' % (path, n) if path else n))
        return out

    def say(self, v):
        if v is None:
            return 'nothing'
        if isinstance(v, tuple) and v and v[0] == 'part':
            return self.name_of(v[1])
        if isinstance(v, tuple) and v and isinstance(v[0], tuple):
            return ' + '.join('%s(%s)' % (a[1], self.say(a[2])) if a[0] == 'hash' else
                              '%s of %s' % (a[0], self.name_of(a[1])) if a[0] in ('enc', 'octets', 'field', 'pretty')
                              else str(a) for a in v)
        return repr(v)


def _type(spec):
    if spec is None:
        return 'no particular type'
    cls = spec if isinstance(spec, type) else type(spec)
    m = getattr(cls, '_module', None)
    return '%s.%s' % (str(m).split('.')[-1], cls.__name__) if m else cls.__name__


def _hashable(v):
    try:
        hash(v)
        return v
    except TypeError:
        return repr(v)


DECODING = ('wrong-type', 'wrong-marker', 'wrong-codec', 'wrong-input', 'not-decoded', 'missing-tool')
ACCOUNT = ('not-verified', 'not-printed', 'wrong-count', 'bad-usage', 'ignores-mismatch', 'fails', 'stops-early',
           'never-ends')
REQUEST = ('wrong-request',)


def named_oids(path, base):
    """The object identifiers a program names: constants of the package, tuples and dotted text."""
    out = set()
    for n in ast.walk(parse_file(path)[0]):
        v = None
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            m = base.mods.get('pyasn1_modules.' + n.value.id)
            v = m._ns.get(n.attr) if m is not None else None
            v = v._value if isinstance(v, SimpleAsn1Type) and view(v).kind == 'OBJECT IDENTIFIER' else None
        elif isinstance(n, ast.Tuple):
            v = tuple(getattr(x, 'value', None) for x in n.elts)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(r'[0-2](\.\d+){2,}$', n.value):
            v = oid(n.value)
        if isinstance(v, tuple) and len(v) > 2 and all(type(x) is int for x in v) and 0 <= v[0] <= 2:
            out.add('.'.join(map(str, v)))
    return out


def command_lines(name):
    spec = TOOLS[name]
    if 'arity' in spec:
        return [[Text([('arg', i)]) for i in range(n)] for n in range(0, 6)]
    return [[], ['-d'], ['-x'], ['a', 'b'], ['-d', 'b'], ['a', 'b', 'c'], ['-d', '-d']]


class Ended(object):
    """A stream at its end."""
    def readline(self, *a):
        return ''

    read = readline

    def readlines(self, *a):
        return []

    def __iter__(self):
        return iter(())


def nothing(root, version, api):
    """What the block reader of this tree gives at the end of its input."""
    ex = Explorer(root, version, api)

    def path(ex):
        w = PathWorld(ex, root, version, api)
        try:
            v = w.call(w.load(PEM).get('readPemBlocksFromFile'), [Ended(), ('a', 'b'), ('c', 'd')], {}, None)
        except (Fault, NeedsJoin, Budget, AttributeError):
            return ()
        return v if isinstance(v, (tuple, list)) else ()
    try:
        for v in ex.explore(path):
            if len(v) == 2 and isinstance(v[1], (Text, str, bytes)):
                return ex.empty(v[1].kind if isinstance(v[1], Text) else 'bytes' if isinstance(v[1], bytes) else 'str')
    except TooMany:
        pass
    return ''


def analyse(root, api, bases, thorough):
    """([(tool, version, args, wrongs...)], stats)."""
    findings, unresolved = {}, []
    stats = {'tools': 0, 'command_lines': 0, 'paths': 0, 'decodings': 0, 'paths_unresolved': 0, 'forks': 0}
    out, missing, ended = [], [], {}
    for name in sorted(TOOLS):
        path = os.path.join(root, 'tools', name + '.py')
        if not os.path.isfile(path):
            missing.append(name)
            continue
        try:
            parse_file(path)
        except SyntaxError as e:
            out.append(Finding('missing-tool', name, ('tools/%s.py' % name, e.lineno or 1), 'does not parse'))
            continue
        stats['tools'] += 1
        for version, base in bases:
            if version not in ended:
                ended[version] = nothing(root, version, api)
            for args, straight in [(a, 0) for a in command_lines(name)] + \
                    ([([], 1100 if 'pem' in TOOLS[name] else 40)] if 'arity' not in TOOLS[name] else []):
                blocks = (3 if thorough else 2) if len(TOOLS[name].get('pem', ())) > 1 else 4 if thorough else 3
                t = Tool(root, version, api, name, base, args, blocks, straight)
                Text.explorer, t.nothing = t, ended[version]
                stats['command_lines'] += 1
                clear = t.accepts()
                try:
                    for wrongs, vague, note, read in t.walk():
                        stats['decodings'] += len(t.sources)
                        if vague or wrongs:
                            clear = False
                        if vague:
                            stats['paths_unresolved'] += 1
                            unresolved.append('%s: %s' % (name, '; '.join(sorted(set(vague)))))
                        for w in wrongs:
                            key = (w.rule, name, re.sub(r'block \d+', 'block', w.text)
                                   if w.rule in ('wrong-marker', 'wrong-request', 'wrong-type') else '')
                            old = findings.get(key)
                            if old is None or len(note) < len(old[1]):
                                findings[key] = (w, note, version, args, read)
                except TooMany:
                    clear = False
                    unresolved.append('%s: too many paths' % name)
                if clear and not t.succeeds:
                    findings.setdefault(('fails', name, ''), (
                        Wrong('fails', 'ends with %s whatever its input is' % (t.end[1],), t.end[0]), [], version, args, []))
                stats['paths'] += t.paths
                stats['forks'] += t.forks
    for (rule, name, _), (w, note, version, args, read) in sorted(findings.items(), key=lambda x: x[0]):
        f = Finding(rule, name, w.loc or ('tools/%s.py' % name, 1), w.text)
        f.trace = ['Python %d.%d, arguments %s, %s' % (
            version[0], version[1], list(map(str, args)), 'blocks %s' % read if len(read) < 10 else '%d blocks' % len(read))] + \
            ['where ' + n for n in note[:30]]
        out.append(f)
    for name in missing:
        out.append(Finding('missing-tool', name, ('tools/%s.py' % name, 1), 'there is no tool %s' % name))
    return out, stats, sorted(set(unresolved))
