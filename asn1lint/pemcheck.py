"""Block selection and payload of pem.py, decided by exploring the abstract
states of the reader against a reference automaton."""
import ast
import os

from .compare import Finding
from .interp import ADict, Budget, Fault, Func
from .lattice import NeedsJoin, is_unknown
from .model import Here
from .paths import Explorer, Exit, PathWorld, Stop, Text, TooMany

PEM = 'pyasn1_modules.pem'


class Wrong(BaseException):
    def __init__(self, kind, text):
        self.kind, self.text = kind, text


class Gone(Exception):
    """The function is not there."""


class Stream(object):
    """The open file: its lines are classes, chosen as they are read."""

    def __init__(self, ex):
        self.ex = ex

    def readline(self, *a):
        if a and a[0] is not None and (is_unknown(a[0]) or not isinstance(a[0], int)):
            raise NeedsJoin('number of characters to read')
        return self.ex.next_line(bool(a) and a[0] is not None and a[0] >= 0)

    def __iter__(self):
        while True:
            l = self.ex.next_line()
            if isinstance(l, str) or isinstance(l, bytes):
                return
            yield l

    def next(self):
        l = self.ex.next_line()
        if not isinstance(l, Text):
            raise StopIteration
        return l
    __next__ = next

    def read(self, size=None, *a):
        if is_unknown(size):
            raise NeedsJoin('number of characters to read')
        return self.ex.read_all(size if isinstance(size, int) and size >= 0 else None)

    def readlines(self, *a):
        raise Wrong('reads-past', 'reads all of the input, not just up to the end marker')

    def close(self):
        raise Wrong('closes', 'closes the file it was given')

    def tell(self):
        raise NeedsJoin('position')


class Reader(Explorer):
    """Explores one reading function for n marker pairs."""
    DEPTH = 60
    LIMIT = 6000
    LINES = 20000
    reads = 0

    def __init__(self, root, version, api, n, literal=None, script=None, earlier=None):
        Explorer.__init__(self, root, version, api)
        self.n = n
        self.order = range(n)
        self.earlier = earlier          # (markers, lines, in the same file) of a call before this one, or None
        self.base, self.file_ = 0, None
        self.script = script            # the lines of one long input, or None
        if script:
            self.LIMIT = 50
        self.literal = literal          # [(start, stop)] concrete markers, or None
        self.seen = {}                  # state: fewest lines it was reached with
        self.closed = True
        self.options = ['payload', 'blank'] + [(s, k) for k in range(n) for s in ('start', 'stop')] + ['eof']
        if literal:
            self.literal_markers = frozenset(x for p in literal for x in p)

    def marker(self, side, k):
        if self.literal:
            return self.literal[k][0 if side == 'start' else 1]
        return Text([('mark', side, k)])

    def pairs(self):
        return [(self.marker('start', k), self.marker('stop', k)) for k in self.order]

    def first(self, side):
        return self.marker(side, self.order[0])

    def file(self):
        if self.file_ is None:
            self.file_ = Stream(self)
        return self.file_

    def before(self, call, w, m):
        """An earlier call, whose result another check judges."""
        order, script, same = self.earlier
        self.order, self.script, self.file_ = order, script, None
        try:
            call(self, w, m)
        except (Fault, Wrong):
            raise Stop()
        ended = self.state in ('done', 'eof', 'cut')
        self.order, self.script = range(self.n), None
        if not same:
            self.file_ = None
        lines = self.lines
        self.reset()
        self.lines, self.base = lines, len(lines)
        if not ended:
            raise Stop()

    # ---------------------------------------------------------- the reference

    def reset(self):
        self.state, self.idx, self.held, self.lines = 'outside', -1, [], []
        self.whole = False
        self.rest, self.last = None, False
        self.base = 0

    def advance(self, cls, i):
        if cls == 'eof':
            self.state = 'eof' if self.state == 'outside' else 'cut'
        elif cls[0] == 'tail':
            pass
        elif self.state == 'outside':
            if cls[0] == 'start':
                self.state, self.idx = 'inside', cls[1]
        elif self.state == 'inside':
            if cls == ('stop', self.idx):
                self.state = 'done'
            else:
                self.held.append(i)

    # --------------------------------------------------------------- the file

    def next_line(self, limited=False):
        if self.whole:
            return self.empty('str')
        if self.rest is not None:
            rest, self.rest = self.rest, None
            return rest
        if self.last:
            if self.state in ('outside', 'inside'):
                self.lines.append('eof')
                self.advance('eof', None)
            return ''
        if self.state == 'done':
            raise Wrong('reads-past', 'goes on reading after the end marker of the block')
        if self.state in ('eof', 'cut'):
            return ''
        if self.script:
            cls = self.script[len(self.lines)] if len(self.lines) < len(self.script) else 'eof'
            i = len(self.lines)
            self.lines.append(cls)
            self.classes[i] = cls if cls in ('payload', 'blank') else 'mark'
            self.advance(cls, i)
            return '' if cls == 'eof' else Text([('raw', i)])
        if len(self.taken) >= len(self.prefix):
            key = self.key()
            depth = len(self.lines) - self.base
            if key in self.seen and (self.DEPTH >= 12 or self.seen[key] <= depth):
                raise Stop()
            self.seen[key] = depth
            if depth >= self.DEPTH:
                self.closed = False
                raise Stop()
        # a line longer than what is read at a time may end in the text of a marker
        tails = [('tail', k) for k in range(self.n)] if limited and self.state == 'outside' else []
        cls = self.pick(self.options + tails)
        self.reads += 1
        if self.reads > self.LINES:
            raise TooMany()
        i = len(self.lines)
        if cls[0] == 'tail':
            self.lines.append(cls)
            self.classes[i] = 'payload'
            self.rest = self.concat([self.text(self.marker('start', cls[1])), self.text('\n')])
            return Text([('part', i)])
        self.lines.append(cls)
        self.classes[i] = cls if cls in ('payload', 'blank') else 'mark'
        self.advance(cls, i)
        if cls == 'eof':
            return ''
        return Text([('raw', i)])

    def read_all(self, size=None):
        if self.lines:
            raise Wrong('reads-past', 'reads all the rest of the input')
        raise Wrong('reads-past', 'reads all of the input, not just up to the end marker')

    def stripped(self, i, kind='str'):
        cls = self.lines[i]
        if cls == 'payload':
            return Text([('line', i)], kind)
        if cls == 'blank':
            return self.empty(kind)
        m = self.marker(*cls)
        return m

    # -------------------------------------------------------------- the state

    def key(self):
        held = [self.stripped(i) for i in self.held]
        out = [self.state, self.idx, self.last, min(len(held), 2), min(len([h for h in held if h]), 2)]
        if len(self.world.frames) > 40:
            raise TooMany()             # a call for each line: no end of states
        for f, scope, loc in self.world.frames:
            out.append((id(f.node), loc, self.vars(scope)))
        out.append(Here.loc)
        for scope in self.generators:
            out.append(self.vars(scope))
        m = self.world.mods[PEM]
        out.append(tuple((k, self.canon(v)) for k, v in sorted(m._ns.items())
                         if isinstance(v, (int, str, list, ADict, set)) and not k.startswith('__')))
        return tuple(out)

    def vars(self, scope):
        if scope is None:
            return None
        return tuple((k, self.canon(v)) for k, v in sorted(scope.vars.items()))

    def canon(self, v, depth=0):
        if depth > 6:
            return 'deep'
        if isinstance(v, Text):
            return self.canon_text(v)
        if isinstance(v, int) and not isinstance(v, bool) and not -8 < v < 8:
            return ('int', 'large')     # counters
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return (type(v).__name__, v)
        if isinstance(v, (list, tuple)):
            t = self.tracks(v)
            return t or (type(v).__name__,) + tuple(self.canon(x, depth + 1) for x in v)
        if isinstance(v, dict):
            return ('dict',) + tuple(sorted(((repr(self.canon(k, depth + 1)), repr(self.canon(x, depth + 1)))
                                             for k, x in dict.items(v))))
        if isinstance(v, (set, frozenset)):
            return ('set',) + tuple(sorted(repr(self.canon(x, depth + 1)) for x in v))
        if isinstance(v, Func):
            return ('func', id(v.node))
        if isinstance(v, Stream):
            return 'file'
        if hasattr(v, '__dict__') and not isinstance(v, type) and type(v).__dict__.get('_module'):
            return ('object', type(v).__name__) + tuple(
                (k, self.canon(x, depth + 1)) for k, x in sorted(v.__dict__.items()))
        return ('opaque', type(v).__name__)

    def forms(self):
        """The texts a reader may keep of the lines it holds."""
        raws = [Text([('raw', i)]) for i in self.held]
        strs = [self.stripped(i) for i in self.held]
        for name, ls in (('lines', strs), ('raw', raws)):
            for sub, xs in (('', ls), ('nonblank ', [x for i, x in zip(self.held, ls)
                                                    if self.classes.get(i) != 'blank'])):
                if not xs:
                    continue
                xs = [self.text(x) for x in xs]
                yield sub + name, xs
                yield sub + name + ' bytes', [Text(x.atoms, 'bytes') for x in xs]
                yield sub + name + ' decoded', [self.text(self.b64decode(x)) for x in xs]

    def tracks(self, v):
        if not v or not all(isinstance(x, (Text, str, bytes)) for x in v):
            return None
        ids = [(self.text(x).atoms, self.text(x).kind) for x in v]
        for name, xs in self.forms():
            if ids == [(x.atoms, x.kind) for x in xs]:
                return 'the %s held' % name
        return None

    def canon_text(self, v):
        for name, xs in self.forms():
            for sep in ('', '\n'):
                for tail in ('', sep):
                    j = []
                    for i, x in enumerate(xs):
                        if i and sep:
                            j.append(('lit', sep))
                        j.extend(x.atoms)
                    if tail:
                        j.append(('lit', tail))
                    if Text(j).atoms == v.atoms:
                        return ('join of %s %r %r' % (name, sep, tail), v.kind)
        now = len(self.lines) - 1
        return ('text', v.kind) + tuple(
            (a[0], a[1] - now) + tuple(a[2:]) if a[0] in ('raw', 'line', 'half') and isinstance(a[1], int) else a
            for a in v.atoms)

    # ---------------------------------------------------------------- results

    def payload(self):
        out = []
        for i in self.held:
            out.extend(self.text(self.stripped(i)).atoms)
        return out

    def flatten(self, atoms, decoded):
        """The atoms whose decoding a result is."""
        out = []
        for a in atoms:
            if a[0] == 'dec' and not decoded:
                out.extend(self.flatten(a[1], True))
            elif a[0] == 'nows':
                out.extend(self.flatten(a[1], decoded))
            elif not decoded:
                raise Wrong('not-decoded', 'returns %s without decoding it' % (_atom(a),))
            elif a[0] in ('raw', 'half') and isinstance(a[1], int):
                out.extend(self.text(self.stripped(a[1])).atoms)
            elif a[0] == 'lit':
                # white space is no character of the alphabet
                bare = ''.join(a[1].split())
                if bare:
                    out.append(('lit', bare))
            elif a[0] == 'dec':
                raise Wrong('altered', 'decodes twice')
            elif a[0] in ('op', 'trim'):
                raise Wrong('altered', 'changes the text (%s) before decoding it' % (a[1],))
            else:
                out.append(a)
        # adjacent literals (the texts of concrete markers) may have merged
        return Text(out).atoms

    def judge(self, value, index=True):
        if is_unknown(value):
            raise NeedsJoin('result')
        if index:
            if not isinstance(value, (tuple, list)) or len(value) != 2:
                raise Wrong('wrong-result', 'returns %r, not an (index, substrate) pair' % (_val(value),))
            idx, sub = value
        else:
            idx, sub = self.idx, value
        if is_unknown(idx) or is_unknown(sub):
            raise NeedsJoin('result')
        if self.state in ('outside', 'inside'):
            raise Wrong('stops-early', 'returns %s with the %s' % (
                _val(value), 'block still open' if self.state == 'inside' else 'input not finished and no block found'))
        if self.state == 'eof' and not (isinstance(idx, int) and idx == -1):
            raise Wrong('wrong-index', 'gives index %s where there is no block' % _val(idx))
        if self.state == 'done' and not (isinstance(idx, int) and idx == self.idx):
            raise Wrong('wrong-index', 'gives index %s for a block of pair %s' % (_val(idx), self.idx))
        if not isinstance(sub, (Text, str, bytes)):
            raise Wrong('wrong-result', 'gives %s as the substrate' % _val(sub))
        sub = self.text(sub)
        if self.state in ('eof', 'cut'):
            if sub.atoms:
                raise Wrong('wrong-extent', 'gives a substrate although %s' % (
                    'the block is not complete' if self.state == 'cut' else 'there is no block'))
            return
        want = self.flatten(Text(self.payload()).atoms, True)
        got = self.flatten(sub.atoms, False)
        if got != want:
            raise Wrong('wrong-extent', 'decodes %s where the block holds %s' % (_atoms(got), _atoms(want)))
        if len([a for a in sub.atoms if a[0] == 'dec']) > 1:
            raise Wrong('in-pieces', 'decodes the payload in pieces, but a line need not end where a group of four '
                        'characters does')
        if sub.atoms and self.py3 and sub.kind != 'bytes':
            raise Wrong('altered', 'gives text, not bytes')

    def run(self, call, index=True):
        def path(ex):
            self.reset()
            self.file_ = None
            self.world = w = PathWorld(self, self.root, self.version, self.api)
            try:
                m = w.load(PEM)
                if self.earlier:
                    self.before(call, w, m)
                return (call(self, w, m), self.state, list(self.lines), list(self.note), list(self.vague), self.base)
            except Wrong as e:
                return (e, self.state, list(self.lines), list(self.note), list(self.vague), self.base)
            except Fault as f:
                return (Wrong('raises', 'raises %s' % f), self.state, list(self.lines), list(self.note),
                        list(self.vague), self.base)
            except Budget:
                return (Wrong('never-returns', 'does not come to an end'), self.state, list(self.lines),
                        list(self.note), list(self.vague), self.base)
            except NeedsJoin as e:
                return (None, self.state, list(self.lines), list(self.note), list(self.vague) + [str(e)], self.base)
        bad = []
        for v, state, lines, notes, vague, base in self.explore(path):
            try:
                if isinstance(v, Wrong):
                    raise v
                if not vague:
                    self.resume(state, lines, base)
                    self.judge(v, index)
            except Wrong as e:
                bad.append((e, lines, notes, vague))
                if self.enough(bad):
                    self.closed = False
                    break
                continue
            except NeedsJoin as e:
                vague = vague + [str(e)]
            if vague:
                bad.append((None, lines, notes, vague))
        return bad

    ENOUGH = 12

    def enough(self, bad):
        return sum(1 for b in bad if b[0] is not None and not b[3]) >= self.ENOUGH

    def resume(self, state, lines, base=0):
        self.reset()
        self.lines, self.base = lines, base
        self.classes = {}
        for i, cls in enumerate(lines):
            self.classes[i] = cls if cls in ('payload', 'blank') else 'payload' if cls[0] == 'tail' else 'mark'
            if i >= base:
                self.advance(cls, i)

    def ends_line(self, atom):
        if atom[0] in ('part', 'line', 'mark'):
            return False
        if atom[0] == 'lit':
            return atom[1].endswith('\n')
        if atom[0] == 'raw':
            if self.script:
                return True
            ends = self.decide(('ends in a line break', atom[1]))
            if not ends:
                self.last = True        # only the last line of the input may not
            return ends
        return None

    def length(self, atoms):
        """In the long input every line of the payload has 64 characters, every
        marker 30."""
        if not self.script:
            return None
        n = 0
        for a in atoms:
            if a[0] == 'lit':
                n += len(a[1])
            elif a[0] == 'mark':
                n += 30
            elif a[0] in ('line', 'raw') and self.classes.get(a[1]) == 'payload':
                n += 64 + (a[0] == 'raw')
            elif a[0] == 'raw':
                n += 1 if self.classes.get(a[1]) == 'blank' else 31
            elif a[0] == 'dec' and all(b[0] == 'line' for b in a[1]):
                n += self.length(a[1]) // 4 * 3
            else:
                return None
        return n


# what an earlier call in the same program was given: numbers of the marker
# pairs, lines, and whether the next call reads on in the same file
EARLIER = [
    ((0,), ['payload', ('start', 0), 'payload', 'payload', ('stop', 0)], True),
    ((0,), [('start', 0), 'payload'], False),
    ((0,), ['payload'], False),
    ((5,), [('start', 5), 'payload', ('stop', 5)], False),
    ((1, 0), [('start', 1), 'payload', ('stop', 1)], True),
    ((0, 1), [('start', 1), 'payload', ('stop', 1)], False),
    ((5, 6), [('start', 6), 'payload', ('stop', 6)], False),
]


# many lines that are no part of a block, then a block of many lines
LONG = ['payload'] * 3000 + ['blank', 'payload', ('start', 1)] + ['payload'] * 6000 + [('stop', 1)]


def _atom(a):
    if a[0] == 'line':
        return 'line %s' % a[1]
    if a[0] == 'mark':
        return 'the %s marker of pair %d' % (a[1], a[2])
    if a[0] == 'lit':
        return repr(a[1])
    if a[0] == 'all':
        return 'the text'
    return '%s %s' % (a[0], a[1] if len(a) > 1 else '')


def _atoms(atoms):
    if len(atoms) > 12:
        return '[%s, ... (%d in all)]' % (', '.join(map(_atom, atoms[:4])), len(atoms))
    return '[%s]' % ', '.join(map(_atom, atoms)) if atoms else 'nothing'


def _val(v):
    if isinstance(v, (tuple, list)):
        return '(%s)' % ', '.join(map(_val, v))
    if isinstance(v, Text):
        return _atoms(v.atoms)
    return repr(v)


def _lines(lines):
    out = []
    for l in lines:
        l = l if isinstance(l, str) else 'a long line that ends like start marker %d' % l[1] if l[0] == 'tail' else \
            '%s marker of pair %d' % l
        if out and out[-1][0] == l:
            out[-1][1] += 1
        else:
            out.append([l, 1])
    return ', '.join(l if n == 1 else '%d %s lines' % (n, l) for l, n in out) or 'nothing'


SELECTION = ('reads-past', 'stops-early', 'wrong-index', 'wrong-extent', 'raises', 'never-returns', 'wrong-result',
             'closes')
PAYLOAD = ('wrong-extent', 'in-pieces', 'not-decoded', 'altered', 'raises', 'wrong-result')


def find(w, name):
    m = w.load(PEM)
    if name not in m._ns:
        raise Gone(name)
    return m._ns[name]


def attempt(ex, depth, call, index):
    ex.DEPTH = depth
    try:
        return ex, ex.run(call, index)
    except TooMany:
        ex.closed = False
        return ex, None


VERSIONS = ((3, 12, 3), (2, 7, 18))


def blocks(root, api, thorough, versions=VERSIONS, brief=False):
    """Explore the block readers: ([(function, Wrong or None, ...)], stats)."""
    out = []
    stats = {'configurations': 0, 'paths': 0, 'states': 0, 'merged': 0, 'configurations_closed': 0, 'earlier_calls': 0}
    for version in versions:
        jobs = []
        for n in (0, 1, 2) + ((3,) if thorough else ()):
            jobs.append(('readPemBlocksFromFile', n, None,
                         lambda ex, w, m: w.call(find(w, 'readPemBlocksFromFile'),
                                                 [ex.file()] + ex.pairs(), {}, None), True))
        lit = [('-----BEGIN CERTIFICATE-----', '-----END CERTIFICATE-----')]
        jobs.append(('readPemFromFile', 1, lit,
                     lambda ex, w, m: w.call(find(w, 'readPemFromFile'), [ex.file()], {}, None), False))
        jobs.append(('readPemFromFile', 1, None,
                     lambda ex, w, m: w.call(find(w, 'readPemFromFile'), [ex.file()],
                                             {'startMarker': ex.first('start'), 'endMarker': ex.first('stop')},
                                             None), False))
        jobs.append(('readPemFromFile', 1, None,
                     lambda ex, w, m: w.call(find(w, 'readPemFromFile'),
                                             [ex.file(), ex.first('start'), ex.first('stop')], {}, None),
                     False))
        for name, n, literal, call, index in jobs:
            stats['configurations'] += 1
            # all inputs of a few lines first: a reader that keeps too much has no end of states
            ex, bad = attempt(Reader(root, version, api, n, literal), 6 if n < 2 else 5, call, index)
            bad = bad if bad is not None else [(None, [], [], ['too many paths'])]
            if n == 2 and not brief:
                long = attempt(Reader(root, version, api, n, literal, LONG), 1 << 30, call, index)[1]
                if long is not None and long and long[0][0] is not None and not long[0][3]:
                    out.append((name, n, version, long, True))
            if not brief and not any(e is not None and not vague for e, _, _, vague in bad):
                full = Reader(root, version, api, n, literal)
                got = attempt(full, 90 if thorough else 60, call, index)[1]
                if got is not None:
                    ex, bad = full, got
                    for earlier in EARLIER if n else ():
                        if len(earlier[0]) != n or literal and earlier[0] != (0,):
                            continue
                        again = Reader(root, version, api, n, literal, None, earlier)
                        got = attempt(again, 3, call, index)[1]
                        stats['paths'] += again.paths
                        stats['earlier_calls'] += 1
                        out.append((name, n, version, [(e and Wrong(e.kind, 'called a second time, ' + e.text), l, o, v)
                                                       for e, l, o, v in got or () if e is not None], True))
            stats['paths'] += ex.paths
            stats['states'] += len(ex.seen)
            stats['merged'] += ex.merged
            stats['configurations_closed'] += ex.closed
            out.append((name, n, version, bad, ex.closed))
    return out, stats


class Base64(Explorer):
    """Explores the plain base64 readers."""

    def read_all(self, size=None):
        # a limited read may have got all, but only the next one tells
        self.part = size if size is not None and not self.n else None
        if self.n:
            return ''
        self.n += 1
        return Text([self.atom])

    part = None

    def next_line(self):
        raise NeedsJoin('line by line')

    atom = ('all',)

    def run(self, name, whole, earlier=False):
        bad = []

        def path(ex):
            self.n, self.atom, self.part = 0, ('all',), None
            w = PathWorld(self, self.root, self.version, self.api)
            try:
                f = find(w, name)
                if earlier:
                    self.atom = ('all', 'earlier')
                    try:
                        w.call(f, [Stream(self) if whole else Text([self.atom])], {}, None)
                    except (Fault, Wrong):
                        raise Stop()
                    self.n, self.atom, self.part = 0, ('all',), None
                v = w.call(f, [Stream(self) if whole else Text([('all',)])], {}, None)
                if self.part is not None and self.memo.get(('nonempty', (self.atom,))) is not False:
                    raise Wrong('wrong-extent', 'reads at most %d characters of the input' % self.part)
                return v, list(self.vague)
            except (Wrong, Fault) as e:
                return e, list(self.vague)
            except (NeedsJoin, Budget) as e:
                return None, list(self.vague) + [str(e)]
        for v, vague in self.explore(path):
            e = None
            if isinstance(v, Wrong):
                e = v
            elif isinstance(v, Fault):
                e = Wrong('raises', 'raises %s' % v)
            elif not vague and not is_unknown(v):
                if not isinstance(v, (Text, str, bytes)):
                    e = Wrong('wrong-result', 'returns %s' % _val(v))
                else:
                    try:
                        r = Reader(self.root, self.version, self.api, 0)
                        r.reset()
                        Text.explorer = r
                        t = r.text(v)
                        got = r.flatten(t.atoms, False)
                        empty = any(k[0] == 'nonempty' and x is False for k, x in self.memo.items())
                        if got != (('all',),) and not (empty and not got):
                            e = Wrong('wrong-extent', 'decodes %s, not all of the text' % _atoms(got))
                        elif self.py3 and t.kind != 'bytes' and got:
                            e = Wrong('altered', 'gives text, not bytes')
                    except Wrong as x:
                        e = x
            else:
                vague = vague or ['result']
            bad.append((e, [], [], vague))
        return bad


def base64_readers(root, api, versions=VERSIONS):
    out = []
    stats = {'base64_paths': 0}
    for version in versions:
        for name, whole in (('readBase64fromText', False), ('readBase64FromFile', True)):
            ex = Base64(root, version, api)
            bad = ex.run(name, whole)
            stats['base64_paths'] += ex.paths
            out.append((name, 0, version, [b for b in bad if b[0] is not None or b[3]], True))
            for e, lines, notes, vague in ex.run(name, whole, True) if not out[-1][3] else ():
                if e is not None and not vague:
                    out.append((name, 0, version, [(Wrong(e.kind, 'called a second time, ' + e.text), lines, notes,
                                                    vague)], True))
    return out, stats


def findings(results, kinds, where_of, rel='pyasn1_modules/pem.py'):
    """One finding per kind of wrong and function, with the shortest input."""
    best, unresolved = {}, []
    for name, n, version, bad, closed in results:
        for e, lines, notes, vague in bad:
            where = 'pem.%s' % name
            if vague:
                unresolved.append('%s with %d marker pairs: %s' % (where, n, '; '.join(sorted(set(vague)))))
                continue
            if e is None or kinds is not None and e.kind not in kinds:
                continue
            old = best.get((where, e.kind))
            if old is None or len(lines) < len(old[1]):
                best[where, e.kind] = (e, lines, notes, n, version)
    out = []
    for (where, kind), (e, lines, notes, n, version) in sorted(best.items()):
        f = Finding(kind, where, (rel, where_of(where.split('.')[1])), e.text)
        f.trace = ['Python %d.%d, %d marker pairs; lines read: %s' % (version[0], version[1], n, _lines(lines))] + \
            ['where ' + x for x in notes]
        out.append(f)
    return out, unresolved


def lines_of(root):
    """{function: line} of pem.py, for the reports."""
    with open(os.path.join(root, 'pyasn1_modules', 'pem.py')) as f:
        tree = ast.parse(f.read())
    out = dict((x.name, x.lineno) for x in ast.walk(tree) if isinstance(x, ast.FunctionDef))
    return lambda name: out.get(name, 1)
