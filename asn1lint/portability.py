"""What the oldest and the newest Python the package claims would not accept.

The source is judged construct by construct: its grammar, the builtins and
standard modules it uses where neither a version test nor an exception handler
guards them, and its encoding.  Whether the modules then declare the same on
each version is decided by elaborating them for each.
"""
import ast
import glob
import os
import re
import tokenize

from .compare import Finding

PY2, OLD3 = (2, 7), (3, 5)

# builtins that exist in one of the supported versions but not in all of them
ONLY2 = set('unicode basestring long xrange raw_input reduce unichr execfile file apply buffer cmp coerce intern '
            'reload StandardError'.split())
ONLY3 = set('ascii exec_ BlockingIOError BrokenPipeError ChildProcessError ConnectionAbortedError ConnectionError '
            'ConnectionRefusedError ConnectionResetError FileExistsError FileNotFoundError InterruptedError '
            'IsADirectoryError NotADirectoryError PermissionError ProcessLookupError RecursionError ResourceWarning '
            'StopAsyncIteration TimeoutError __build_class__'.split())
NEWER = set('ModuleNotFoundError EncodingWarning BaseExceptionGroup ExceptionGroup PythonFinalizationError aiter anext '
            'breakpoint'.split())
COMMON = set('ArithmeticError AssertionError AttributeError BaseException BufferError BytesWarning DeprecationWarning '
             'EOFError Ellipsis EnvironmentError Exception False FloatingPointError FutureWarning GeneratorExit IOError '
             'ImportError ImportWarning IndentationError IndexError KeyError KeyboardInterrupt LookupError MemoryError '
             'NameError None NotImplemented NotImplementedError OSError OverflowError PendingDeprecationWarning '
             'ReferenceError RuntimeError RuntimeWarning StopIteration SyntaxError SyntaxWarning SystemError SystemExit '
             'TabError True TypeError UnboundLocalError UnicodeDecodeError UnicodeEncodeError UnicodeError '
             'UnicodeTranslateError UnicodeWarning UserWarning ValueError Warning ZeroDivisionError __debug__ __doc__ '
             '__import__ __name__ __package__ __file__ __path__ __builtins__ __dict__ abs all any bin bool bytearray '
             'bytes callable chr classmethod compile complex copyright credits delattr dict dir divmod enumerate eval '
             'exec exit filter float format frozenset getattr globals hasattr hash help hex id input int isinstance '
             'issubclass iter len license list locals map max memoryview min next object oct open ord pow print '
             'property quit range repr reversed round set setattr slice sorted staticmethod str sum super tuple type '
             'vars zip __module__ __qualname__ __class__ __spec__ __loader__'.split())

MODULES2 = set('StringIO cStringIO ConfigParser Queue SocketServer BaseHTTPServer HTMLParser httplib urllib2 urlparse '
               'cPickle copy_reg commands sets md5 sha __builtin__ Tkinter thread dummy_thread cookielib Cookie '
               'exceptions itertools_izip new user UserDict UserList UserString xmlrpclib whichdb anydbm htmllib '
               'mimetools rfc822 sgmllib string_letters'.split())
MODULES3 = set('asyncio builtins concurrent configparser contextvars copyreg dataclasses dbm enum faulthandler graphlib '
               'html http importlib.metadata importlib.resources importlib.util ipaddress lzma pathlib queue '
               'reprlib secrets selectors socketserver statistics tkinter tomllib tracemalloc typing unittest.mock '
               'urllib.request urllib.parse urllib.error venv winreg xmlrpc zipapp zoneinfo _thread'.split())
GONE = set('asynchat asyncore imp distutils smtpd aifc audioop cgi cgitb chunk crypt imghdr lib2to3 mailcap msilib '
           'nis nntplib ossaudiodev pipes sndhdr spwd sunau telnetlib uu xdrlib binhex formatter parser symbol macpath '
           'dummy_threading'.split())
ATTRS = {       # of a standard module: names some supported version lacks
    'sys': 'maxint setdefaultencoding exc_clear exc_type subversion implementation intern getswitchinterval '
           'set_asyncgen_hooks breakpointhook orig_argv',
    'string': 'letters lowercase uppercase maketrans join split strip lower upper replace atoi joinfields zfill',
    'base64': 'decodebytes encodebytes decodestring encodestring a85decode b85decode a85encode b85encode b32hexdecode '
              'b32hexencode',
    'os': 'getcwdu fspath fsencode fsdecode replace scandir errno get_terminal_size PathLike popen2 popen3',
    'itertools': 'izip imap ifilter izip_longest zip_longest ifilterfalse filterfalse accumulate pairwise batched',
    'functools': 'lru_cache singledispatch cached_property cache partialmethod',
    'collections': 'ChainMap UserDict UserList UserString Mapping MutableMapping Sequence Iterable abc Callable Hashable',
    'inspect': 'signature getargspec getfullargspec',
    'types': 'StringType StringTypes IntType LongType ListType DictType UnicodeType SimpleNamespace ClassType '
             'NoneType TupleType',
    'time': 'clock perf_counter monotonic time_ns process_time',
    'math': 'isclose prod comb dist lcm isqrt inf nan tau gcd',
    'hashlib': 'blake2b blake2s sha3_224 sha3_256 sha3_384 sha3_512 shake_128 shake_256 scrypt file_digest',
    'socket': 'create_server',
    'binascii': 'b2a_hqx a2b_hqx rlecode_hqx rledecode_hqx',
    're': 'fullmatch Pattern Match NOFLAG RegexFlag template',
    'subprocess': 'run DEVNULL getoutput getstatusoutput CompletedProcess TimeoutExpired',
    'contextlib': 'suppress ExitStack redirect_stdout redirect_stderr ContextDecorator nullcontext nested '
                  'AbstractContextManager contextmanager_async AsyncExitStack chdir',
    'datetime': 'timezone UTC',
    'struct': 'iter_unpack',
    'textwrap': 'indent shorten',
    'shutil': 'which get_terminal_size disk_usage chown',
    'tempfile': 'TemporaryDirectory',
    'io': 'text_encoding',
    'signal': 'Signals strsignal valid_signals',
    'threading': 'get_ident main_thread Barrier excepthook get_native_id',
    'json': 'JSONDecodeError',
    'random': 'choices randbytes jumpahead',
    'traceback': 'TracebackException StackSummary walk_tb',
    'unicodedata': 'is_normalized',
    'zlib': '',
    'bisect': '',
    'platform': 'linux_distribution dist popen freedesktop_os_release',
    'cgi': 'escape',
    'logging': 'getLevelNamesMapping getHandlerNames getLogRecordFactory lastResort',
    'copy': 'replace',
    'codecs': 'namereplace_errors',
    'argparse': 'BooleanOptionalAction',
    'operator': 'isCallable sequenceIncludes div idiv length_hint matmul',
}
METHODS2 = set('iteritems iterkeys itervalues has_key viewitems viewkeys viewvalues'.split())
METHODS3 = set('to_bytes from_bytes casefold removeprefix removesuffix isidentifier bit_count format_map isascii '
               'isprintable'.split())
# keywords of builtins and of standard functions: the first Python that takes them
KEYWORDS = {
    'max': {'default': (3, 4)}, 'min': {'default': (3, 4)}, 'sum': {'start': (3, 8)}, 'zip': {'strict': (3, 10)},
    'pow': {'base': (3, 8), 'exp': (3, 8), 'mod': (3, 8)}, 'map': {'strict': (3, 14)},
    'open': dict((k, (3, 0)) for k in ('encoding', 'errors', 'newline', 'closefd', 'opener', 'file')),
    'sorted': {'cmp': None}, 'sort': {'cmp': None}, 'round': {'ndigits': (2, 7)}, 'compile': {'optimize': (3, 2)},
    'int': {'x': None}, 'list': {'sequence': None}, 'tuple': {'sequence': None}, 'bool': {'x': None},
    'str': dict((k, (3, 0)) for k in ('encoding', 'errors')),
    'bytes': dict((k, (3, 0)) for k in ('encoding', 'errors')),
    'base64.b64decode': {'validate': (3, 0)}, 'os.makedirs': {'exist_ok': (3, 2)},
    'binascii.hexlify': {'sep': (3, 8), 'bytes_per_sep': (3, 8)}, 'binascii.b2a_hex': {'sep': (3, 8)},
    'binascii.b2a_base64': {'newline': (3, 6)}, 'binascii.a2b_base64': {'strict_mode': (3, 11)},
    'hashlib.new': {'usedforsecurity': (3, 9)}, 'hashlib.sha1': {'usedforsecurity': (3, 9)},
    'hashlib.md5': {'usedforsecurity': (3, 9)}, 'itertools.accumulate': {'initial': (3, 8)},
    'argparse.ArgumentParser': {'allow_abbrev': (3, 5), 'exit_on_error': (3, 9)},
    'collections.namedtuple': {'defaults': (3, 7), 'module': (3, 6)},
    'collections.deque': {}, 'subprocess.Popen': {'text': (3, 7), 'encoding': (3, 6)},
    'subprocess.check_output': {'timeout': (3, 3), 'input': (3, 4), 'text': (3, 7), 'encoding': (3, 6)},
    'print': {'flush': (3, 3)},
}
# special methods a class defines and the Pythons that call them
SPECIAL = {'__init_subclass__': (3, 6), '__set_name__': (3, 6), '__class_getitem__': (3, 7), '__prepare__': (3, 0),
           '__fspath__': (3, 6), '__matmul__': (3, 5), '__index_subclass__': None}
PAIRS = (('__bool__', '__nonzero__'), ('__next__', 'next'), ('__truediv__', '__div__'))
HANDLED = set('Exception BaseException ImportError NameError AttributeError ModuleNotFoundError TypeError'.split())


def floors(root):
    """The versions setup.py claims to support."""
    found = set()
    try:
        with open(os.path.join(root, 'setup.py')) as f:
            for m in re.finditer(r'Programming Language :: Python :: (\d+)\.(\d+)', f.read()):
                found.add((int(m.group(1)), int(m.group(2))))
    except IOError:
        pass
    return sorted(found) or [PY2, OLD3]


class Scope(ast.NodeVisitor):
    """The names a tree binds anywhere (an over-approximation per file)."""

    def __init__(self):
        self.names, self.open = set(), False

    def visit_Name(self, n):
        if not isinstance(n.ctx, ast.Load):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        self.generic_visit(n)

    visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_arg(self, n):
        self.names.add(n.arg)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_alias(self, n):
        if n.name == '*':
            self.open = True
        self.names.add((n.asname or n.name).split('.')[0])

    def visit_Global(self, n):
        self.names.update(n.names)

    visit_Nonlocal = visit_Global

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ('globals', 'exec', 'vars', 'locals', 'setattr'):
            self.open = True
        self.generic_visit(n)


class Walk(ast.NodeVisitor):
    def __init__(self, name, tree, source, versions):
        self.name, self.source, self.versions = name, source, versions
        self.lines = source.split('\n')
        self.out, self.nodes = [], 0
        self.guard = 0
        self.where = []
        s = Scope()
        s.visit(tree)
        self.bound, self.open = s.names, s.open
        self.modules, self.origin = {}, {}
        self.later = []
        self.flags, self.after = set(), set()
        self.future = set()
        self.py2 = any(v < (3,) for v in versions)
        self.old3 = [v for v in versions if v >= (3,)]
        self.least3 = min(self.old3) if self.old3 else (3, 12)
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname is None and '.' not in a.name:
                        self.modules[a.name] = a.name
                    elif a.asname:
                        self.modules[a.asname] = a.name
            elif isinstance(n, ast.ImportFrom) and n.module == '__future__':
                self.future.update(a.name for a in n.names)
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    self.origin[a.asname or a.name] = '%s.%s' % (n.module, a.name)
        self.find_flags(tree)
        if isinstance(tree, ast.Module) and any(v < (3, 7) for v in versions):
            for n in tree.body:
                if isinstance(n, ast.FunctionDef) and n.name in ('__getattr__', '__dir__'):
                    self.later.append((n, 'not every supported Python calls %s of a module' % n.name))

    def place(self):
        return '.'.join([self.name] + self.where)

    def bad(self, rule, n, text):
        self.out.append(Finding(rule, self.place(), (self.path, getattr(n, 'lineno', 1)), text))

    def generic_visit(self, n):
        self.nodes += 1
        ast.NodeVisitor.generic_visit(self, n)

    def grammar(self, n, what, since=None):
        """The construct is missing before version `since` of Python 3 (or
        only in Python 2)."""
        if self.py2:
            self.bad('grammar', n, '%s is a syntax error in Python 2.7' % what)
        elif since and self.least3 < since:
            self.bad('grammar', n, '%s is a syntax error in Python %d.%d' % ((what,) + self.least3))

    # ------------------------------------------------------------- grammar

    def visit_JoinedStr(self, n):
        self.grammar(n, 'an f-string', (3, 6))

    visit_TemplateStr = visit_JoinedStr

    def visit_AnnAssign(self, n):
        self.grammar(n, 'a variable annotation', (3, 6))
        self.generic_visit(n)

    def visit_NamedExpr(self, n):
        self.grammar(n, 'an assignment expression', (3, 8))
        self.generic_visit(n)

    def visit_Nonlocal(self, n):
        self.grammar(n, 'nonlocal')

    def visit_YieldFrom(self, n):
        self.grammar(n, 'yield from')
        self.generic_visit(n)

    def visit_Await(self, n):
        self.grammar(n, 'await')
        self.generic_visit(n)

    def visit_AsyncFor(self, n):
        self.grammar(n, 'async for')
        self.generic_visit(n)

    visit_AsyncWith = visit_AsyncFor

    def visit_Match(self, n):
        self.grammar(n, 'match', (3, 10))
        self.generic_visit(n)

    def visit_TryStar(self, n):
        self.grammar(n, 'except*', (3, 11))
        self.generic_visit(n)

    def visit_TypeAlias(self, n):
        self.grammar(n, 'a type alias', (3, 12))

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.MatMult):
            self.grammar(n, 'the operator @')
        self.generic_visit(n)

    def visit_Raise(self, n):
        if n.cause is not None:
            self.grammar(n, 'raise ... from')
        self.generic_visit(n)

    def visit_Starred(self, n):
        # calls look after their own
        self.grammar(n, 'unpacking with *')
        self.generic_visit(n)

    def visit_Dict(self, n):
        if any(k is None for k in n.keys):
            self.grammar(n, 'unpacking with **')
        self.generic_visit(n)

    def visit_Constant(self, n):
        text = self.lines[n.lineno - 1][n.col_offset:] if n.lineno <= len(self.lines) else ''
        if isinstance(n.value, (int, float, complex)) and not isinstance(n.value, bool):
            tok = re.match(r'[0-9a-zA-Z_.]+', text)
            if tok and '_' in tok.group(0):
                self.grammar(n, 'a number with underscores', (3, 6))
        elif isinstance(n.value, bytes) and re.match(r"(?i)rb['\"]", text):
            self.grammar(n, 'an rb string')
        elif isinstance(n.value, type(Ellipsis)) and text.startswith('...'):
            self.grammar(n, '... outside a subscript')

    def visit_Subscript(self, n):
        self.visit(n.value)
        if not (isinstance(n.slice, ast.Constant) and n.slice.value is Ellipsis):
            self.visit(n.slice)

    def visit_Call(self, n):
        stars = [a for a in n.args if isinstance(a, ast.Starred)]
        for a in n.args:
            self.visit(a.value if isinstance(a, ast.Starred) else a)
        for k in n.keywords:
            self.visit(k.value)
        doubles = [k for k in n.keywords if k.arg is None]
        if len(stars) > 1 or len(doubles) > 1 or stars and n.args[-1] is not stars[-1]:
            self.grammar(n, 'more than one unpacking, or an argument after one, in a call')
        if doubles and n.keywords[-1] is not doubles[-1]:
            self.grammar(n, 'an argument after ** in a call')
        last = doubles[-1].value if doubles else stars[-1].value if stars and not n.keywords else None
        if last is not None and self.py2:
            rest = self.between(last.end_lineno, last.end_col_offset, n.end_lineno, n.end_col_offset)
            if ',' in rest:
                self.bad('grammar', n, 'a comma after the last unpacking in a call is a syntax error in Python 2.7')
        self.keywords(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'hex' and not n.args and self.py2 and not self.guard and \
                not (isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'float'):
            self.bad('stdlib', n, 'Python 2.7 has no method hex of a byte string')
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'fromhex' and isinstance(n.func.value, ast.Name) and \
                n.func.value.id == 'bytes' and self.py2 and not self.guard:
            self.bad('stdlib', n, 'Python 2.7 has no method fromhex of bytes')
        if isinstance(n.func, ast.Name):
            f = n.func.id
            if f in ('str', 'bytes') and len(n.args) > 1 and f not in self.bound and self.py2 and not self.guard:
                self.bad('builtin', n, '%s takes a single argument in Python 2.7' % f)
            if f == 'print' and 'print' not in self.bound and self.py2 and 'print_function' not in self.future:
                if n.keywords:
                    self.bad('grammar', n, 'print with a keyword is a syntax error in Python 2.7')
            if f == 'super' and not n.args and not n.keywords and self.py2:
                self.bad('builtin', n, 'super() needs arguments in Python 2.7')
        self.visit(n.func)

    def keywords(self, n):
        if self.guard or not n.keywords:
            return
        f = n.func
        if isinstance(f, ast.Name) and f.id not in self.bound:
            name = f.id
        elif isinstance(f, ast.Name) and f.id in self.origin:
            name = self.origin[f.id]
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in self.modules:
            name = '%s.%s' % (self.modules[f.value.id], f.attr)
        elif isinstance(f, ast.Attribute) and f.attr == 'sort':
            name = 'sort'
        else:
            return
        table = KEYWORDS.get(name, {})
        for k in n.keywords:
            if k.arg in table:
                since = table[k.arg]
                if since is None or self.py2 and since >= (3,) or since > self.least3:
                    self.bad('builtin' if '.' not in name else 'stdlib', n,
                             'not every supported Python takes %s= in %s()' % (k.arg, name))

    def between(self, l1, c1, l2, c2):
        if l1 == l2:
            text = self.lines[l1 - 1].encode()[c1:c2].decode()
        else:
            text = '\n'.join([self.lines[l1 - 1].encode()[c1:].decode()] + self.lines[l1:l2 - 1] +
                             [self.lines[l2 - 1].encode()[:c2].decode()])
        return re.sub(r'#[^\n]*', '', text)

    def visit_ClassDef(self, n):
        if n.keywords:
            self.grammar(n, 'a keyword among the bases of a class')
        if getattr(n, 'type_params', None):
            self.grammar(n, 'a type parameter', (3, 12))
        have = {}
        for x in n.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                have[x.name] = x
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        have[t.id] = x
            elif not isinstance(x, (ast.Expr, ast.Pass)):
                have[None] = x
        for m in sorted(set(have) & set(SPECIAL), key=str):
            if SPECIAL[m] and (self.py2 or self.least3 < SPECIAL[m]) and \
                    not (m == '__prepare__' and not self.py2):
                self.bad('builtin', have[m], 'not every supported Python calls %s' % m)
        if None not in have and self.py2 and self.old3:
            for new, old in PAIRS:
                if (new in have) != (old in have) and (new in have or old != 'next'):
                    a, b = (new, old) if new in have else (old, new)
                    v = 'Python 2.7' if new in have else 'Python 3'
                    self.bad('builtin', have[a], '%s calls %s, which is not there, and not %s' % (v, b, a))
            if '__metaclass__' in have:
                self.bad('builtin', have['__metaclass__'], 'Python 3 pays no attention to __metaclass__')
        self.where.append(n.name)
        self.generic_visit(n)
        self.where.pop()

    def visit_FunctionDef(self, n):
        a = n.args
        if n.returns is not None or any(x.annotation is not None for x in
                                        a.args + a.kwonlyargs + getattr(a, 'posonlyargs', []) +
                                        [y for y in (a.vararg, a.kwarg) if y is not None]):
            self.grammar(n, 'a parameter or result annotation')
        if a.kwonlyargs:
            self.grammar(n, 'a keyword-only parameter')
        if getattr(a, 'posonlyargs', None):
            self.grammar(n, 'a positional-only parameter', (3, 8))
        if getattr(n, 'type_params', None):
            self.grammar(n, 'a type parameter', (3, 12))
        if isinstance(n, ast.AsyncFunctionDef):
            self.grammar(n, 'async def')
        self.where.append(n.name)
        self.generic_visit(n)
        self.where.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    # ------------------------------------------------- guards, names, modules

    def mentions_version(self, n):
        """Whether the test (or value) depends on the version of Python."""
        for x in ast.walk(n):
            name = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else ''
            if isinstance(x, ast.Attribute) and name in ('version_info', 'hexversion', 'version', 'implementation'):
                return True
            if re.match(r'(?i)_*(is_?|on_?)?py(thon)?_?[23]k?$|_*version_info$', name):
                return True
            if isinstance(x, ast.Name) and x.id in self.flags:
                return True
            if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and \
                    set(getattr(y, 'id', '') for y in [x.left] + x.comparators) <= set(['str', 'bytes', 'unicode', 'int',
                                                                                       'long']):
                return True
            if isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'hasattr':
                return True
        return False

    def find_flags(self, tree):
        """Names that stand for a test of the version, functions among them."""
        while True:
            before = len(self.flags)
            for n in ast.walk(tree):
                if isinstance(n, ast.Assign) and self.mentions_version(n.value):
                    self.flags.update(t.id for t in n.targets if isinstance(t, ast.Name))
                elif isinstance(n, ast.FunctionDef) and len(n.body) <= 2 and isinstance(n.body[-1], ast.Return) and \
                        n.body[-1].value is not None and isinstance(n.body[-1].value, (ast.Compare, ast.BoolOp, ast.UnaryOp)) \
                        and self.mentions_version(n.body[-1].value):
                    self.flags.add(n.name)
            if len(self.flags) == before:
                return

    def visit(self, n):
        for field in ('body', 'orelse', 'finalbody'):
            block = getattr(n, field, None)
            if isinstance(block, list):
                # after "if <version test>: return", the rest is for the other versions
                for i, x in enumerate(block):
                    if isinstance(x, ast.If) and self.mentions_version(x.test) and any(
                            y and isinstance(y[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
                            for y in (x.body, x.orelse)):
                        self.after.update(id(y) for y in block[i + 1:])
                        break
        g = id(n) in self.after
        self.guard += g
        ast.NodeVisitor.visit(self, n)
        self.guard -= g

    def visit_If(self, n):
        g = self.mentions_version(n.test)
        self.guard += g
        self.visit(n.test)
        for s in n.body + n.orelse:
            self.visit(s)
        self.guard -= g

    def visit_BoolOp(self, n):
        g = 0
        for x in n.values:
            self.visit(x)
            if not g and self.mentions_version(x):
                g = 1
                self.guard += 1
        self.guard -= g

    def visit_IfExp(self, n):
        g = self.mentions_version(n.test)
        self.guard += g
        self.generic_visit(n)
        self.guard -= g

    def visit_Try(self, n):
        g = 0
        for h in n.handlers:
            names = [x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)] if h.type is not None else ['Exception']
            if set(names) & HANDLED:
                g = 1
        # what the handlers do is a fallback for what the body tried
        self.guard += g
        for s in n.body + [h for h in n.handlers] + n.orelse:
            self.visit(s)
        self.guard -= g
        for s in n.finalbody:
            self.visit(s)

    def visit_Name(self, n):
        if not isinstance(n.ctx, ast.Load) or n.id in self.bound or self.guard:
            return
        if n.id in ONLY2:
            self.bad('builtin', n, '%s is no builtin of Python 3' % n.id)
        elif n.id in ONLY3 and self.py2:
            self.bad('builtin', n, '%s is no builtin of Python 2.7' % n.id)
        elif n.id in NEWER:
            self.bad('builtin', n, '%s is no builtin of every supported Python' % n.id)
        elif n.id not in COMMON and n.id not in ONLY3 and not self.open:
            self.bad('undefined-name', n, '%s is defined nowhere' % n.id)

    def visit_Attribute(self, n):
        if not self.guard and isinstance(n.ctx, ast.Load):
            if isinstance(n.value, ast.Name) and n.value.id in self.modules:
                m = self.modules[n.value.id]
                if n.attr in ATTRS.get(m, '').split():
                    self.bad('stdlib', n, 'not every supported Python has %s.%s' % (m, n.attr))
            elif n.attr == 'buffer' and self.py2 and isinstance(n.value, ast.Attribute) and \
                    n.value.attr in ('stdin', 'stdout', 'stderr'):
                self.bad('stdlib', n, 'Python 2.7 has no sys.%s.buffer' % n.value.attr)
            elif n.attr in METHODS2:
                self.bad('stdlib', n, 'Python 3 has no method %s' % n.attr)
            elif n.attr in METHODS3 and self.py2:
                self.bad('stdlib', n, 'Python 2.7 has no method %s' % n.attr)
        self.visit(n.value)

    def module(self, n, name):
        if self.guard:
            return
        tops = [name] + ([name.split('.')[0]] if '.' in name else [])
        for x in tops:
            if x in MODULES2:
                self.bad('stdlib', n, 'Python 3 has no module %s' % x)
            elif x in GONE:
                self.bad('stdlib', n, 'current Pythons have no module %s' % x)
            elif x in MODULES3 and self.py2:
                self.bad('stdlib', n, 'Python 2.7 has no module %s' % x)

    def visit_Import(self, n):
        for a in n.names:
            self.module(n, a.name)

    def visit_ImportFrom(self, n):
        if not n.level and n.module:
            self.module(n, n.module)
            if not self.guard:
                for a in n.names:
                    if a.name in ATTRS.get(n.module, '').split():
                        self.bad('stdlib', n, 'not every supported Python has %s.%s' % (n.module, a.name))


CODING = re.compile(br'^[ \t\f]*#.*?coding[:=][ \t]*([-\w.]+)')


def encoding(name, path, data, versions):
    """PEP 263: without a declaration Python 2 takes the source for ASCII."""
    if not any(v < (3,) for v in versions) or data.startswith(b'\xef\xbb\xbf'):
        return []
    lines = data.split(b'\n')
    for i in (0, 1):
        if i < len(lines) and CODING.match(lines[i]):
            return []
        if i < len(lines) and not re.match(br'^[ \t\f]*(#.*)?\r?$', lines[i]):
            break
    for i, line in enumerate(lines):
        if any(b > 127 for b in bytearray(line)):
            return [Finding('encoding', name, (path, i + 1),
                            'has a character that is not ASCII and declares no encoding, a syntax error in Python 2.7')]
    return []


def scan(root, dirs, versions):
    out, stats = [], {'files': 0, 'syntax nodes': 0}
    for d in dirs:
        for path in sorted(glob.glob(os.path.join(root, d, '*.py'))):
            rel = os.path.relpath(path, root)
            name = os.path.basename(path)[:-3] if d == 'pyasn1_modules' else rel
            with open(path, 'rb') as f:
                data = f.read()
            try:
                with tokenize.open(path) as f:
                    source = f.read()
                tree = ast.parse(source, path)
            except (SyntaxError, UnicodeDecodeError) as e:
                out.append(Finding('grammar', name, (rel, getattr(e, 'lineno', 1) or 1), 'does not parse: %s' % e))
                continue
            stats['files'] += 1
            least3 = min([v for v in versions if v >= (3,)] or [(3, 12)])
            w = Walk(name, tree, source, versions)
            w.path = rel
            w.visit(tree)
            for n, text in w.later:
                w.bad('builtin', n, text)
            out.extend(w.out)
            stats['syntax nodes'] += w.nodes
            try:
                ast.parse(source, path, feature_version=max(least3, (3, 4)))
            except SyntaxError as e:
                have = set(f.loc[1] for f in w.out)
                if e.lineno not in have:
                    out.append(Finding('grammar', name, (rel, e.lineno or 1), 'Python %d.%d: %s' % (least3 + (e.msg,))))
            out.extend(encoding(name, rel, data, versions))
    return out, stats
