"""The abstract values that are not constants.

Unknown is the top of the constant lattice: a value the analysis does not
know.  Operations on it give Unknown; asking it for a truth value or for its
elements raises, and the elaborator turns that into a join of both branches /
a single abstract loop iteration.
"""


class NeedsJoin(Exception):
    """The control flow depends on a value the analysis does not know."""


class Unknown(object):
    __slots__ = ('why',)
    chooser = None          # decides the truth of an unknown, when paths are split

    def __init__(self, why='?'):
        object.__setattr__(self, 'why', why)

    def __repr__(self):
        return '<unknown: %s>' % self.why

    def __bool__(self):
        if Unknown.chooser is not None:
            return Unknown.chooser(self)
        raise NeedsJoin(self.why)

    def __iter__(self):
        raise NeedsJoin(self.why)

    def __len__(self):
        raise NeedsJoin(self.why)

    def __contains__(self, item):
        raise NeedsJoin(self.why)

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return Unknown('%s.%s' % (self.why, name))

    def __setattr__(self, name, value):
        pass

    def __call__(self, *a, **k):
        return Unknown('%s(...)' % self.why)

    def __getitem__(self, k):
        return Unknown('%s[...]' % self.why)

    def __setitem__(self, k, v):
        pass

    def __enter__(self):
        return Unknown('%s.__enter__()' % self.why)

    def __exit__(self, *a):
        return None

    def __int__(self):
        raise NeedsJoin(self.why)

    def __index__(self):
        raise NeedsJoin(self.why)

    def __str__(self):
        raise NeedsJoin(self.why)

    def __float__(self):
        raise NeedsJoin(self.why)

    def _op(self, *a):
        return Unknown('op(%s)' % self.why)

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _op
    __truediv__ = __rtruediv__ = __floordiv__ = __rfloordiv__ = _op
    __mod__ = __rmod__ = __pow__ = __rpow__ = __and__ = __rand__ = _op
    __or__ = __ror__ = __xor__ = __rxor__ = __lshift__ = __rshift__ = _op
    __rlshift__ = __rrshift__ = __neg__ = __pos__ = __invert__ = __abs__ = _op
    __lt__ = __le__ = __gt__ = __ge__ = _op

    def __eq__(self, other):
        if other is self:
            return True
        return Unknown('== %s' % self.why)

    def __ne__(self, other):
        return Unknown('!= %s' % self.why)

    def __hash__(self):
        return id(self)


class Opaque(Unknown):
    """Something outside the analysed code (a standard library object)."""
    __slots__ = ('_path', 'known')

    def __init__(self, name, known=()):
        Unknown.__init__(self, name)
        object.__setattr__(self, '_path', name)
        object.__setattr__(self, 'known', dict(known))

    def __getattr__(self, attr):
        if attr.startswith('__') and attr.endswith('__'):
            raise AttributeError(attr)
        if attr in self.known:
            return self.known[attr]
        return Opaque('%s.%s' % (self._path, attr))


class Outside(Unknown):
    """Something in a library this code uses whose value is not modelled."""
    __slots__ = ()

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return Outside('%s.%s' % (self.why, name))

    def __getitem__(self, k):
        return Outside('%s[...]' % self.why)


def is_unknown(x):
    return isinstance(x, Unknown)
