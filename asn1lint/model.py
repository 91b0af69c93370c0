"""Summaries of the pyasn1 declarations API.

The elaborator evaluates the declarations of /repo over these summaries
instead of over pyasn1: an object here records what a pyasn1 type object
*declares* (tags, constraints, components, names, default), following the
rules by which pyasn1 0.4.6-0.5.x composes them, and where in /repo it was
declared.  Nothing here encodes or decodes anything.
"""
from .lattice import Unknown, is_unknown, NeedsJoin

INF = float('inf')


class Here(object):
    """Where the elaborator is: innermost expression and enclosing
    module-level statement.  Set by the elaborator."""
    loc = None      # (relpath, line)
    stmt = None
    module = None
    world = None
    backward = False    # dictionaries of this Python have no order: take the opposite one


def certain(exc):
    """An error that pyasn1 raises here too, not one of a summary that is incomplete."""
    exc.certain = True
    return exc


class PyAsn1Error(Exception):
    pass


Asn1Type = SimpleAsn1Type = ConstructedAsn1Type = ()       # defined below


def no_schema(x):
    """Values are computed with; of types, pyasn1 refuses that."""
    if isinstance(x, SimpleAsn1Type) and x._value is noValue or isinstance(x, ConstructedAsn1Type) and not x._vals:
        raise PyAsn1Error('operation on ASN.1 schema object')


def hashed(x):
    if x is not None and type(x).__hash__ is None:
        raise certain(TypeError('unhashable type: %r' % type(x).__name__))
    no_schema(x)


class Placed(object):
    """Anything that remembers where it was declared."""
    _loc = None

    def _place(self):
        object.__setattr__(self, '_loc', Here.loc)


# --------------------------------------------------------------------- tags

tagClassUniversal = 0x00
tagClassApplication = 0x40
tagClassContext = 0x80
tagClassPrivate = 0xC0
tagFormatSimple = 0x00
tagFormatConstructed = 0x20
tagCategoryImplicit = 0x01
tagCategoryExplicit = 0x02
tagCategoryUntagged = 0x04


class Tag(Placed):
    def __init__(self, tagClass, tagFormat, tagId):
        self.tagClass, self.tagFormat, self.tagId = tagClass, tagFormat, tagId
        if not is_unknown(tagId):
            no_schema(tagId)
            if not isinstance(tagId, (int, float, SimpleAsn1Type)):
                raise certain(TypeError("'<' not supported between %r and 'int'" % type(tagId).__name__))
            if isinstance(tagId, (int, float)) and tagId < 0:
                raise PyAsn1Error('Negative tag ID (%s) not allowed' % tagId)
        self._place()

    def known(self):
        return not any(is_unknown(x) for x in self)

    def __iter__(self):
        return iter((self.tagClass, self.tagFormat, self.tagId))

    def __getitem__(self, i):
        return (self.tagClass, self.tagFormat, self.tagId)[i]

    def key(self):
        return (self.tagClass, int(self.tagId) if not is_unknown(self.tagId) else self.tagId)

    def __eq__(self, other):
        return isinstance(other, Tag) and self.key() == other.key()

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'Tag(%r,%r,%r)' % tuple(self)


class TagSet(object):
    def __init__(self, baseTag=(), *superTags):
        self.baseTag = baseTag
        self.superTags = superTags

    def __add__(self, superTag):
        return TagSet(self.baseTag, *(self.superTags + (superTag,)))

    def __radd__(self, superTag):
        return TagSet(self.baseTag, *((superTag,) + self.superTags))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return TagSet(self.baseTag, *self.superTags[i])
        return self.superTags[i]

    def __len__(self):
        return len(self.superTags)

    def __bool__(self):
        return bool(self.superTags)

    def __iter__(self):
        return iter(self.superTags)

    def key(self):
        return tuple(t.key() for t in self.superTags)

    def __eq__(self, other):
        return isinstance(other, TagSet) and self.key() == other.key()

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.key())

    def tagExplicitly(self, superTag):
        if is_unknown(superTag):
            return Unknown('tag')
        if not isinstance(superTag, Tag):
            raise certain(AttributeError('%r object has no attribute %r' % (type(superTag).__name__, 'tagClass')))
        if superTag.tagClass == tagClassUniversal:
            raise PyAsn1Error("Can't tag with UNIVERSAL class tag")
        if superTag.tagFormat != tagFormatConstructed:
            old = superTag
            superTag = Tag(superTag.tagClass, tagFormatConstructed, superTag.tagId)
            superTag._loc = old._loc
        return self + superTag

    def tagImplicitly(self, superTag):
        if is_unknown(superTag):
            return Unknown('tag')
        if not isinstance(superTag, Tag):
            raise certain(AttributeError('%r object has no attribute %r' % (type(superTag).__name__, 'tagClass')))
        if self.superTags:
            old = superTag
            superTag = Tag(superTag.tagClass, self.superTags[-1].tagFormat, superTag.tagId)
            superTag._loc = old._loc
        return self[:-1] + superTag

    def isSuperTagSetOf(self, other):
        return other.superTags[:len(self)] == self.superTags

    def getBaseTag(self):
        return self.baseTag


def initTagSet(tag):
    return TagSet(tag, tag)


# -------------------------------------------------------------- constraints

class AbstractConstraint(Placed):
    def __init__(self, *values):
        self._values = values
        self._place()

    def __bool__(self):
        return bool(self._values)

    def __eq__(self, other):
        return self is other or (type(self) is type(other) and self._values == other._values)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        try:
            return hash((type(self).__name__, self._values))
        except TypeError:
            return id(self)

    def __repr__(self):
        return '%s%r' % (type(self).__name__, self._values)


class SingleValueConstraint(AbstractConstraint):
    def __contains__(self, item):
        return item in self._values

    def __iter__(self):
        return iter(self._values)

    def __add__(self, other):
        return type(self)(*(self._values + tuple(x for x in other if x not in self._values)))

    def __sub__(self, other):
        return type(self)(*tuple(x for x in self._values if x not in other))


class PermittedAlphabetConstraint(SingleValueConstraint):
    pass


class ContainedSubtypeConstraint(AbstractConstraint):
    pass


class ValueRangeConstraint(AbstractConstraint):
    def __init__(self, *values):
        if len(values) != 2:
            raise PyAsn1Error('bad constraint values')
        self.start, self.stop = values
        if not is_unknown(self.start) and not is_unknown(self.stop):
            for x in values:
                no_schema(x)
                if not isinstance(x, (int, float, SimpleAsn1Type)):
                    raise certain(TypeError("'>' not supported between %r and %r" % tuple(type(y).__name__ for y in values)))
            if self.start > self.stop:
                raise PyAsn1Error('screwed constraint values')
        AbstractConstraint.__init__(self, *values)


class ValueSizeConstraint(ValueRangeConstraint):
    pass


class ComponentPresentConstraint(AbstractConstraint):
    def __init__(self):
        AbstractConstraint.__init__(self, '<must be present>')


class ComponentAbsentConstraint(AbstractConstraint):
    def __init__(self):
        AbstractConstraint.__init__(self, '<must be absent>')


class WithComponentsConstraint(AbstractConstraint):
    pass


class InnerTypeConstraint(AbstractConstraint):
    pass


class ConstraintsExclusion(AbstractConstraint):
    pass


class AbstractConstraintSet(AbstractConstraint):
    def __init__(self, *values):
        for x in values:
            hashed(x)
            if not is_unknown(x) and not isinstance(x, AbstractConstraint) and (isinstance(x, (type, Asn1Type)) or x):
                raise certain(AttributeError("%r object has no attribute 'getValueMap'" % type(x).__name__))
        AbstractConstraint.__init__(self, *values)

    def __getitem__(self, i):
        return self._values[i]

    def __iter__(self):
        return iter(self._values)

    def __len__(self):
        return len(self._values)

    def __add__(self, value):
        return type(self)(*(self._values + (value,)))

    def __radd__(self, value):
        return type(self)(*((value,) + self._values))


class ConstraintsIntersection(AbstractConstraintSet):
    pass


class ConstraintsUnion(AbstractConstraintSet):
    pass


# -------------------------------------------------------------- named values

class NamedValues(Placed):
    def __init__(self, *args, **kwargs):
        self.pairs = []
        anonymous = []
        for a in args:
            if isinstance(a, (tuple, list)):
                name, number = a
                self._add(name, number)
            else:
                anonymous.append(a)
        for name, number in kwargs.items():
            self._add(name, number)
        if anonymous:
            number = max([n for _, n in self.pairs]) + 1 if self.pairs else 0
            for name in anonymous:
                self._add(name, number)
                number += 1
        self._place()

    def _add(self, name, number):
        for x in (name, number):
            hashed(x)
        for n, v in self.pairs:
            if not is_unknown(name) and not is_unknown(n) and n == name:
                raise PyAsn1Error('Duplicate name %s' % (name,))
            if not is_unknown(number) and not is_unknown(v) and v == number:
                raise PyAsn1Error('Duplicate number %s' % (number,))
        self.pairs.append((name, number))

    def __getitem__(self, key):
        for n, v in self.pairs:
            if v == key:
                return n
        for n, v in self.pairs:
            if n == key:
                return v
        raise KeyError(key)

    def __contains__(self, key):
        return any(n == key or v == key for n, v in self.pairs)

    def __iter__(self):
        return iter([n for n, _ in self.pairs])

    def __len__(self):
        return len(self.pairs)

    def __bool__(self):
        return bool(self.pairs)

    def keys(self):
        return [n for n, _ in self.pairs]

    def values(self):
        return [v for _, v in self.pairs]

    def items(self):
        return list(self.pairs)

    def __add__(self, other):
        return NamedValues(*(self.pairs + list(other.items())))

    def clone(self, *args, **kwargs):
        return self + NamedValues(*args, **kwargs)

    def getName(self, value):
        for n, v in self.pairs:
            if v == value:
                return n

    def getValue(self, name):
        for n, v in self.pairs:
            if n == name:
                return v

    def getValues(self, *names):
        return [self.getValue(n) for n in names]


# --------------------------------------------------------------- components

class OpenType(Placed):
    def __init__(self, name, typeMap=None):
        self.name = name
        self.typeMap = {} if typeMap is None else typeMap
        self._place()

    def __contains__(self, k):
        return k in self.typeMap

    def __getitem__(self, k):
        return self.typeMap[k]

    def __iter__(self):
        return iter(self.typeMap)

    def keys(self):
        return self.typeMap.keys()

    def values(self):
        return self.typeMap.values()

    def items(self):
        return self.typeMap.items()


class NamedType(Placed):
    isOptional = False
    isDefaulted = False

    def __init__(self, name, asn1Object, openType=None):
        self.name = name
        self.asn1Object = asn1Object
        self.openType = openType
        self._place()

    def __iter__(self):
        return iter((self.name, self.asn1Object))

    def __getitem__(self, i):
        return (self.name, self.asn1Object)[i]

    def getName(self):
        return self.name

    def getType(self):
        return self.asn1Object


class OptionalNamedType(NamedType):
    isOptional = True


class DefaultedNamedType(NamedType):
    isDefaulted = True


class NamedTypes(Placed):
    def __init__(self, *namedTypes, **kwargs):
        self.namedTypes = namedTypes
        for nt in namedTypes:
            if not is_unknown(nt) and not isinstance(nt, NamedType):
                raise PyAsn1Error('not a NamedType: %r' % (nt,))
            if not is_unknown(nt) and not is_unknown(nt.asn1Object) and not isinstance(nt.asn1Object, Asn1Type) and \
                    not (isinstance(nt.asn1Object, type) and issubclass(nt.asn1Object, Asn1Type)):
                raise certain(AttributeError("%r object has no attribute 'tagSet'" % type(nt.asn1Object).__name__))
        self._place()

    def known(self):
        return not any(is_unknown(nt) for nt in self.namedTypes)

    def __len__(self):
        return len(self.namedTypes)

    def __bool__(self):
        return bool(self.namedTypes)

    def __iter__(self):
        return iter([nt.name for nt in self.namedTypes])

    def __contains__(self, name):
        return any(nt.name == name for nt in self.namedTypes)

    def __getitem__(self, i):
        if isinstance(i, str):
            for nt in self.namedTypes:
                if nt.name == i:
                    return nt
            raise KeyError(i)
        return self.namedTypes[i]

    def pos(self, name):
        for i, nt in enumerate(self.namedTypes):
            if nt.name == name:
                return i
        raise PyAsn1Error('Name %s not found' % (name,))

    def clone(self):
        return NamedTypes(*self.namedTypes)

    def keys(self):
        return [nt.name for nt in self.namedTypes]

    def values(self):
        return tuple(nt.asn1Object for nt in self.namedTypes)

    def items(self):
        return tuple((nt.name, nt.asn1Object) for nt in self.namedTypes)

    def getTypeByPosition(self, idx):
        return self.namedTypes[idx].asn1Object

    def getNameByPosition(self, idx):
        return self.namedTypes[idx].name

    def getPositionByName(self, name):
        return self.pos(name)


# -------------------------------------------------------------------- types

class _NoValue(object):
    def __repr__(self):
        return 'noValue'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return 'noValue'


noValue = _NoValue()


def NoValue():
    return noValue


def utag(n, constructed=False):
    return initTagSet(Tag(0, 0x20 if constructed else 0, n))


def is_abstract(value):
    """A value some client of the model knows by name only."""
    return getattr(type(value), '_abstract', False)


class Asn1Item(object):
    pass


class Asn1Type(Asn1Item, Placed):
    kind = None
    tagSet = TagSet()
    subtypeSpec = ConstraintsIntersection()
    typeId = None

    def __init__(self, **kwargs):
        ro = {'tagSet': self.tagSet, 'subtypeSpec': self.subtypeSpec}
        ro.update(kwargs)
        self.__dict__.update(ro)
        self.__dict__['_readOnly'] = ro
        self._place()
        self.__dict__['_bymodule'] = Here.module

    def __setattr__(self, name, value):
        if name[0] != '_' and name in self._readOnly:
            raise PyAsn1Error('read-only instance attribute "%s"' % name)
        if name == '__class__':
            object.__setattr__(self, name, value)
            return
        self.__dict__[name] = value
        hook = Asn1Type.set_hook
        if hook is not None:
            hook(self, name, value)

    set_hook = None

    @property
    def readOnly(self):
        return self._readOnly

    def isSameTypeWith(self, other, *a, **k):
        return self is other or (self.tagSet == other.tagSet and self.subtypeSpec == other.subtypeSpec)

    def isSuperTypeOf(self, other, *a, **k):
        return Unknown('isSuperTypeOf')

    def getTagSet(self):
        return self.tagSet

    def getSubtypeSpec(self):
        return self.subtypeSpec

    def prettyPrint(self, scope=0):
        return Unknown('prettyPrint')

    def hasValue(self):
        return self.isValue

    def _subtype_init(self, kwargs):
        init = dict(self.readOnly)
        imp = kwargs.pop('implicitTag', None)
        if imp is not None:
            init['tagSet'] = self.tagSet.tagImplicitly(imp)
        exp = kwargs.pop('explicitTag', None)
        if exp is not None:
            init['tagSet'] = self.tagSet.tagExplicitly(exp)
        for arg, option in kwargs.items():
            if arg not in init:
                raise certain(KeyError(arg))
            if all(isinstance(x, AbstractConstraint) for x in (init[arg], option)) and not hasattr(init[arg], '__add__'):
                raise certain(TypeError('a %s takes no further constraint' % type(init[arg]).__name__))
            init[arg] = init[arg] + option
        return init


class SimpleAsn1Type(Asn1Type):
    defaultValue = noValue

    def __init__(self, value=noValue, **kwargs):
        Asn1Type.__init__(self, **kwargs)
        if value is noValue:
            value = self.defaultValue
        elif not is_unknown(value) and not is_abstract(value):
            value = self.prettyIn(value)
        self.__dict__['_value'] = value

    @property
    def isValue(self):
        return self._value is not noValue

    def clone(self, value=noValue, **kwargs):
        if value is noValue:
            if not kwargs:
                return self
            value = self._value
        init = dict(self.readOnly)
        init.update(kwargs)
        return type(self)(value, **init)

    def subtype(self, value=noValue, **kwargs):
        if value is noValue:
            if not kwargs:
                return self
            value = self._value
        return type(self)(value, **self._subtype_init(kwargs))

    def prettyIn(self, value):
        return value

    def prettyOut(self, value):
        return str(value)

    def _need(self):
        if self._value is noValue:
            raise PyAsn1Error('operation on ASN.1 schema object')
        if is_unknown(self._value):
            raise NeedsJoin('value')
        return self._value

    def _raw(self, other):
        return other._value if isinstance(other, SimpleAsn1Type) else other

    def __eq__(self, other):
        return self is other or self._value == self._raw(other)

    def __ne__(self, other):
        return not self == other

    def __lt__(self, other):
        return self._need() < self._raw(other)

    def __le__(self, other):
        return self._need() <= self._raw(other)

    def __gt__(self, other):
        return self._need() > self._raw(other)

    def __ge__(self, other):
        return self._need() >= self._raw(other)

    def __bool__(self):
        return bool(self._need())

    def __hash__(self):
        try:
            return hash(self._value)
        except TypeError:
            return id(self)

    def __str__(self):
        return str(self.prettyOut(self._need()))


class Integer(SimpleAsn1Type):
    kind = 'INTEGER'
    tagSet = utag(2)
    namedValues = NamedValues()

    def __init__(self, value=noValue, **kwargs):
        if 'namedValues' not in kwargs:
            kwargs['namedValues'] = self.namedValues
        SimpleAsn1Type.__init__(self, value, **kwargs)

    def prettyIn(self, value):
        try:
            return int(value)
        except TypeError:
            if isinstance(value, (type, dict, list, tuple, set, Placed)) or value is None or type(value) is object:
                raise certain(TypeError('int() argument must be a string or a number, not %r' % type(value).__name__))
            raise
        except ValueError:
            try:
                return self.namedValues[value]
            except KeyError:
                raise PyAsn1Error("Can't coerce %r into integer" % (value,))

    def prettyOut(self, value):
        n = self.namedValues.getName(value)
        return str(value) if n is None else n

    def __int__(self):
        return int(self._need())

    __index__ = __int__

    def __float__(self):
        return float(self._need())

    def getNamedValues(self):
        return self.namedValues


def _intops():
    import operator
    for name in ('add', 'sub', 'mul', 'mod', 'pow', 'floordiv', 'and_', 'or_', 'xor', 'lshift', 'rshift'):
        op = getattr(operator, name)
        dunder = name.rstrip('_')

        def f(self, other, op=op):
            return self.clone(op(self._need(), self._raw(other)))

        def r(self, other, op=op):
            return self.clone(op(self._raw(other), self._need()))
        setattr(Integer, '__%s__' % dunder, f)
        setattr(Integer, '__r%s__' % dunder, r)
    Integer.__neg__ = lambda self: self.clone(-self._need())
    Integer.__abs__ = lambda self: self.clone(abs(self._need()))


_intops()


class Boolean(Integer):
    kind = 'BOOLEAN'
    tagSet = utag(1)
    subtypeSpec = ConstraintsIntersection() + SingleValueConstraint(0, 1)
    namedValues = NamedValues(('False', 0), ('True', 1))


class Enumerated(Integer):
    kind = 'ENUMERATED'
    tagSet = utag(10)
    namedValues = NamedValues()


class Bits(str):
    """A BIT STRING value, as a string of 0 and 1."""


class BitString(SimpleAsn1Type):
    kind = 'BIT STRING'
    tagSet = utag(3)
    namedValues = NamedValues()
    defaultBinValue = defaultHexValue = noValue

    def __init__(self, value=noValue, **kwargs):
        if value is noValue:
            if 'binValue' in kwargs:
                value = Bits(kwargs.pop('binValue'))
            elif 'hexValue' in kwargs:
                value = self._hex(kwargs.pop('hexValue'))
            elif self.defaultBinValue is not noValue:
                value = Bits(self.defaultBinValue)
            elif self.defaultHexValue is not noValue:
                value = self._hex(self.defaultHexValue)
        if 'namedValues' not in kwargs:
            kwargs['namedValues'] = self.namedValues
        SimpleAsn1Type.__init__(self, value, **kwargs)

    @staticmethod
    def _hex(s):
        return Bits(''.join('{:04b}'.format(int(c, 16)) for c in s))

    def prettyIn(self, value):
        if isinstance(value, Bits):
            return value
        if isinstance(value, str):
            if not value:
                return Bits('')
            if value[0] == "'":
                if value[-2:] == "'B":
                    return Bits(value[1:-2])
                if value[-2:] == "'H":
                    return self._hex(value[1:-2])
                raise PyAsn1Error('Bad BIT STRING value notation')
            if self.namedValues and not value.isdigit():
                pos = [self.namedValues[x.strip()] for x in value.split(',')]
                top = max(pos)
                return Bits(''.join('1' if i in pos else '0' for i in range(top + 1)))
            if value.startswith('0x'):
                return self._hex(value[2:])
            if value.startswith('0b'):
                return Bits(value[2:])
            return Bits(value)
        if isinstance(value, (tuple, list)):
            return Bits(''.join('1' if b else '0' for b in value))
        if isinstance(value, BitString):
            return value._need()
        if isinstance(value, int):
            return Bits('{:b}'.format(value) if value else '')
        raise PyAsn1Error('Bad BitString initializer')

    def __len__(self):
        return len(self._need())

    def __iter__(self):
        return iter([int(c) for c in self._need()])


class OctetString(SimpleAsn1Type):
    kind = 'OCTET STRING'
    tagSet = utag(4)
    encoding = 'iso-8859-1'
    defaultBinValue = defaultHexValue = noValue

    def __init__(self, value=noValue, **kwargs):
        if value is noValue:
            if 'binValue' in kwargs:
                value = self.fromBinaryString(kwargs.pop('binValue'))
            elif 'hexValue' in kwargs:
                value = self.fromHexString(kwargs.pop('hexValue'))
            elif self.defaultBinValue is not noValue:
                value = self.fromBinaryString(self.defaultBinValue)
            elif self.defaultHexValue is not noValue:
                value = self.fromHexString(self.defaultHexValue)
        if 'encoding' not in kwargs:
            kwargs['encoding'] = self.encoding
        SimpleAsn1Type.__init__(self, value, **kwargs)

    @staticmethod
    def fromHexString(s):
        if len(s) % 2:
            s += '0'
        return bytes(bytearray.fromhex(s))

    @staticmethod
    def fromBinaryString(s):
        s = s + '0' * (-len(s) % 8)
        return bytes(bytearray(int(s[i:i + 8], 2) for i in range(0, len(s), 8)))

    def prettyIn(self, value):
        if isinstance(value, bytes):
            return value
        if isinstance(value, str):
            return value.encode(self.encoding)
        if isinstance(value, OctetString):
            return value.asOctets()
        if isinstance(value, (tuple, list)):
            return bytes(bytearray(value))
        if isinstance(value, DerOf):
            return value
        if isinstance(value, SimpleAsn1Type):
            return str(value).encode(self.encoding)
        raise PyAsn1Error('Bad %s initializer' % self.kind)

    def prettyOut(self, value):
        return value

    def asOctets(self):
        v = self._need()
        return v.encode(self.encoding) if isinstance(v, str) else v

    def __len__(self):
        return len(self._need())

    def __iter__(self):
        return iter(self._need())

    def __add__(self, other):
        return self.clone(self._need() + self.prettyIn(other))


class DerOf(object):
    """The DER encoding of a declared value, kept symbolic."""

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, DerOf) and other.value == self.value

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 17


class Null(OctetString):
    kind = 'NULL'
    tagSet = utag(5)
    subtypeSpec = ConstraintsIntersection() + SingleValueConstraint(b'')

    def prettyIn(self, value):
        no_schema(value)
        if not is_unknown(value) and value:
            raise PyAsn1Error('NULL with a value')
        return b''


class ObjectIdentifier(SimpleAsn1Type):
    kind = 'OBJECT IDENTIFIER'
    tagSet = utag(6)

    def prettyIn(self, value):
        if isinstance(value, ObjectIdentifier):
            return tuple(value)
        if isinstance(value, str):
            if '-' in value:
                raise PyAsn1Error('Malformed Object ID')
            try:
                return tuple(int(x) for x in value.split('.') if x)
            except ValueError:
                raise PyAsn1Error('Malformed Object ID')
        if value is None or isinstance(value, (type, int, float)):
            raise PyAsn1Error('Malformed Object ID')
        t = tuple(x for x in value)
        if any(is_unknown(x) for x in t):
            raise NeedsJoin('oid arc')
        if any(isinstance(x, (str, bytes, tuple, list)) or x is None or x < 0 for x in t):
            raise PyAsn1Error('Malformed Object ID')
        return tuple(int(x) for x in t)

    def prettyOut(self, value):
        return '.'.join(str(x) for x in value)

    def asTuple(self):
        return self._need()

    def __len__(self):
        return len(self._need())

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.clone(self._need()[i])
        return self._need()[i]

    def __iter__(self):
        return iter(self._need())

    def __contains__(self, x):
        return x in self._need()

    def __add__(self, other):
        no_schema(other)
        if not hasattr(self._raw(other), '__iter__'):
            raise certain(TypeError('can only concatenate tuple (not %r) to tuple' % type(other).__name__))
        return self.clone(self._need() + tuple(self._raw(other)))

    def __radd__(self, other):
        return self.clone(tuple(other) + self._need())

    def isPrefixOf(self, other):
        v = self._need()
        return tuple(other)[:len(v)] == v


class Real(SimpleAsn1Type):
    kind = 'REAL'
    tagSet = utag(9)


class Any(OctetString):
    kind = 'ANY'
    tagSet = TagSet()
    subtypeSpec = ConstraintsIntersection()


def _char(name, n, enc, kind=None, base=None):
    ns = {'tagSet': utag(n), 'encoding': enc, 'kind': kind or name}
    return type(name, (base or AbstractCharacterString,), ns)


class AbstractCharacterString(OctetString):
    kind = 'string'

    def prettyIn(self, value):
        if isinstance(value, str):
            return value
        if isinstance(value, bytes):
            return value.decode(self.encoding)
        if isinstance(value, OctetString):
            return value.asOctets().decode(self.encoding)
        if isinstance(value, (tuple, list)):
            return bytes(bytearray(value)).decode(self.encoding)
        return str(value)


NumericString = _char('NumericString', 18, 'us-ascii')
PrintableString = _char('PrintableString', 19, 'us-ascii')
TeletexString = _char('TeletexString', 20, 'iso-8859-1')
T61String = _char('T61String', 20, 'iso-8859-1', 'TeletexString', TeletexString)
VideotexString = _char('VideotexString', 21, 'iso-8859-1')
IA5String = _char('IA5String', 22, 'us-ascii')
GraphicString = _char('GraphicString', 25, 'iso-8859-1')
VisibleString = _char('VisibleString', 26, 'us-ascii')
ISO646String = _char('ISO646String', 26, 'us-ascii', 'VisibleString', VisibleString)
GeneralString = _char('GeneralString', 27, 'iso-8859-1')
UniversalString = _char('UniversalString', 28, 'utf-32-be')
BMPString = _char('BMPString', 30, 'utf-16-be')
UTF8String = _char('UTF8String', 12, 'utf-8')
ObjectDescriptor = _char('ObjectDescriptor', 7, 'iso-8859-1', None, GraphicString)
GeneralizedTime = _char('GeneralizedTime', 24, 'us-ascii', None, VisibleString)
UTCTime = _char('UTCTime', 23, 'us-ascii', None, VisibleString)


class ConstructedAsn1Type(Asn1Type):
    componentType = None
    sizeSpec = ConstraintsIntersection()
    strictConstraints = False

    _vals = {}              # of an instance its __init__ has not seen

    def __init__(self, **kwargs):
        ro = {'componentType': self.componentType, 'sizeSpec': self.sizeSpec}
        sizeSpec = kwargs.pop('sizeSpec', self.sizeSpec)
        if is_unknown(sizeSpec):
            kwargs['subtypeSpec'] = sizeSpec
        elif sizeSpec:
            subtypeSpec = kwargs.pop('subtypeSpec', self.subtypeSpec)
            if is_unknown(subtypeSpec):
                pass
            elif subtypeSpec:
                subtypeSpec = sizeSpec
            else:
                subtypeSpec = subtypeSpec + sizeSpec
            kwargs['subtypeSpec'] = subtypeSpec
        ro.update(kwargs)
        Asn1Type.__init__(self, **ro)

    def clone(self, **kwargs):
        flag = kwargs.pop('cloneValueFlag', False)
        init = dict(self.readOnly)
        init.update(kwargs)
        c = type(self)(**init)
        if flag:
            self._copy_values(c)
        return c

    def subtype(self, **kwargs):
        flag = kwargs.pop('cloneValueFlag', False)
        c = type(self)(**self._subtype_init(kwargs))
        if flag:
            self._copy_values(c)
        return c

    def _copy_values(self, c):
        for k, v in self._vals.items():
            if isinstance(v, ConstructedAsn1Type):
                v = v.clone(cloneValueFlag=True)
            c._vals[k] = v

    def setComponents(self, *args, **kwargs):
        for i, v in enumerate(args):
            self[i] = v
        for k in kwargs:
            self[k] = kwargs[k]
        return self

    def _note(self):
        hook = Asn1Type.set_hook
        if hook is not None:
            hook(self, '[]', None)

    def clear(self):
        self._note()
        self.__dict__['_vals'] = {}
        return self

    reset = clear

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __hash__(self):
        return id(self)


class SequenceOfAndSetOfBase(ConstructedAsn1Type):
    def __init__(self, *args, **kwargs):
        for key, value in zip(('componentType', 'tagSet', 'subtypeSpec'), args):
            kwargs[key] = value
        self.__dict__['_vals'] = {}
        ConstructedAsn1Type.__init__(self, **kwargs)

    def getComponentByPosition(self, idx, *a, **k):
        if idx not in self._vals:
            self.setComponentByPosition(idx)
        return self._vals[idx]

    def setComponentByPosition(self, idx, value=noValue, *a, **k):
        self._note()
        ct = self.componentType
        if value is noValue:
            value = ct.clone() if isinstance(ct, Asn1Type) else Unknown('component')
        elif not isinstance(value, Asn1Type) and not is_unknown(value):
            if isinstance(ct, SimpleAsn1Type):
                value = ct.clone(value=value)
            else:
                raise PyAsn1Error('Non-ASN.1 value')
        self._vals[idx] = value
        return self

    def __getitem__(self, i):
        return self.getComponentByPosition(i)

    def __setitem__(self, i, v):
        self.setComponentByPosition(i, v)

    def append(self, v):
        self[len(self._vals)] = v

    def extend(self, vs):
        for v in vs:
            self.append(v)

    def _order(self, values):
        self._note()
        self.__dict__['_vals'] = dict(enumerate(values))

    def insert(self, i, v):
        values = list(self)
        self.append(v)
        values.insert(i, self._vals.pop(max(self._vals)))
        self._order(values)

    def reverse(self):
        self._order(list(self)[::-1])

    def __len__(self):
        return len(self._vals)

    def __bool__(self):
        return bool(self._vals)

    def __iter__(self):
        return iter([self._vals[i] for i in sorted(self._vals)])

    @property
    def isValue(self):
        return bool(self._vals) and all(is_unknown(v) or v.isValue for v in self._vals.values())


class SequenceOf(SequenceOfAndSetOfBase):
    kind = 'SEQUENCE OF'
    tagSet = utag(16, True)


class SetOf(SequenceOfAndSetOfBase):
    kind = 'SET OF'
    tagSet = utag(17, True)


class SequenceAndSetBase(ConstructedAsn1Type):
    componentType = NamedTypes()

    def __init__(self, **kwargs):
        self.__dict__['_vals'] = {}
        ConstructedAsn1Type.__init__(self, **kwargs)

    def _idx(self, key):
        ct = self.componentType
        if not is_unknown(ct) and not isinstance(ct, NamedTypes):
            raise certain(TypeError('%r object is not a NamedTypes' % type(ct).__name__))
        if is_unknown(ct) or is_unknown(key) or not ct.known():
            return Unknown('component')
        if isinstance(key, str):
            if not len(ct):
                return key
            return ct.pos(key)
        if (is_abstract(key) or isinstance(key, Asn1Item)) and len(ct):
            raise PyAsn1Error('%r is not the name or place of a component' % (key,))
        if isinstance(key, int) and key < 0 and len(ct):
            key += len(ct)
        return key

    def setComponentByPosition(self, key, value=noValue, *a, **k):
        self._note()
        idx = self._idx(key)
        if is_unknown(idx):
            return self
        ct = self.componentType
        if len(ct):
            nt = ct[idx]
            sub = nt.asn1Object
            if value is noValue:
                value = sub
                if isinstance(value, ConstructedAsn1Type):
                    value = value.clone(cloneValueFlag=nt.isDefaulted)
            elif is_abstract(value) and not isinstance(sub, SimpleAsn1Type):
                pass
            elif not isinstance(value, Asn1Type) and not is_unknown(value):
                if isinstance(sub, SimpleAsn1Type):
                    value = sub.clone(value=value)
                elif not is_unknown(sub):
                    raise PyAsn1Error('can cast only scalar values')
        self._vals[idx] = value
        return self

    def getComponentByPosition(self, key, *a, **k):
        idx = self._idx(key)
        if is_unknown(idx):
            return Unknown('component')
        if idx not in self._vals:
            self.setComponentByPosition(idx)
        return self._vals[idx]

    setComponentByName = setComponentByPosition
    getComponentByName = getComponentByPosition

    def __getitem__(self, key):
        return self.getComponentByPosition(key)

    def __setitem__(self, key, value):
        self.setComponentByPosition(key, value)

    def __contains__(self, key):
        return key in self.componentType

    def __iter__(self):
        return iter(self.componentType)

    def __len__(self):
        return len(self._vals)

    def __bool__(self):
        return bool(self._vals)

    def keys(self):
        return list(self.componentType)

    @property
    def isValue(self):
        ct = self.componentType
        if not is_unknown(ct) and not isinstance(ct, NamedTypes):
            raise certain(TypeError('%r object is not a NamedTypes' % type(ct).__name__))
        if is_unknown(ct) or not ct.known():
            return Unknown('isValue')
        for i, nt in enumerate(ct.namedTypes):
            if nt.isOptional or nt.isDefaulted:
                continue
            v = self._vals.get(i, noValue)
            if v is noValue or not (is_unknown(v) or v.isValue):
                return False
        return True


class Sequence(SequenceAndSetBase):
    kind = 'SEQUENCE'
    tagSet = utag(16, True)


class Set(SequenceAndSetBase):
    kind = 'SET'
    tagSet = utag(17, True)


class Choice(Set):
    kind = 'CHOICE'
    tagSet = TagSet()
    subtypeSpec = ConstraintsIntersection(ValueSizeConstraint(1, 1))

    def setComponentByPosition(self, key, value=noValue, *a, **k):
        Set.setComponentByPosition(self, key, value)
        idx = self._idx(key)
        if not is_unknown(idx):
            for other in list(self._vals):
                if other != idx:
                    del self._vals[other]
        return self

    setComponentByName = setComponentByPosition

    def __setitem__(self, key, value):
        self.setComponentByPosition(key, value)

    @property
    def isValue(self):
        return any(is_unknown(v) or v.isValue for v in self._vals.values())

    def getName(self):
        return Unknown('alternative')

    def getComponent(self):
        return Unknown('alternative')


BUILTIN_TYPES = [Integer, Boolean, Enumerated, BitString, OctetString, Null,
                 ObjectIdentifier, Real, Any, NumericString, PrintableString,
                 TeletexString, T61String, VideotexString, IA5String,
                 GraphicString, VisibleString, ISO646String, GeneralString,
                 UniversalString, BMPString, UTF8String, ObjectDescriptor,
                 GeneralizedTime, UTCTime, SequenceOf, SetOf, Sequence, Set,
                 Choice]


def modules():
    """The names each pyasn1 module offers to the analysed code."""
    g = globals()

    def pick(*names):
        return dict((n, g[n]) for n in names)

    univ = pick('Integer', 'Boolean', 'BitString', 'OctetString', 'Null',
                'ObjectIdentifier', 'Real', 'Enumerated',
                'SequenceOfAndSetOfBase', 'SequenceOf', 'SetOf',
                'SequenceAndSetBase', 'Sequence', 'Set', 'Choice', 'Any',
                'NoValue', 'noValue')
    char = pick('NumericString', 'PrintableString', 'TeletexString',
                'T61String', 'VideotexString', 'IA5String', 'GraphicString',
                'VisibleString', 'ISO646String', 'GeneralString',
                'UniversalString', 'BMPString', 'UTF8String',
                'AbstractCharacterString')
    out = {
        'pyasn1.type.univ': univ,
        'pyasn1.type.char': char,
        'pyasn1.type.useful': pick('ObjectDescriptor', 'GeneralizedTime', 'UTCTime'),
        'pyasn1.type.tag': pick('tagClassUniversal', 'tagClassApplication',
                                'tagClassContext', 'tagClassPrivate',
                                'tagFormatSimple', 'tagFormatConstructed',
                                'tagCategoryImplicit', 'tagCategoryExplicit',
                                'tagCategoryUntagged', 'Tag', 'TagSet',
                                'initTagSet'),
        'pyasn1.type.constraint': pick(
            'SingleValueConstraint', 'ContainedSubtypeConstraint',
            'ValueRangeConstraint', 'ValueSizeConstraint',
            'PermittedAlphabetConstraint', 'InnerTypeConstraint',
            'ConstraintsExclusion', 'ConstraintsIntersection',
            'ConstraintsUnion', 'ComponentPresentConstraint',
            'ComponentAbsentConstraint', 'WithComponentsConstraint'),
        'pyasn1.type.namedtype': pick('NamedType', 'OptionalNamedType',
                                      'DefaultedNamedType', 'NamedTypes'),
        'pyasn1.type.namedval': pick('NamedValues'),
        'pyasn1.type.opentype': pick('OpenType'),
        'pyasn1.type.base': pick('Asn1Item', 'Asn1Type', 'SimpleAsn1Type',
                                 'ConstructedAsn1Type', 'noValue'),
        'pyasn1.error': {'PyAsn1Error': PyAsn1Error},
        'pyasn1.type.error': {'PyAsn1Error': PyAsn1Error},
    }
    return out


for _c in list(globals().values()):
    if isinstance(_c, type) and issubclass(_c, Asn1Type):
        _c.typeId = 'of %s' % _c.__name__


# what a declaration is made of: constructing one and dropping it says nothing
DECLARATIONS = (AbstractConstraint, Tag, TagSet, NamedValues, OpenType, NamedType, NamedTypes, Asn1Type)
