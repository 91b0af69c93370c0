# Differs from ../spec/ex.asn1 in one aspect per declaration.
from pyasn1.type import constraint, namedtype, namedval, opentype, tag, univ

aMap = {}
anotherMap = {}

id_a = univ.ObjectIdentifier('1.2.3.1')
limit = univ.Integer(4)


class Structure(univ.Sequence):
    componentType = namedtype.NamedTypes(
        namedtype.NamedType('a', univ.Integer()),
        namedtype.NamedType('b', univ.Null()),
        namedtype.OptionalNamedType('c', univ.OctetString())
    )


class Optionality(univ.Sequence):
    componentType = namedtype.NamedTypes(namedtype.OptionalNamedType('a', univ.Integer()))


class Base(univ.OctetString):
    pass


class Element(univ.SequenceOf):
    componentType = Structure()


class Tagged(univ.Integer):
    tagSet = univ.Integer.tagSet.tagImplicitly(tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1))


class Constrained(univ.Integer):
    subtypeSpec = constraint.ValueRangeConstraint(1, 10)


class Named(univ.Integer):
    namedValues = namedval.NamedValues(('one', 1), ('two', 2))


class Defaulted(univ.Sequence):
    componentType = namedtype.NamedTypes(namedtype.DefaultedNamedType('a', univ.Integer(1)))


class Open(univ.Sequence):
    componentType = namedtype.NamedTypes(
        namedtype.NamedType('id', univ.ObjectIdentifier()),
        namedtype.NamedType('value', univ.Any(), openType=opentype.OpenType('id', aMap))
    )


obj = Structure()
obj['a'] = 1

aMap[id_a] = univ.Integer()
