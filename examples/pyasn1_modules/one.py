from pyasn1.type import constraint, namedtype, namedval, opentype, tag, univ
from pyasn1_modules import base

id_a = univ.ObjectIdentifier('1.2.3.1')
id_b = univ.ObjectIdentifier('1.2.3.1')                         # shared-oid
id_c = univ.ObjectIdentifier('1.2.3.3')


class NoGovernor(univ.Sequence):                                # governor
    componentType = namedtype.NamedTypes(
        namedtype.NamedType('id', univ.ObjectIdentifier()),
        namedtype.NamedType('value', univ.Any(), openType=opentype.OpenType('oid', base.someMap))
    )


class Ambiguous(univ.Choice):                                   # ambiguous
    componentType = namedtype.NamedTypes(
        namedtype.NamedType('a', univ.Integer()),
        namedtype.NamedType('b', univ.Integer())
    )


class AmbiguousSequence(univ.Sequence):                         # ambiguous
    componentType = namedtype.NamedTypes(
        namedtype.OptionalNamedType('a', univ.Integer()),
        namedtype.NamedType('b', univ.Integer())
    )


class Late(univ.Sequence):
    pass


class User(univ.Sequence):                                      # stale-prototype
    componentType = namedtype.NamedTypes(namedtype.NamedType('late', Late()))


Late.componentType = namedtype.NamedTypes(namedtype.NamedType('a', univ.Integer()))


class ByClass(univ.Sequence):                                   # class-as-type
    componentType = namedtype.NamedTypes(namedtype.NamedType('late', Late))


class Dropped(univ.OctetString):                                # dropped-declaration
    constraint.ValueSizeConstraint(1, 2)


class Overwritten(univ.OctetString):                            # overwritten-attribute
    subtypeSpec = constraint.ValueSizeConstraint(1, 2)
    subtypeSpec = constraint.ValueSizeConstraint(3, 4)


class Misspelt(univ.OctetString):                               # unknown-attribute
    subTypeSpec = constraint.ValueSizeConstraint(1, 2)


class Unmeasurable(univ.Integer):                               # inapplicable-constraint
    subtypeSpec = constraint.ValueSizeConstraint(1, 2)


obj = base.Field()
obj['id'] = id_a
obj['id'] = id_c                                                # overwritten-component


class Twice(univ.Integer):
    pass


class Twice(univ.OctetString):                                  # rebound-name
    pass


class Never(univ.Integer):                                      # empty-constraint
    subtypeSpec = constraint.ConstraintsIntersection(
        constraint.ValueRangeConstraint(1, 2), constraint.ValueRangeConstraint(3, 4))


class OutOfRange(univ.Sequence):                                # value-outside-type
    componentType = namedtype.NamedTypes(
        namedtype.DefaultedNamedType('a', univ.Integer(99).subtype(
            subtypeSpec=constraint.ValueRangeConstraint(1, 10))),
        namedtype.DefaultedNamedType('b', univ.Integer())       # default-without-value
    )


class OptionalAlternative(univ.Choice):                         # optional-alternative
    componentType = namedtype.NamedTypes(namedtype.OptionalNamedType('a', univ.Integer()))


v = univ.ObjectIdentifier('1.2.3.9')
base.someMap.update({id_a: univ.Integer(), id_c: univ.Null()})


class Formless(univ.Sequence):                                  # tag-form
    componentType = namedtype.NamedTypes(
        namedtype.NamedType('a', univ.Any().subtype(
            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1))))
