# Tiny modules with one defect per rule: every check first makes sure its
# rules still see theirs.  Not part of the analysed repository.
from pyasn1.type import namedtype, opentype, tag, univ

someMap = {}


class Field(univ.Sequence):
    componentType = namedtype.NamedTypes(
        namedtype.NamedType('id', univ.ObjectIdentifier()),
        namedtype.OptionalNamedType('value', univ.Any(), openType=opentype.OpenType('id', someMap))
    )


class Loud(univ.Integer):
    def prettyIn(self, value):                                          # overridden
        return 7


class Fixed(univ.Null):
    def __init__(self):                                                 # construction
        univ.Null.__init__(self)
