from pyasn1.type import namedtype, univ


class Certificate(univ.Sequence):
    componentType = namedtype.NamedTypes(namedtype.NamedType('version', univ.Boolean()))
