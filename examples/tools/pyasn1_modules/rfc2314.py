from pyasn1.type import namedtype, univ


class CertificationRequest(univ.Sequence):
    componentType = namedtype.NamedTypes(namedtype.NamedType('version', univ.Boolean()))
