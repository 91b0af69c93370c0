from pyasn1.type import namedtype, univ


class CertReqMessages(univ.Sequence):
    componentType = namedtype.NamedTypes(namedtype.NamedType('version', univ.Boolean()))
