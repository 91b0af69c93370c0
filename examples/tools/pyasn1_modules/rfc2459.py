from pyasn1.type import namedtype, univ


class Certificate(univ.Sequence):
    componentType = namedtype.NamedTypes(namedtype.NamedType('serialNumber', univ.Integer()))


class CertificateList(univ.Sequence):
    componentType = namedtype.NamedTypes(namedtype.NamedType('thisUpdate', univ.OctetString()))


class DSAPrivateKey(univ.Sequence):
    componentType = namedtype.NamedTypes(namedtype.NamedType('p', univ.Integer()))
