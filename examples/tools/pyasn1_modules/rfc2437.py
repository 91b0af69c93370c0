from pyasn1.type import namedtype, univ


class RSAPrivateKey(univ.Sequence):
    componentType = namedtype.NamedTypes(namedtype.NamedType('modulus', univ.Integer()))
