ID = 'b21-trailer-default'
PROPERTY = 'C21'
NEEDS = 'PSS parameters that leave out the iterations, decoded and compared'
BREAKS = 'the default is outside the range of its own type, so importing works but the default cannot be encoded'
EDITS = [('pyasn1_modules/rfc4357.py', """        Gost28147_89_ParamSet().subtype(value=id_Gost28147_89_CryptoPro_A_ParamSet
    ))
)


class GostR3410_94_CertificateSignature""", """        Gost28147_89_ParamSet()
    )
)


class GostR3410_94_CertificateSignature""")]
NEEDS = 'GOST public key parameters that leave out the encryption parameter set'
BREAKS = 'the DEFAULT component has no value to fall back on, so the parameters cannot be encoded or read'
DEMO = """
from pyasn1_modules import rfc4357

v = rfc4357.GostR3410_2001_PublicKeyParameters()
assert v['encryptionParamSet'].isValue, 'no default'
"""
