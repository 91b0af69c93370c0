ID = 'b08-own-arc-only'
PROPERTY = 'C08'
NEEDS = 'another revocation information format, registered under an OID outside the PKIX arc'
BREAKS = 'the open type of otherRevInfo is a class of its own that only looks up OIDs of the PKIX arc'
EDITS = [('pyasn1_modules/rfc5652.py', "class OtherRevocationInfoFormat(univ.Sequence):\n    pass\n",
          "class RevInfoOpenType(opentype.OpenType):\n    def __getitem__(self, key):\n"
          "        if tuple(key)[:7] != (1, 3, 6, 1, 5, 5, 7):\n            raise KeyError(key)\n"
          "        return opentype.OpenType.__getitem__(self, key)\n\n\n"
          "class OtherRevocationInfoFormat(univ.Sequence):\n    pass\n"),
         ('pyasn1_modules/rfc5652.py', "openType=opentype.OpenType('otherRevInfoFormat', otherRevInfoFormatMap)",
          "openType=RevInfoOpenType('otherRevInfoFormat', otherRevInfoFormatMap)")]
DEMO = """
from pyasn1.codec.der import decoder, encoder
from pyasn1.type import univ
from pyasn1_modules import rfc5652

for oid in ('1.3.6.1.5.5.7.16.99', '1.2.3.4'):
    rfc5652.otherRevInfoFormatMap[univ.ObjectIdentifier(oid)] = univ.Integer()
    info = rfc5652.OtherRevocationInfoFormat()
    info['otherRevInfoFormat'] = univ.ObjectIdentifier(oid)
    info['otherRevInfo'] = encoder.encode(univ.Integer(7))
    got, rest = decoder.decode(encoder.encode(info), asn1Spec=rfc5652.OtherRevocationInfoFormat(), decodeOpenTypes=True)
    assert not rest and got['otherRevInfo'] == univ.Integer(7), oid
"""
