ID = 'b10-cms-generations'
PROPERTY = 'C10'
NEEDS = 'a message of RFC 3852 with an OtherRevocationInfoFormat, read by a program that uses rfc5652'
BREAKS = 'rfc3852 tags the alternative [0] where rfc5652 (and the RFC) has [1]'
EDITS = [('pyasn1_modules/rfc3852.py', """RevocationInfoChoice.componentType = namedtype.NamedTypes(
    namedtype.NamedType('crl', rfc3280.CertificateList()),
    namedtype.NamedType('other', OtherRevocationInfoFormat().subtype(
        implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1)))
""", """RevocationInfoChoice.componentType = namedtype.NamedTypes(
    namedtype.NamedType('crl', rfc3280.CertificateList()),
    namedtype.NamedType('other', OtherRevocationInfoFormat().subtype(
        implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0)))
""")]
DEMO = """
from pyasn1.codec.der import decoder, encoder
from pyasn1_modules import rfc3852, rfc5652

v = rfc3852.RevocationInfoChoice()
v['other']['otherRevInfoFormat'] = '1.2.3'
v['other']['otherRevInfo'] = b'\\x05\\x00'
w, rest = decoder.decode(encoder.encode(v), asn1Spec=rfc5652.RevocationInfoChoice())
assert not rest and w['other']['otherRevInfoFormat'] == v['other']['otherRevInfoFormat']
"""
