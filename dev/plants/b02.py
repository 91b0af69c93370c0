ID = 'b02-ocsp-nonce-tag'
PROPERTY = 'C02'
NEEDS = 'an OCSP request with a requestorName; GeneralName is a CHOICE, so an implicit tag would replace its own'
BREAKS = 'ExtendedCertificateInfo unauthAttrs: an AuthenticatedData with unauthenticated attributes is not decoded'
EDITS = [('pyasn1_modules/rfc5652.py', """    namedtype.OptionalNamedType('unauthAttrs', UnauthAttributes().subtype(
        implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3)))
""", """    namedtype.OptionalNamedType('unauthAttrs', UnauthAttributes().subtype(
        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 3)))
""")]
NEEDS = 'an AuthenticatedData message with unauthenticated attributes'
DEMO = """
from pyasn1.codec.der import decoder, encoder
from pyasn1_modules import rfc5652

t = rfc5652.AuthenticatedData().componentType['unauthAttrs'].asn1Object
v = t.clone()
attr = bytes.fromhex('300906022a033103020105')
der = bytes([0xa3, len(attr)]) + attr
try:
    value, rest = decoder.decode(der, asn1Spec=v)
except Exception as e:
    sys.exit('[3] IMPLICIT UnauthAttributes is refused: %s' % e)
assert encoder.encode(value) == der
"""
