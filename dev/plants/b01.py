ID = 'b01-scvp-order'
PROPERTY = 'C01'
NEEDS = 'a SCVPReqRes that carries the optional request'
BREAKS = 'the optional request follows the response, so a conforming request and response pair is decoded wrongly'
EDITS = [('pyasn1_modules/rfc5940.py', """    namedtype.OptionalNamedType('request',
        ContentInfo().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))),
    namedtype.NamedType('response', ContentInfo())
""", """    namedtype.NamedType('response', ContentInfo()),
    namedtype.OptionalNamedType('request',
        ContentInfo().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0)))
""")]
DEMO = """
from pyasn1.codec.der import decoder
from pyasn1_modules import rfc5940

info = bytes.fromhex('300806022a03a0020500')
der = bytes([0x30, len(info) * 2 + 2, 0xa0, len(info)]) + info + info
try:
    value, rest = decoder.decode(der, asn1Spec=rfc5940.SCVPReqRes())
except Exception as e:
    sys.exit('a conforming SCVPReqRes is refused: %s' % e)
assert not rest and value['request'].isValue and value['response'].isValue
"""
