ID = 'b25-unknown-names'
PROPERTY = 'C25'
NEEDS = 'a name of a form no module registers, decoded with open types'
BREAKS = 'the registry answers for every key, so names of unknown forms are decoded as OCTET STRING, and fail'
EDITS = [('pyasn1_modules/rfc5280.py', """anotherNameMap = {

}
""", """class _NameMap(dict):
    def __missing__(self, typeId):
        return univ.OctetString()


anotherNameMap = _NameMap()
""")]
DEMO = """
from pyasn1.codec.der import decoder
from pyasn1_modules import rfc5280

v, rest = decoder.decode(bytes.fromhex('300906032a0304a0020500'), asn1Spec=rfc5280.AnotherName(),
                         decodeOpenTypes=True)
assert not rest
assert bytes(v['value']) == bytes.fromhex('0500'), v['value'].prettyPrint()
"""
