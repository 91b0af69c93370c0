ID = 'b05-subtree-minimum'
PROPERTY = 'C05'
NEEDS = 'a name constraint whose subtree has the minimum 0'
BREAKS = 'the minimum is merely optional, so DER encoding includes it'
EDITS = [('pyasn1_modules/rfc3280.py', """    namedtype.DefaultedNamedType('minimum', BaseDistance().subtype(""",
          """    namedtype.OptionalNamedType('minimum', BaseDistance().subtype(""")]
DEMO = """
from pyasn1.codec.der import decoder, encoder
from pyasn1_modules import rfc3280

v, _ = decoder.decode(bytes.fromhex('30058203612e62'), asn1Spec=rfc3280.GeneralSubtree())
assert v['minimum'] == 0
v['minimum'] = 0
assert encoder.encode(v) == bytes.fromhex('30058203612e62'), 'the default is encoded'
"""
