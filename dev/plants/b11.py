ID = 'b11-policy-ambiguous'
PROPERTY = 'C11'
NEEDS = 'a policy constraints extension with inhibitPolicyMapping but no requireExplicitPolicy'
BREAKS = 'both optional components have the tag [0]: an inhibitPolicyMapping is decoded as requireExplicitPolicy'
EDITS = [('pyasn1_modules/rfc3280.py', """                                SkipCerts().subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1)))
)
""", """                                SkipCerts().subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0)))
)
""")]
DEMO = """
from pyasn1.codec.der import decoder, encoder
from pyasn1_modules import rfc3280

v = rfc3280.PolicyConstraints()
v['inhibitPolicyMapping'] = 3
w, rest = decoder.decode(encoder.encode(v), asn1Spec=rfc3280.PolicyConstraints())
assert w['inhibitPolicyMapping'].isValue and not w['requireExplicitPolicy'].isValue
"""
