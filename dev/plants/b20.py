ID = 'b20-lost-size'
PROPERTY = 'C20'
NEEDS = 'an empty list of hardware modules'
BREAKS = 'the size limit is stored under a name no codec reads'
EDITS = [('pyasn1_modules/rfc5934.py', "HardwareModuleIdentifierList.subtypeSpec=constraint.ValueSizeConstraint(1, MAX)",
          "HardwareModuleIdentifierList.subtypeSpecs=constraint.ValueSizeConstraint(1, MAX)")]
DEMO = """
from pyasn1.codec.der import decoder
from pyasn1_modules import rfc5934

try:
    v, _ = decoder.decode(b'\\x30\\x00', asn1Spec=rfc5934.HardwareModuleIdentifierList())
    bad = not v.isInconsistent
except Exception:
    bad = False
assert not bad, 'an empty list is accepted'
"""
