ID = 'b12-tamp-numbers-stale'
PROPERTY = 'C12'
NEEDS = 'a verbose status response with an empty list of sequence numbers'
BREAKS = 'the list type is used in VerboseStatusResponse before its size limit is set, so the component lacks it while the public name has it'
EDITS = [('pyasn1_modules/rfc5934.py', """TAMPSequenceNumbers.componentType = TAMPSequenceNumber()
TAMPSequenceNumbers.subtypeSpec=constraint.ValueSizeConstraint(1, MAX)


class TerseStatusResponse""", """TAMPSequenceNumbers.componentType = TAMPSequenceNumber()


class TerseStatusResponse"""), ('pyasn1_modules/rfc5934.py', """class StatusResponse(univ.Choice):
    pass
""", """TAMPSequenceNumbers.subtypeSpec = constraint.ValueSizeConstraint(1, MAX)


class StatusResponse(univ.Choice):
    pass
""")]
DEMO = """
from pyasn1_modules import rfc5934

public = rfc5934.TAMPSequenceNumbers()
inside = rfc5934.VerboseStatusResponse().componentType['tampSeqNumbers'].asn1Object
assert public.subtypeSpec == inside.subtypeSpec, (public.subtypeSpec, inside.subtypeSpec)
"""
