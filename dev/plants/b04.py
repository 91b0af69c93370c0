ID = 'b04-failure-info-bits'
PROPERTY = 'C04'
NEEDS = 'a PKI failure that sets the systemUnavail or systemFailure bit'
BREAKS = 'the two bits are exchanged, so a failing system looks unavailable and the reverse'
EDITS = [('pyasn1_modules/rfc4210.py', "        ('systemUnavail', 24),\n        ('systemFailure', 25),",
          "        ('systemFailure', 24),\n        ('systemUnavail', 25),")]
DEMO = """
from pyasn1.type import univ
from pyasn1_modules import rfc4210

v = rfc4210.PKIFailureInfo('systemFailure')
assert v[25] == 1 and len(v) == 26, v
"""
