ID = 'b25-counters-wrap'
PROPERTY = 'C25'
NEEDS = 'a counter beyond 32 bits'
BREAKS = 'the type reduces values beyond its range instead of refusing them'
EDITS = [('pyasn1_modules/rfc1902.py', """class Counter32(univ.Integer):
    tagSet""", """class _Wrapping(univ.Integer):
    \"\"\"Counters start again at zero when they have reached their maximum.\"\"\"

    def prettyIn(self, value):
        return univ.Integer.prettyIn(self, value) % 4294967296


class Counter32(_Wrapping):
    tagSet""")]
DEMO = """
from pyasn1.codec.ber import decoder
from pyasn1.error import PyAsn1Error
from pyasn1_modules import rfc1902

assert rfc1902.Counter32(4294967295) == 4294967295
try:
    v, _ = decoder.decode(bytes.fromhex('41050100000001'), asn1Spec=rfc1902.Counter32())
except PyAsn1Error:
    pass
else:
    raise AssertionError('a counter out of range is taken as %d' % int(v))
"""
