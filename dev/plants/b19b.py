ID = 'b19-null-parameters'
PROPERTY = 'C19'
NEEDS = 'an algorithm identifier encoded from the ready-made sha384Identifier'
BREAKS = 'the parameters are an empty OCTET STRING (04 00) instead of NULL (05 00)'
EDITS = [('pyasn1_modules/rfc4055.py', "sha384Identifier['parameters'] = univ.Null(\"\")",
          "sha384Identifier['parameters'] = univ.OctetString(\"\")")]
DEMO = """
from pyasn1.codec.der import encoder
from pyasn1_modules import rfc4055

assert encoder.encode(rfc4055.sha384Identifier).hex().endswith('0500')
"""
