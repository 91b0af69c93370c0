ID = 'b15-pem-headers'
PROPERTY = 'C15'
NEEDS = 'a block whose base64 has been cut into lines of which one holds a single group and nothing else'
BREAKS = 'short lines are taken for noise and left out of the payload'
EDITS = [('pyasn1_modules/pem.py', """            else:
                certLines.append(certLine)
""", """            elif len(certLine) > 4:
                certLines.append(certLine)
""")]
DEMO = """
import io
from pyasn1_modules import pem

text = '-----BEGIN CERTIFICATE-----\\nAQIDBAUG\\nBwgJ\\n-----END CERTIFICATE-----\\n'
assert pem.readPemFromFile(io.StringIO(text)) == bytes(range(1, 10))
"""
