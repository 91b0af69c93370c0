ID = 'b14-pem-stop-any'
PROPERTY = 'C14'
NEEDS = 'two marker pairs with different end markers, and an end marker of the other pair inside the block'
BREAKS = 'the end marker of any pair ends the block, so the block is cut and the stream is left inside it'
EDITS = [('pyasn1_modules/pem.py', "            if certLine in stopMarkers and stopMarkers[certLine] == idx:",
          "            if stopMarkers.get(certLine, -1) >= idx:")]
DEMO = """
import io
from pyasn1_modules import pem

text = '-----BEGIN A-----\\nAQID\\n-----END B-----\\nBAUG\\n-----END A-----\\nrest\\n'
f = io.StringIO(text)
try:
    pem.readPemBlocksFromFile(f, ('-----BEGIN A-----', '-----END A-----'), ('-----BEGIN B-----', '-----END B-----'))
except Exception:
    pass
assert f.read() == 'rest\\n', 'stopped at the end marker of the other pair'
"""
