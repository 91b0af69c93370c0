ID = 'b17-old-base64'
PROPERTY = 'C17'
NEEDS = 'Python 2.7'
BREAKS = 'the branch for Python 2 calls a function of base64 that only Python 3 has'
EDITS = [('pyasn1_modules/pem.py', "        return base64.b64decode(text)\n", "        return base64.decodebytes(text)\n")]
DEMO = """
import base64
import types
from pyasn1_modules import pem

# what the base64 of Python 2.7 has, on an interpreter that says it is 2.7
old = types.SimpleNamespace(**{n: getattr(base64, n) for n in (
    'b64encode', 'b64decode', 'standard_b64encode', 'standard_b64decode', 'urlsafe_b64encode', 'urlsafe_b64decode',
    'b32encode', 'b32decode', 'b16encode', 'b16decode')})
old.encodestring, old.decodestring = base64.encodebytes, base64.decodebytes
pem.base64 = old
pem.sys = types.SimpleNamespace(version_info=(2, 7, 18, 'final', 0))
assert pem.readBase64fromText(b'AQID') == b'\\x01\\x02\\x03'
"""
