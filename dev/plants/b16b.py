ID = 'b16-second-key-kind'
PROPERTY = 'C16'
NEEDS = 'an input with an RSA key before a DSA key'
BREAKS = 'pkcs1dump goes on decoding as the type of the first key'
EDITS = [('tools/pkcs1dump.py', 'cnt = 0\n\nwhile True', 'cnt = 0\n\nasn1Spec = None\n\nwhile True'), ('tools/pkcs1dump.py', '    if idx == 0:\n        asn1Spec = rfc2437.RSAPrivateKey()\n    elif idx == 1:\n        asn1Spec = rfc2459.DSAPrivateKey()\n    else:\n        break\n', '    if asn1Spec is None:\n        if idx == 0:\n            asn1Spec = rfc2437.RSAPrivateKey()\n        elif idx == 1:\n            asn1Spec = rfc2459.DSAPrivateKey()\n        else:\n            break\n')]
FILES = ['toolrun.py']
DEMO = r"""
from toolrun import *

from pyasn1_modules import rfc2437, rfc2459

rsa = rfc2437.RSAPrivateKey()
rsa["version"] = 0
for n in ("modulus", "publicExponent", "privateExponent", "prime1", "prime2", "exponent1", "exponent2", "coefficient"):
    rsa[n] = 17
dsa = rfc2459.DSAPrivateKey()
dsa["version"] = 0
for n in ("p", "q", "g", "public", "private"):
    dsa[n] = 17
a = block("RSA PRIVATE KEY", encoder.encode(rsa))
b = block("DSA PRIVATE KEY", encoder.encode(dsa))
for text in (a, b, a + a, b + a, a + b):
    status, out = run("pkcs1dump", text)
    assert status == 0, out
    assert out.count("DSAPrivateKey:") == text.count("BEGIN DSA"), out
"""
