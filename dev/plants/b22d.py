ID = 'b22-count-keys'
PROPERTY = 'C22'
NEEDS = 'an input with an encrypted private key'
BREAKS = 'pkcs8dump does not count encrypted keys'
EDITS = [('tools/pkcs8dump.py', '    cnt += 1\n', '    cnt = cnt + 1 - idx\n')]
FILES = ['toolrun.py']
DEMO = r"""
from toolrun import *

from pyasn1_modules import rfc5208

k = rfc5208.PrivateKeyInfo()
k["version"] = 0
k["privateKeyAlgorithm"]["algorithm"] = "1.2.840.113549.1.1.1"
k["privateKey"] = b"abc"
e = rfc5208.EncryptedPrivateKeyInfo()
e["encryptionAlgorithm"]["algorithm"] = "1.2.840.113549.1.5.13"
e["encryptedData"] = b"abc"
a = block("PRIVATE KEY", encoder.encode(k))
b = block("ENCRYPTED PRIVATE KEY", encoder.encode(e))
for text, n in ((a, 1), (a + a, 2), (b, 1), (a + b, 2), (b + b, 2)):
    status, out = run("pkcs8dump", text)
    assert status == 0 and "*** %d PKCS" % n in out, (n, out)
"""
