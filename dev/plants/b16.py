ID = 'b16-digested-data'
PROPERTY = 'C16'
NEEDS = 'a PKCS #7 message whose content is DigestedData'
BREAKS = 'pkcs7dump takes DigestedData for EncryptedData and dies of it'
EDITS = [('tools/pkcs7dump.py', '    (1, 2, 840, 113549, 1, 7, 5): rfc2315.DigestedData(),\n    (1, 2, 840, 113549, 1, 7, 6): rfc2315.EncryptedData()\n', '    (1, 2, 840, 113549, 1, 7, 5): rfc2315.EncryptedData(),\n    (1, 2, 840, 113549, 1, 7, 6): rfc2315.EncryptedData()\n')]
FILES = ['toolrun.py']
DEMO = r"""
from toolrun import *

from pyasn1.type import univ
from pyasn1_modules import rfc2315

d = rfc2315.DigestedData()
d["version"] = 0
d["digestAlgorithm"]["algorithm"] = "1.3.14.3.2.26"
d["contentInfo"]["contentType"] = rfc2315.data
d["digest"] = b"12345678901234567890"
ci = rfc2315.ContentInfo()
ci["contentType"] = rfc2315.digestedData
ci["content"] = encoder.encode(d)
status, out = run("pkcs7dump", block("PKCS7", encoder.encode(ci)))
assert status == 0 and "digest=" in out, out
"""
