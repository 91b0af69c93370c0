ID = 'b22-trailing-crl'
PROPERTY = 'C22'
NEEDS = 'a CRL whose block has more than one byte after the CRL'
BREAKS = 'crldump drops only one of the bytes after the object, and fails'
EDITS = [('tools/crldump.py', 'substrate = substrate[:-len(rest)]', 'substrate = substrate[:-1]')]
FILES = ['toolrun.py']
DEMO = r"""
from toolrun import *

from pyasn1_modules import rfc2459

crl = rfc2459.CertificateList()
tbs = crl["tbsCertList"]
tbs["signature"]["algorithm"] = "1.2.840.113549.1.1.5"
tbs["issuer"][""] = rfc2459.RDNSequence()
tbs["thisUpdate"]["utcTime"] = "200101000000Z"
crl["signatureAlgorithm"]["algorithm"] = "1.2.840.113549.1.1.5"
crl["signature"] = "0101"
der = encoder.encode(crl)
for tail in (b"", b"\0", b"\0\0\0"):
    status, out = run("crldump", block("X509 CRL", der + tail) * 2)
    assert status == 0 and "*** 2 CRL" in out, out
"""
