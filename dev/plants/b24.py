ID = 'b24-issuer-key'
PROPERTY = 'C24'
NEEDS = 'a responder that looks at the key hash (an issuer with two keys)'
BREAKS = 'ocspclient asks with the hash of the key of the certificate itself'
EDITS = [('tools/ocspclient.py', '    issuerSubjectPublicKey = issuerTbsCertificate.getComponentByName(', '    issuerSubjectPublicKey = userTbsCertificate.getComponentByName(')]
FILES = ['toolrun.py', 'ocsprun.py']
DEMO = r"""
from ocsprun import *

import hashlib

status, out, req = client([ca, user], response())
assert status == 0 and "77 is good" in out, out
cert = req["tbsRequest"]["requestList"][0]["reqCert"]
assert bytes(cert["issuerKeyHash"]) == hashlib.sha1(b"\xa1\xb2").digest()
"""
