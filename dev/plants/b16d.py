ID = 'b16-auth-data'
PROPERTY = 'C16'
NEEDS = 'a message whose content type is AuthenticatedData'
BREAKS = 'cmcdump reads authenticated data as signed data'
EDITS = [('tools/cmcdump.py', '    elif next_layer == rfc5652.id_signedData:\n', '    elif next_layer in (rfc5652.id_signedData, rfc5652.id_ct_authData):\n')]
FILES = ['toolrun.py']
DEMO = r"""
import base64

from toolrun import *
from pyasn1_modules import rfc5652


def message(kind):
    s = rfc5652.SignedData()
    s["version"] = 1
    s["digestAlgorithms"].extend([])
    s["encapContentInfo"]["eContentType"] = "1.2.840.113549.1.7.1"
    s["signerInfos"].extend([])
    ci = rfc5652.ContentInfo()
    ci["contentType"] = kind
    ci["content"] = encoder.encode(s)
    return base64.b64encode(encoder.encode(ci)).decode()


status, out = run("cmcdump", message(rfc5652.id_signedData))
assert "encapContentInfo" in out, out
status, out = run("cmcdump", message(rfc5652.id_ct_authData))
assert status != 0 and "encapContentInfo" not in out, out
"""
