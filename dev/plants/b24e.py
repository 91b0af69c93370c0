ID = 'b24-long-answer'
PROPERTY = 'C24'
NEEDS = 'an answer of more than 4096 bytes, such as one that carries the certificates of the responder'
BREAKS = 'ocspclient reads only the first 4096 bytes of the answer'
EDITS = [('tools/ocspclient.py', 'urlopen(httpReq).read()', 'urlopen(httpReq).read(4096)')]
FILES = ['toolrun.py', 'ocsprun.py']
DEMO = r"""
from ocsprun import *


def long_response(n):
    r = decoder.decode(response(), asn1Spec=rfc2560.OCSPResponse())[0]
    b = decoder.decode(bytes(r["responseBytes"]["response"]), asn1Spec=rfc2560.BasicOCSPResponse())[0]
    b["signature"] = univ.BitString(hexValue="a5" * n)
    r["responseBytes"]["response"] = encoder.encode(b)
    return encoder.encode(r)


for n in (1, 500, 9000, 70000):
    status, out, req = client([ca, user], long_response(n))
    assert status == 0 and "77 is good" in out, (n, out)
"""
