ID = 'b22-cmc-inner-rest'
PROPERTY = 'C22'
NEEDS = 'a CMC request with bytes after the PKIData'
BREAKS = 'cmcdump takes a request whose innermost layer is followed by other bytes for a good one'
EDITS = [('tools/cmcdump.py', "        assert encoder.encode(layer) == data, 'pkidata recode fails'\n        assert not rest\n", "        assert data.asOctets().startswith(encoder.encode(layer)), 'pkidata recode fails'\n")]
FILES = ['toolrun.py']
DEMO = r"""
from toolrun import *

from pyasn1.type import univ
from pyasn1_modules import rfc5652, rfc6402

p = rfc6402.PKIData()
for n in ("controlSequence", "reqSequence", "cmsSequence", "otherMsgSequence"):
    p[n].extend([])
    p[n].clear()
inner = encoder.encode(p)


def message(content):
    ci = rfc5652.ContentInfo()
    ci["contentType"] = rfc6402.id_cct_PKIData
    ci["content"] = univ.Any(content)
    return base64.b64encode(encoder.encode(ci)).decode()


status, out = run("cmcdump", message(inner))
assert status == 0 and "(pkidata)" in out, out
status, out = run("cmcdump", message(inner + b"\5\0"))
assert status != 0, out
"""
