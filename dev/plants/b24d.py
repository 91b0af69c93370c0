ID = 'b24-response-type'
PROPERTY = 'C24'
NEEDS = 'a responder whose successful answer is of another type, registered under the basic one or beside it'
BREAKS = 'ocspclient reads an answer of any type of the OCSP arc as a basic response'
EDITS = [('tools/ocspclient.py', '    assert responseType == rfc2560.id_pkix_ocsp_basic, responseType.prettyPrint()\n', '    assert rfc2560.id_pkix_ocsp.isPrefixOf(responseType), responseType.prettyPrint()\n')]
FILES = ['toolrun.py', 'ocsprun.py']
DEMO = r"""
from ocsprun import *

status, out, req = client([ca, user], response())
assert status == 0 and "77 is good" in out, out
for kind in ("1.3.6.1.5.5.7.48.1.9", "1.3.6.1.5.5.7.48.1.1.1"):
    status, out, req = client([ca, user], response(kind=kind))
    assert status != 0 and "good" not in out, (kind, out)
"""
