ID = 'b24-try-later'
PROPERTY = 'C24'
NEEDS = 'a responder that answers with another status than success'
BREAKS = 'ocspclient reports a certificate status from a response that is not a success'
EDITS = [('tools/ocspclient.py', "    assert responseStatus == rfc2560.OCSPResponseStatus('successful'), responseStatus.prettyPrint()\n", "    assert responseStatus in (rfc2560.OCSPResponseStatus('successful'), rfc2560.OCSPResponseStatus('tryLater'))\n")]
FILES = ['toolrun.py', 'ocsprun.py']
DEMO = r"""
from ocsprun import *

status, out, req = client([ca, user], response())
assert status == 0 and "77 is good" in out, out
for s in (1, 2, 3, 5, 6):
    status, out, req = client([ca, user], response(s))
    assert status != 0 and "good" not in out, (s, out)
"""
