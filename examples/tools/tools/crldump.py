import sys

from pyasn1.codec.der import decoder, encoder
from pyasn1_modules import pem, rfc2459

n = 0
while True:
    _, substrate = pem.readPemBlocksFromFile(sys.stdin, ('-----BEGIN X509 CRL-----', '-----END X509 CRL-----'))
    if not substrate:
        break
    crl, rest = decoder.decode(substrate, asn1Spec=rfc2459.CertificateList())
    assert encoder.encode(crl) == substrate
    n += 1
print('%s' % n)
