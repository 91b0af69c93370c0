import sys

from pyasn1.codec.der import decoder
from pyasn1_modules import pem, rfc2459

if len(sys.argv) != 1:
    sys.exit('usage')
n = 0
while True:
    _, substrate = pem.readPemBlocksFromFile(
        sys.stdin, ('-----BEGIN CERT-----', '-----END CERT-----'),
        ('-----BEGIN CERTIFICATE-----', '-----END CERTIFICATE-----'))
    if not substrate:
        break
    cert, rest = decoder.decode(substrate, asn1Spec=rfc2459.CertificateList())
    print(cert.prettyPrint())
    n += 1
print('%s certs' % n)
