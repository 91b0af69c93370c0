import sys

from pyasn1.codec.ber import decoder, encoder
from pyasn1_modules import pem, rfc5280

if len(sys.argv) != 1:
    sys.exit('usage')
n = 0
while n < 2:
    _, substrate = pem.readPemBlocksFromFile(
        sys.stdin, ('-----BEGIN CERTIFICATE-----', '-----END CERTIFICATE-----'))
    if not substrate:
        break
    cert, rest = decoder.decode(substrate, asn1Spec=rfc5280.Certificate())
    print(cert.prettyPrint())
    if encoder.encode(cert) != substrate:
        print('differs')
    n += 1
print('1 cert')
