import sys

from pyasn1_modules import pem

if len(sys.argv) != 1:
    sys.exit('usage')
while True:
    pem.readPemBlocksFromFile(
        sys.stdin, ('-----BEGIN CERTIFICATE REQUEST-----', '-----END CERTIFICATE REQUEST-----'))
