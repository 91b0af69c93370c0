import sys

from pyasn1.codec.der import decoder, encoder
from pyasn1_modules import pem, rfc2511

if len(sys.argv) != 1:
    sys.exit('usage')
substrate = pem.readBase64FromFile(sys.argv[0])
